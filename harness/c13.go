package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C13: parsing depends only on the text.
//
// Oracles: (a) the tree the generator wrote the text from; (b) for every
// prefix, an independent notion of "unfinished"; (c) whole-text parse of the
// same prefix in a fresh interpreter, for every way of cutting and for every
// earlier history.

func init() {
	register(&Prop{
		ID: "C13",
		Rule: "delivering a text in pieces gives after every piece exactly what delivering that prefix whole gives; " +
			"more input is asked for exactly inside an open bracket, string, raw string or block comment; " +
			"the parsed tree is the one the text was written from; earlier parses on the interpreter change nothing",
		Assumptions: []string{
			"pieces are cut at rune boundaries",
			"a dangling quote or template prefix operator at the end of a text may either be an error or ask for more",
			"after a hard error in a text nothing more is compared for that text",
		},
		N: func(t string) int {
			if t == "thorough" {
				return 60000
			}
			return 12000
		},
		Run:         c13Run,
		Init:        c13Init,
		MinDistinct: func(t string) int { return 1500 },
	})
	probes["c13gen"] = func(a []string) {
		for i := 0; i < 20; i++ {
			g := &c13gen{r: rand.New(rand.NewSource(int64(i)))}
			g.text(8)
			fmt.Printf("%q\n   %s\n", g.sb.String(), strings.Join(g.want, " "))
		}
	}
}

var c13files []string

func c13Init(c *Ctx) {
	c13files = corpusFiles()
}

// corpusFiles lists the script corpus of the repository.
func corpusFiles() []string {
	dir := envOr("ZMON_CORPUS", "/repo/tests")
	m, _ := filepath.Glob(filepath.Join(dir, "*.zy"))
	sort.Strings(m)
	return m
}

// ---------------------------------------------------------------- observing

func c13flag(x interface{}, name string) bool {
	v := reflect.ValueOf(x).Elem().FieldByName(name)
	return v.IsValid() && v.Kind() == reflect.Bool && v.Bool()
}

// c13dump renders a parsed tree with the flags later stages look at.
func c13dump(x zygo.Sexp, comments bool) string {
	var sb strings.Builder
	c13write(&sb, x, comments)
	return sb.String()
}

func c13isComment(x zygo.Sexp) bool { _, ok := x.(*zygo.SexpComment); return ok }

func c13write(sb *strings.Builder, x zygo.Sexp, comments bool) {
	switch t := x.(type) {
	case nil:
		sb.WriteString("<gonil>")
	case *zygo.SexpSymbol:
		sb.WriteString("'" + strconv.Quote(t.Name()))
		if c13flag(t, "colonTail") {
			sb.WriteString(":")
		}
		if c13flag(t, "isDot") {
			sb.WriteString(".")
		}
	case *zygo.SexpStr:
		if c13flag(t, "backtick") {
			sb.WriteString("`")
		}
		sb.WriteString(strconv.QuoteToASCII(t.S))
	case *zygo.SexpComment:
		sb.WriteString("//" + strconv.Quote(t.Comment))
	case *zygo.SexpComma:
		sb.WriteString("<,>")
	case *zygo.SexpSemicolon:
		sb.WriteString("<;>")
	case *zygo.SexpPair:
		at := sb.Len()
		sb.WriteString("(")
		first := true
		var cur zygo.Sexp = t
		for {
			p, ok := cur.(*zygo.SexpPair)
			if !ok {
				break
			}
			if comments || !c13isComment(p.Head) {
				if !first {
					sb.WriteString(" ")
				}
				first = false
				c13write(sb, p.Head, comments)
			}
			cur = p.Tail
		}
		if cur != zygo.SexpNull {
			sb.WriteString(" . ")
			c13write(sb, cur, comments)
		} else if first {
			// nothing but comments
			kept := sb.String()[:at]
			sb.Reset()
			sb.WriteString(kept + "nil")
			return
		}
		sb.WriteString(")")
	case *zygo.SexpArray:
		// the Infix mark is not compared: the infix head says the same
		o, c := "[", "]"
		sb.WriteString(o)
		first := true
		for _, e := range t.Val {
			if comments || !c13isComment(e) {
				if !first {
					sb.WriteString(" ")
				}
				first = false
				c13write(sb, e, comments)
			}
		}
		sb.WriteString(c)
	default:
		sb.WriteString(dump(x))
	}
}

func c13list(xs []zygo.Sexp, comments bool) string {
	var sb strings.Builder
	first := true
	for _, x := range xs {
		if x == zygo.SexpEnd || (!comments && c13isComment(x)) {
			continue
		}
		if !first {
			sb.WriteString(" ")
		}
		first = false
		c13write(&sb, x, comments)
	}
	return sb.String()
}

type c13res struct {
	kind string // "" more hard panic
	list string // with comments
	bare string // without comments
	err  string
}

func (r c13res) String() string {
	s := r.kind
	if s == "" {
		s = "done"
	}
	if r.kind == "hard" || r.kind == "panic" {
		s += " (" + strings.SplitN(r.err, "\n", 2)[0] + ")"
	}
	return s + ": " + r.list
}

func c13step(p *zygo.Parser) (res c13res) {
	defer func() {
		if r := recover(); r != nil {
			res = c13res{kind: "panic", err: fmt.Sprint(r)}
		}
	}()
	xs, err := p.ParseTokens()
	res.list = c13list(xs, true)
	res.bare = c13list(xs, false)
	switch {
	case err == nil:
	case err == zygo.ErrMoreInputNeeded || err == zygo.UnexpectedEnd:
		res.kind = "more"
	default:
		res.kind = "hard"
		res.err = err.Error()
	}
	return
}

// c13whole delivers a text at once to a parser of its own.
func c13whole(c *Ctx, env *zygo.Zlisp, text string) c13res {
	c.Eval()
	p := env.NewParser()
	p.NewInput(bytes.NewBufferString(text))
	r := c13step(p)
	stopParser(p)
	return r
}

func stopParser(p *zygo.Parser) {
	defer func() { recover() }()
	p.Stop()
}

// ---------------------------------------------------------------- generating

// tok states of a rune offset: what the text before it has left open.
const (
	c13inStr = 1 << iota
	c13inRaw
	c13inBlock
	c13inChar
	c13dangling
	c13afterSlash // just after the first rune of a comment opener
	c13inTok
)

type c13gen struct {
	r     *rand.Rand
	sb    strings.Builder
	want  []string // expected top-level dumps
	depth int
	// per rune offset (after that many runes): bracket depth and state
	depths  []int
	states  []int
	n       int
	dang    int
	kinds   map[string]int
	solid   []int // number of complete top-level expressions; -1 unknown
	tops    int
	noMinus bool
}

func (g *c13gen) mark(state int) {
	for len(g.depths) <= g.n {
		g.depths = append(g.depths, g.depth)
		g.states = append(g.states, state)
		g.solid = append(g.solid, -1)
	}
	g.depths[g.n] = g.depth
	g.states[g.n] = state
}

// put writes text; in gives the state strictly inside it, after the state behind it.
func (g *c13gen) put(s string, inside, after int) {
	rs := []rune(s)
	for i, r := range rs {
		g.sb.WriteRune(r)
		g.n++
		st := inside
		if i == len(rs)-1 {
			st = after
		}
		if g.dang > 0 {
			st |= c13dangling
		}
		g.mark(st)
	}
}

func (g *c13gen) ws(need bool) {
	r := g.r
	n := r.Intn(3)
	if need && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		switch {
		case r.Intn(12) == 0 && g.dang == 0:
			g.note("line comment")
			g.put(pick(r, []string{" ", "\n"}), 0, 0)
			g.put("//", c13afterSlash, c13inTok)
			g.put(pick(r, []string{"", " c", " (", " \"", " é}", " /* x", "[`"}), c13inTok, c13inTok)
			g.put("\n", 0, 0)
		case r.Intn(14) == 0 && g.dang == 0:
			g.note("block comment")
			g.put(" ", 0, 0)
			g.put("/*", c13afterSlash, c13inBlock)
			last := ""
			for n := r.Intn(4); n >= 0; n-- {
				part := pick(r, []string{" ", "c", " ( ", "\"", "* ", "*", "**", "*\n", "\n", "//", "/", "/*", "`é", "é*"})
				if strings.HasSuffix(last, "*") && strings.HasPrefix(part, "/") {
					part = " " // do not end the comment here
				}
				g.put(part, c13inBlock, c13inBlock)
				last = part
			}
			g.put("*/", c13inBlock, 0)
			g.put(" ", 0, 0)
		default:
			g.put(pick(r, []string{" ", " ", "\n", "\t", "\r\n"}), 0, 0)
		}
	}
}

func (g *c13gen) note(k string) {
	if g.kinds == nil {
		g.kinds = map[string]int{}
	}
	g.kinds[k]++
}

var c13syms = []string{"a", "b", "foo", "x1", "FULL", "été", "日本", "Inf1", "e5", "nil2", "trueish", "ULL", "foo_bar", "true_", "?q", "#z", "A", "$"}
var c13ops = []string{"+", "*", "==", "=", ":=", "<", ">", "<=", ">=", "!=", "and", "or", "**", "++", "+=", "-=", "->", "&&", "||", "/"}

func c13esc(r *rand.Rand, raw rune) string {
	switch raw {
	case '\n':
		return `\n`
	case '\t':
		return `\t`
	case '\r':
		return `\r`
	case '"':
		return `\"`
	case '\\':
		return `\\`
	}
	return string(raw)
}

// expr writes one expression and returns its expected dump.
func (g *c13gen) expr(fuel int, infix bool) string {
	r := g.r
	infix = infix || g.noMinus // no sign right behind another token
	g.noMinus = false
	k := r.Intn(22)
	if fuel <= 0 {
		k = r.Intn(10)
	}
	switch k {
	case 0, 1:
		g.note("int")
		v := r.Int63n(1 << uint(1+r.Intn(62)))
		s := strconv.FormatInt(v, 10)
		w := s
		switch r.Intn(8) {
		case 0:
			s = "0x" + strconv.FormatInt(v, 16)
		case 1:
			s = "0o" + strconv.FormatInt(v, 8)
		case 2:
			s = "0b" + strconv.FormatInt(v, 2)
		case 3:
			s = s[:1] + "_" + s[1:]
		case 4:
			if !infix {
				s, w = "-"+s, "-"+w
				if v == 0 {
					w = "0"
				}
			}
		case 5:
			s += "ULL"
			w = "u" + w
		}
		g.put(s, c13inTok, c13inTok)
		return w
	case 2:
		g.note("float")
		f := float64(r.Intn(10000)) / 64
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += "."
		}
		switch r.Intn(4) {
		case 0:
			e := r.Intn(20) - 10
			s += pick(r, []string{"e", "E"}) + strconv.Itoa(e)
			s = strings.Replace(s, ".e", ".0e", 1)
			s = strings.Replace(s, ".E", ".0E", 1)
		case 1:
			if !infix {
				s = "-" + s
			}
		}
		f, _ = strconv.ParseFloat(s, 64)
		g.put(s, c13inTok, c13inTok)
		return "f" + fkey(f)
	case 3:
		g.note("bool")
		s := pick(r, []string{"true", "false"})
		g.put(s, c13inTok, c13inTok)
		return s
	case 4:
		g.note("char")
		ch := pick(r, []rune{'a', '(', ')', ']', '{', '"', ';', '/', 'é', '日', '😀', ' ', '0', '`', '~', '%'})
		s := string(ch)
		if r.Intn(4) == 0 {
			ch = pick(r, []rune{'\n', '\t', '\r', '\\'})
			s = c13esc(r, ch)
		} else if r.Intn(8) == 0 {
			ch, s = '\'', `\'`
		}
		g.put("'"+s+"'", c13inChar, 0)
		return "c" + strconv.Itoa(int(ch))
	case 5, 6:
		g.note("string")
		var raw, src strings.Builder
		for i := r.Intn(6); i > 0; i-- {
			ch := pick(r, []rune{'a', '(', ')', '[', '}', '\'', ';', '/', '*', 'é', '日', '😀', ' ', '\n', '"', '\\', '`', '#', '\t', '~'})
			raw.WriteRune(ch)
			if ch == '\n' && r.Intn(2) == 0 {
				src.WriteRune(ch)
			} else {
				src.WriteString(c13esc(r, ch))
			}
		}
		g.put("\""+src.String()+"\"", c13inStr, 0)
		return strconv.QuoteToASCII(raw.String())
	case 7:
		g.note("raw string")
		var raw strings.Builder
		for i := r.Intn(6); i > 0; i-- {
			raw.WriteString(pick(r, []string{"a", "(", ")", "\"", "'", "\\", "\\n", "\n", "é", "//", "/*", "]", " "}))
		}
		g.put("`"+raw.String()+"`", c13inRaw, 0)
		return "`" + strconv.QuoteToASCII(raw.String())
	case 8, 9:
		if r.Intn(4) == 0 && !infix {
			g.note("dot symbol")
			s := pick(r, []string{"a.b", ".x", "a.b.c", "Foo.bar", ".é.y"})
			g.put(s, c13inTok, c13inTok)
			return "'" + strconv.Quote(s) + "."
		}
		g.note("symbol")
		s := pick(r, c13syms)
		if infix && strings.ContainsAny(s, "$#?") {
			s = "q"
		}
		g.put(s, c13inTok, c13inTok)
		return "'" + strconv.Quote(s)
	case 10, 11, 12:
		g.note("list")
		return g.seq("(", ")", "(", ")", fuel-1)
	case 13, 14:
		g.note("array")
		return g.seq("[", "]", "[", "]", fuel-1)
	case 15:
		g.note("hash literal")
		g.depth++
		g.put("{", 0, 0)
		out := "('\"hash\""
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			g.ws(i > 0)
			switch r.Intn(3) {
			case 0:
				key := pick(r, []string{"k", "kk", "été", "name"})
				g.put(`"`+key+`"`, c13inStr, 0)
				g.put(":", 0, 0)
				out += " " + strconv.QuoteToASCII(key) + " '\":\""
			case 1:
				if i == 0 {
					key := pick(r, []string{"k", "kk", "é"})
					g.put("`"+key+"`", c13inRaw, 0)
					g.put(":", 0, 0)
					out += " `" + strconv.QuoteToASCII(key) + " '\":\""
					break
				}
				fallthrough
			default:
				key := pick(r, []string{"k", "kk", "été", "name"})
				g.put(key+":", c13inTok, 0)
				out += " '" + strconv.Quote(key) + ":"
			}
			g.ws(true)
			out += " " + g.expr(fuel-1, false)
		}
		g.ws(false)
		g.depth--
		g.put("}", 0, 0)
		return out + ")"
	case 16, 17:
		g.note("infix block")
		g.depth++
		g.put("{", 0, 0)
		g.ws(false)
		out := "["
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				op := pick(r, c13ops)
				sp := r.Intn(2) == 0 || op == "and" || op == "or" || op == "/" || op == "++" || op == "->"
				if sp {
					g.ws(true)
				}
				g.put(op, c13inTok, c13inTok)
				if sp {
					g.ws(true)
				}
				name := op
				switch op {
				case "&&":
					name = "and"
				case "||":
					name = "or"
				}
				out += " '" + strconv.Quote(name) + " "
			}
			if i == 0 && n == 1 {
				// a lone symbol-colon or string would start a hash: use an atom
				g.put("q", c13inTok, c13inTok)
				out += "'\"q\""
				continue
			}
			if i > 0 {
				out += g.infixAtom(fuel - 1)
			} else {
				s := pick(r, []string{"a", "bb", "x1"})
				g.put(s, c13inTok, c13inTok)
				out += "'" + strconv.Quote(s)
			}
		}
		g.ws(false)
		g.depth--
		g.put("}", 0, 0)
		return "('\"infix\" " + out + "])"
	case 18:
		g.note("quote")
		p, n := "%", "quote"
		switch r.Intn(4) {
		case 0:
			p, n = "^", "syntaxQuote"
		case 1:
			p, n = "~", "unquote"
		case 2:
			p, n = "~@", "unquote-splicing"
		}
		// between the prefix and the expression: white space only
		g.dang++
		g.put(p, 0, 0)
		if n == "quote" && r.Intn(4) == 0 {
			g.put(" ", 0, 0)
		}
		d := g.dang
		g.dang = 0
		g.noMinus = true
		out := g.expr(fuel-1, false)
		g.noMinus = false
		g.dang = d - 1
		return "('" + strconv.Quote(n) + " " + out + ")"
	case 19:
		g.note("dotted pair")
		g.depth++
		g.put("(", 0, 0)
		g.ws(false)
		out := g.expr(fuel-2, false)
		g.put(" \\ ", 0, 0)
		out += " . " + g.atom()
		g.put(pick(r, []string{"", " ", "\n"}), 0, 0)
		g.depth--
		g.put(")", 0, 0)
		return "(" + out + ")"
	default:
		return g.seq("(", ")", "(", ")", fuel-1)
	}
}

func (g *c13gen) atom() string {
	s := pick(g.r, []string{"tl", "t2"})
	g.put(s, c13inTok, c13inTok)
	return "'" + strconv.Quote(s)
}

func (g *c13gen) infixAtom(fuel int) string {
	if g.r.Intn(3) == 0 {
		return g.seq("(", ")", "(", ")", fuel-1)
	}
	return g.expr(0, true)
}

func (g *c13gen) seq(o, cl, wo, wc string, fuel int) string {
	g.depth++
	g.put(o, 0, 0)
	out := wo
	n := g.r.Intn(4)
	for i := 0; i < n; i++ {
		g.ws(i > 0)
		if i > 0 {
			out += " "
			if o == "[" && g.r.Intn(3) == 0 {
				g.put(", ", 0, 0)
			}
		}
		out += g.expr(fuel, false)
	}
	g.ws(false)
	g.depth--
	g.put(cl, 0, 0)
	if n == 0 && o == "(" {
		return "nil"
	}
	return out + wc
}

// text writes a few top-level expressions.
func (g *c13gen) text(fuel int) {
	n := 1 + g.r.Intn(3)
	g.put("", 0, 0)
	g.mark(0)
	g.ws(false)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.ws(true)
		}
		g.want = append(g.want, g.expr(1+g.r.Intn(3), false))
		g.tops++
		g.solid[g.n] = g.tops
	}
	if g.r.Intn(2) == 0 {
		g.ws(false)
	}
}

// ---------------------------------------------------------------- checking

func runesCut(text string) []string {
	var out []string
	for _, r := range text {
		out = append(out, string(r))
	}
	return out
}

func show(s string) string {
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return strconv.Quote(s)
}

// c13pieces delivers rs cut at the offsets and compares each answer with ref(prefix length).
func c13pieces(c *Ctx, env *zygo.Zlisp, rs []rune, cuts []int, ref func(n int) c13res) bool {
	c.Eval()
	p := env.NewParser()
	defer stopParser(p)
	at := 0
	ends := append(append([]int{}, cuts...), len(rs))
	full := ref(len(rs))
	queue := len(cuts) > 1 && c.chance(1, 3)
	for k, e := range ends {
		p.NewInput(bytes.NewBufferString(string(rs[at:e])))
		at = e
		if k+1 < len(ends) && queue && c.chance(2, 3) {
			// several pieces may be waiting before the parser looks at any
			c.Count("pieces_queued", 1)
			continue
		}
		got := c13step(p)
		want := ref(e)
		c.Count("pieces_delivered", 1)
		if got.kind != want.kind || got.list != want.list {
			var pcs []string
			b := 0
			for _, x := range ends[:k+1] {
				pcs = append(pcs, show(string(rs[b:x])))
				b = x
			}
			c.Violate("pieces", "after the pieces %s\n  got  %s\n  want %s (the same text delivered whole)",
				strings.Join(pcs, " | "), got, want)
			return false
		}
		if got.kind == "panic" {
			return false
		}
		if got.kind == "hard" && full.kind == "hard" {
			return true
		}
	}
	return true
}

func c13Run(c *Ctx, idx int) {
	switch {
	case idx < len(c13files):
		c13File(c, c13files[idx])
	case idx%40 == 7:
		c13Repl(c)
	case idx%10 == 3:
		c13Window(c)
	case idx%4 == 2:
		c13History(c)
	default:
		c13Generated(c)
	}
}

func c13Generated(c *Ctx) {
	g := &c13gen{r: c.Rng}
	g.text(4)
	text := g.sb.String()
	rs := []rune(text)
	env := zygo.NewZlisp()
	table := map[int]c13res{}
	ref := func(n int) c13res {
		if r, ok := table[n]; ok {
			return r
		}
		r := c13whole(c, env, string(rs[:n]))
		table[n] = r
		return r
	}
	full := ref(len(rs))
	want := strings.Join(g.want, " ")
	if full.kind != "" || full.bare != want {
		c.Violate("tree", "text %s\n  parsed  %s\n  written from %s", show(text), full, want)
		return
	}
	for k, n := range g.kinds {
		c.Count("tok_"+strings.ReplaceAll(k, " ", "_"), int64(n))
	}
	c.Nontrivial(text)
	c.Sample(text)
	// every prefix: does it ask for more exactly when unfinished?
	for n := 0; n <= len(rs); n++ {
		r := ref(n)
		st := g.states[n]
		open := g.depths[n] > 0 || st&(c13inStr|c13inRaw|c13inBlock|c13inChar) != 0
		c.Count("prefixes_judged", 1)
		switch {
		case r.kind == "panic":
			c.Violate("panic", "prefix %s: %s", show(string(rs[:n])), r)
			return
		case open:
			c.Count("prefixes_unfinished", 1)
			if r.kind != "more" {
				c.Violate("more", "the text so far is unfinished but no more input is asked for: %s\n  got %s", show(string(rs[:n])), r)
				return
			}
		case st&c13dangling != 0:
			// either answer is fine
		case r.kind == "more" && st&c13afterSlash == 0:
			c.Violate("more", "more input is asked for although nothing is open: %s\n  got %s", show(string(rs[:n])), r)
			return
		}
		if s := g.solid[n]; s > 0 && !open {
			w := strings.Join(g.want[:s], " ")
			if r.kind != "" || r.bare != w {
				c.Violate("last-token", "text %s\n  parsed %s\n  written from %s", show(string(rs[:n])), r, w)
				return
			}
		}
	}
	// every single cut
	for i := 0; i <= len(rs); i++ {
		if !c13pieces(c, env, rs, []int{i}, ref) {
			return
		}
	}
	c.Count("one_cuts", int64(len(rs)+1))
	// every pair of cuts
	if len(rs) <= 60 || c.Tier == "thorough" && len(rs) <= 300 {
		n := 0
		for i := 0; i <= len(rs); i++ {
			for j := i; j <= len(rs); j++ {
				n++
				if !c13pieces(c, env, rs, []int{i, j}, ref) {
					return
				}
			}
		}
		c.Count("two_cuts", int64(n))
		c.Count("texts_with_all_two_cuts", 1)
	} else {
		for k := 0; k < 300; k++ {
			i := c.intn(len(rs) + 1)
			j := i + c.intn(len(rs)+1-i)
			if !c13pieces(c, env, rs, []int{i, j}, ref) {
				return
			}
		}
		c.Count("two_cuts", 300)
	}
	// rune by rune, and many random cuts
	all := make([]int, len(rs))
	for i := range all {
		all[i] = i
	}
	if !c13pieces(c, env, rs, all, ref) {
		return
	}
	for k := 0; k < 20; k++ {
		if !c13pieces(c, env, rs, randCuts(c.Rng, len(rs), 2+c.intn(8)), ref) {
			return
		}
	}
}

func randCuts(r *rand.Rand, n, k int) []int {
	var out []int
	for i := 0; i < k; i++ {
		out = append(out, r.Intn(n+1))
	}
	sort.Ints(out)
	return out
}

// c13File: a script of the corpus, delivered line by line, rune by rune and at random cuts.
func c13File(c *Ctx, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	rs := []rune(string(b))
	env := zygo.NewZlisp()
	table := map[int]c13res{}
	ref := func(n int) c13res {
		if r, ok := table[n]; ok {
			return r
		}
		r := c13whole(c, env, string(rs[:n]))
		table[n] = r
		return r
	}
	full := ref(len(rs))
	if full.kind == "more" {
		c.Violate("corpus", "the script %s is taken to be unfinished: %s", file, full)
		return
	}
	c.Count("corpus_files", 1)
	c.Nontrivial(string(b))
	nr := 40
	if c.Tier == "thorough" {
		nr = 600
	}
	for i := 0; i < nr; i++ {
		if !c13pieces(c, env, rs, randCuts(c.Rng, len(rs), 1+c.intn(4)), ref) {
			return
		}
	}
	// line by line: compare only the last answer (cost)
	last := func(pieces []string, how string) {
		c.Eval()
		p := env.NewParser()
		defer stopParser(p)
		var got c13res
		for _, s := range pieces {
			p.NewInput(bytes.NewBufferString(s))
			got = c13step(p)
			if got.kind == "hard" && full.kind == "hard" {
				break
			}
		}
		if got.kind != full.kind || got.list != full.list {
			c.Violate("pieces", "script %s delivered %s\n  got  %s\n  want %s", file, how, got, full)
		}
	}
	last(strings.SplitAfter(string(b), "\n"), "line by line")
	if len(rs) < 3000 {
		last(runesCut(string(b)), "rune by rune")
	}
}

// c13Window: an arbitrary stretch of a script, usually malformed, mutated now and then.
func c13Window(c *Ctx) {
	var rs []rune
	if len(c13files) > 0 && c.chance(3, 4) {
		b, _ := os.ReadFile(pick(c.Rng, c13files))
		all := []rune(string(b))
		if len(all) < 2 {
			return
		}
		n := 5 + c.intn(70)
		at := c.intn(len(all))
		if at+n > len(all) {
			n = len(all) - at
		}
		rs = append(rs, all[at:at+n]...)
	} else {
		for i := 2 + c.intn(12); i > 0; i-- {
			rs = append(rs, []rune(pick(c.Rng, c13frags))...)
		}
	}
	for i := c.intn(3); i > 0 && len(rs) > 0; i-- {
		rs[c.intn(len(rs))] = []rune("(){}[]\"'`;:/*%^~@\\#?.,-+0eE \nx")[c.intn(30)]
	}
	env := zygo.NewZlisp()
	table := map[int]c13res{}
	ref := func(n int) c13res {
		if r, ok := table[n]; ok {
			return r
		}
		r := c13whole(c, env, string(rs[:n]))
		table[n] = r
		return r
	}
	full := ref(len(rs))
	if full.kind == "panic" {
		c.Violate("panic", "text %s: %s", show(string(rs)), full)
		return
	}
	c.Count("windows_"+map[string]string{"": "ok", "more": "more", "hard": "hard"}[full.kind], 1)
	c.Nontrivial(string(rs))
	for i := 0; i <= len(rs); i++ {
		if !c13pieces(c, env, rs, []int{i}, ref) {
			return
		}
	}
	for k := 0; k < 150; k++ {
		if !c13pieces(c, env, rs, randCuts(c.Rng, len(rs), 2), ref) {
			return
		}
	}
	for k := 0; k < 20; k++ {
		if !c13pieces(c, env, rs, randCuts(c.Rng, len(rs), 2+c.intn(8)), ref) {
			return
		}
	}
	// a history-free second parse of the same text on a used interpreter
	c13Reparse(c, env, string(rs), full)
}

var c13frags = []string{"(", ")", "[", "]", "{", "}", "\"", "`", "'", "//", "/*", "*/", "/", "*", "%", "^", "~", "~@", "\\", ":", ":=", "=", "==",
	"a", "ab.c", ".", "..", "1", "-1", "-", "+", "--", "++", "1.", ".5", "-.5", "1e5", "1e", "0x", "0xff", "ULL", "5ULL", "Inf", "-Inf", "inf", "NaN",
	"nil", "true", "#a", "?b", "#", "?", "$", "@", "&", "&&", "|", "||", ",", ";", " ", "\n", "\t", "é", "日", "\\n", "\\x41", "\\u00e9", "\\", "for", "label:", "\"s\":", "<-", "->", "<!", "!", "!=", "a:", "::", "\x00", "\r", "'a'", "'\\n'", "''", "'ab'"}

// c13Reparse checks a text on an interpreter's shared parser after a history.
func c13Reparse(c *Ctx, env *zygo.Zlisp, text string, want c13res) {
	p := env.NewParser()
	defer stopParser(p)
	hist := []string{}
	for i := 1 + c.intn(4); i > 0; i-- {
		var h string
		for j := 1 + c.intn(4); j > 0; j-- {
			h += pick(c.Rng, c13frags)
		}
		hist = append(hist, h)
		p.ResetAddNewInput(bytes.NewBufferString(h))
		c13step(p)
		if c.chance(1, 3) {
			h2 := pick(c.Rng, c13frags)
			hist = append(hist, "+"+h2)
			p.NewInput(bytes.NewBufferString(h2))
			c13step(p)
		}
		if c.chance(1, 4) {
			// input nobody asked the meaning of
			h2 := pick(c.Rng, c13frags)
			hist = append(hist, "+unread "+h2)
			p.NewInput(bytes.NewBufferString(h2))
		}
	}
	c.Eval()
	if c.chance(1, 2) {
		p.ResetAddNewInput(bytes.NewBufferString(text))
	} else {
		p.Reset()
		p.NewInput(bytes.NewBufferString(text))
	}
	got := c13step(p)
	if got.kind != want.kind || got.list != want.list {
		c.Violate("history", "text %s on a parser that was reset after %q\n  got  %s\n  want %s", show(text), hist, got, want)
	}
	c.Count("reparses_after_history", 1)
}

// c13History: the interpreter's own entry points after successful and failed earlier texts.
func c13History(c *Ctx) {
	r := c.Rng
	g := &c13gen{r: r}
	g.put("", 0, 0)
	g.mark(0)
	want := g.expr(3, false)
	text := g.sb.String()
	env := newFullCached()
	var hist []string
	step := func() {
		var h string
		for j := 1 + r.Intn(4); j > 0; j-- {
			h += pick(r, c13frags)
		}
		if r.Intn(4) == 0 {
			h = pick(r, []string{"(def zz 1)", "(foo", "\"abc", "`raw", "/* c", "[1 2", "{a: ", "'x", "%", "(read \"(a\")", "(quote a) b.", "(json (hash", "1 2 3)", "// c", "a:", "x", "5", "-", "(+ 1", "ab"})
		}
		switch r.Intn(5) {
		case 0:
			hist = append(hist, "LoadString "+strconv.Quote(h))
			guard(5000, func() (zygo.Sexp, error) { return zygo.SexpNull, env.LoadString("(quote " + h + ")") })
			guard(5000, env.Run)
		case 1:
			hist = append(hist, "EvalString "+strconv.Quote(h))
			evalStr(env, 5000, "(quote "+h)
		case 2:
			hist = append(hist, "read "+strconv.Quote(h))
			guard(5000, func() (zygo.Sexp, error) {
				f := c13func(env, "read")
				if f == nil {
					return zygo.SexpNull, nil
				}
				return env.Apply(f, []zygo.Sexp{&zygo.SexpStr{S: h}})
			})
		case 3:
			hist = append(hist, "parse file "+strconv.Quote(h))
			f := filepath.Join(os.TempDir(), fmt.Sprintf("c13-%d.zy", os.Getpid()))
			os.WriteFile(f, []byte(h), 0600)
			guard(5000, func() (zygo.Sexp, error) { _, err := env.ParseFile(f); return zygo.SexpNull, err })
			os.Remove(f)
		case 4:
			hist = append(hist, "source "+strconv.Quote("(quote "+h+")"))
			guard(5000, func() (zygo.Sexp, error) {
				return zygo.SexpNull, env.SourceStream(bytes.NewBufferString("(quote " + h + ")"))
			})
		}
	}
	for i := r.Intn(5); i > 0; i-- {
		step()
	}
	c.Eval()
	src := "(quote " + text + "\n)"
	how := "EvalString (quote ...)"
	var o Outcome
	switch r.Intn(3) {
	case 0:
		o = evalStr(env, 5000, src)
	case 1:
		how = "(read ...)"
		o = guard(5000, func() (zygo.Sexp, error) {
			return env.Apply(c13func(env, "read"), []zygo.Sexp{&zygo.SexpStr{S: text}})
		})
	case 2:
		how = "ParseFile"
		f := filepath.Join(os.TempDir(), fmt.Sprintf("c13-%d.zy", os.Getpid()))
		os.WriteFile(f, []byte(text), 0600)
		o = guard(5000, func() (zygo.Sexp, error) {
			xs, err := env.ParseFile(f)
			if err == nil && len(xs) != 1 {
				return zygo.SexpNull, fmt.Errorf("%d expressions", len(xs))
			}
			if err != nil {
				return zygo.SexpNull, err
			}
			return xs[0], nil
		})
		os.Remove(f)
	}
	got := o.Kind
	if o.ok() {
		got = c13dump(o.Val, false)
	} else {
		got += " " + o.Err
	}
	if got != want {
		c.Violate("history", "%s of %s after %s\n  got  %s\n  want %s", how, show(text), strings.Join(hist, "; "), got, want)
		return
	}
	c.Count("interpreter_reads_after_history", 1)
	c.Nontrivial("h" + text)
}

func c13func(env *zygo.Zlisp, name string) *zygo.SexpFunction {
	x, ok := env.FindObject(name)
	if !ok {
		return nil
	}
	f, _ := x.(*zygo.SexpFunction)
	return f
}

// c13Repl drives the command-line tool's line reader through continuation lines.
func c13Repl(c *Ctx) {
	bin := os.Getenv("ZYGO_BIN")
	if bin == "" {
		c.Inconclusive("no zygo tool")
		return
	}
	var in bytes.Buffer
	var want []string
	var texts []string
	env := zygo.NewZlisp()
	for len(want) < 12 {
		g := &c13gen{r: c.Rng}
		g.put("", 0, 0)
		g.mark(0)
		g.expr(3, false)
		text := "[" + g.sb.String() + "]"
		// spread over lines as it stands, plus line breaks at the edges
		o := evalStr(env, 5000, "(str (quote "+text+"\n))")
		if !o.ok() {
			continue
		}
		s, ok := o.Val.(*zygo.SexpStr)
		if !ok || strings.Contains(s.S, "\n") || strings.Contains(text, "\r") {
			continue
		}
		want = append(want, s.S)
		texts = append(texts, text)
		nl := pick(c.Rng, []string{" ", "\n", "\n\n"})
		fmt.Fprintf(&in, "(def%szq%d (quote %s%s)\n)\n", nl, len(want), text, "\n"+nl)
		fmt.Fprintf(&in, "(printf \"%%s\\n\"%s(concat \"<<\" (str zq%d)%s\">>\"))\n", nl, len(want), nl)
		if c.chance(1, 3) {
			// an error in between must not matter
			fmt.Fprintf(&in, "%s\n", pick(c.Rng, []string{"(undefinedfn 1)", ")", "nosuch", "(quote a))", "]", "1 }"}))
		}
	}
	c.Eval()
	cmd := exec.Command(bin, "-no-liner", "-quiet")
	cmd.Stdin = &in
	cmd.Dir = os.TempDir()
	feed := in.String()
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Run()
	t.Stop()
	var got []string
	for _, l := range strings.Split(out.String(), "\n") {
		if i := strings.Index(l, "<<"); i >= 0 {
			if j := strings.LastIndex(l, ">>"); j >= i {
				got = append(got, l[i+2:j])
			}
		}
	}
	for i := range want {
		g := "(nothing)"
		if i < len(got) {
			g = got[i]
		}
		if g != want[i] {
			c.Violate("repl", "REPL line reader: expression %d, %s\n  got  %s\n  want %s\n  exit: %v\nfed:\n%s\noutput:\n%s", i, show(texts[i]), g, want[i], err, feed, out.String())
			return
		}
		c.Count("repl_expressions", 1)
		c.Nontrivial("r" + texts[i])
	}
}
