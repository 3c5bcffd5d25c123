package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C06: infix blocks.
//
// Part A compares the expansion of a flat token sequence with a tree found by
// a declarative rule read off the documented table: split the sequence at the
// loosest operator it holds (the rightmost of them when that level groups to
// the left, the leftmost when it groups to the right).
//
// Part B writes one program tree twice, as an infix block and as the prefix
// form, and runs both in twin interpreters.

type c06op struct {
	text  string
	level int
	right bool
	name  string
}

var c06ops = []c06op{
	{"=", 10, true, "set"}, {":=", 10, true, "set"}, {"+=", 10, true, "+="}, {"-=", 10, true, "-="},
	{",", 15, false, "comma"},
	{"or", 30, true, "or"}, {"and", 30, true, "and"},
	{"==", 40, false, "=="}, {"!=", 40, false, "!="}, {"<", 40, false, "<"},
	{"<=", 40, false, "<="}, {">", 40, false, ">"}, {">=", 40, false, ">="},
	{"+", 50, false, "+"}, {"-", 50, false, "-"},
	{"*", 60, false, "*"}, {"/", 60, false, "/"}, {"mod", 60, false, "mod"},
	{"**", 65, true, "**"},
}

// an operand: prefixes, an atom, postfixes, and what it must become.
type c06operand struct {
	toks []string
	want string
}

// c06split is the oracle: operands and the operators between them.
func c06split(xs []c06operand, ops []c06op) string {
	if len(ops) == 0 {
		return xs[0].want
	}
	best := 0
	for i, o := range ops {
		b := ops[best]
		if o.level < b.level || (o.level == b.level && !b.right) {
			best = i
		}
	}
	l := c06split(xs[:best+1], ops[:best])
	r := c06split(xs[best+1:], ops[best+1:])
	return "('" + strconv.Quote(ops[best].name) + " " + l + " " + r + ")"
}

func c06sym(s string) string { return "'" + strconv.Quote(s) }

type c06atom struct{ text, want string }

var c06atoms = []c06atom{
	{"a", c06sym("a")}, {"b", c06sym("b")}, {"cc", c06sym("cc")}, {"x1", c06sym("x1")},
	{"7", "7"}, {"0", "0"}, {"12", "12"}, {"-3", "-3"}, {"0x1F", "31"}, {"5ULL", "u5"},
	{"2.5", "f" + fkey(2.5)}, {`"s t"`, `"s t"`}, {"'q'", ""}, {"true", "true"}, {"false", "false"}, {"nil", "nil"},
	{"h.k", c06sym("h.k")}, {"h.k.m", c06sym("h.k.m")},
	{"(f a)", "('\"f\" '\"a\")"}, {"(g a (f 1) b)", "('\"g\" '\"a\" ('\"f\" 1) '\"b\")"}, {"(f)", "('\"f\")"},
	{"{a + b}", "('\"infix\" ['\"a\" '\"+\" '\"b\"])"},
	{"{a; b * 2}", ""},
}

func init() {
	for i := range c06atoms {
		switch c06atoms[i].text {
		case "'q'":
			c06atoms[i].want = dump(&zygo.SexpChar{Val: 'q'})
		case `"s t"`:
			c06atoms[i].want = dump(&zygo.SexpStr{S: "s t"})
		case "5ULL":
			c06atoms[i].want = dump(&zygo.SexpUint64{Val: 5})
		case "2.5":
			c06atoms[i].want = dump(&zygo.SexpFloat{Val: 2.5})
		}
	}
}

type c06gen struct {
	r *rand.Rand
	// header: inside a for header, which ends at its first brace (as in Go), so
	// no operand there may be a block.
	header bool
}

func (g *c06gen) operand(depth int) c06operand {
	r := g.r
	var o c06operand
	pre := []string{}
	for r.Intn(5) == 0 && len(pre) < 3 {
		if r.Intn(5) == 0 {
			pre = append(pre, "*")
		} else {
			pre = append(pre, "not")
		}
	}
	a := pick(r, c06atoms[:len(c06atoms)-1])
	for g.header && a.text[0] == '{' {
		a = pick(r, c06atoms[:len(c06atoms)-1])
	}
	toks := []string{a.text}
	want := a.want
	word := a.text[0] >= 'a' && a.text[0] <= 'z' && a.text != "true" && a.text != "false" && a.text != "nil"
	if (word || a.text[0] == '(') && depth < 3 {
		for r.Intn(4) == 0 {
			if r.Intn(4) == 0 && len(toks) > 1 && toks[len(toks)-1][0] == '[' {
				n := "." + pick(r, []string{"p", "q", "Rr"})
				toks = append(toks, n)
				want = "('\"hashidx\" " + want + " " + c06sym(n) + ")"
				continue
			}
			st, sw := g.selector(depth + 1)
			toks = append(toks, st)
			want = "('\"arrayidx\" " + want + " " + sw + ")"
		}
	}
	for i := len(pre) - 1; i >= 0; i-- {
		want = "(" + c06sym(pre[i]) + " " + want + ")"
	}
	o.toks = append(pre, toks...)
	o.want = want
	return o
}

func (g *c06gen) selector(depth int) (text, want string) {
	r := g.r
	if r.Intn(3) == 0 {
		// slice
		lt, lw, rt, rw := "", "", "", ""
		if r.Intn(4) != 0 {
			x, o := g.seq(r.Intn(2), depth, 50)
			lt, lw = g.render(x, o, true), c06split(x, o)
		}
		if r.Intn(4) != 0 {
			x, o := g.seq(r.Intn(2), depth, 50)
			rt, rw = g.render(x, o, true), c06split(x, o)
		}
		text = "[" + lt + " : " + rt + "]"
		// true:, false: and nil: are names in a label or a key, not bounds, and a float is no bound.
		if r.Intn(3) == 0 && lt != "" && rt != "" && !strings.HasSuffix(lt, "true") && !strings.HasSuffix(lt, "false") && !strings.HasSuffix(lt, "nil") && !strings.HasSuffix(lt, "2.5") {
			text = "[" + lt + ":" + rt + "]"
		}
		want = "[" + strings.Join(strings.Fields(lw+" "+c06sym(":")+" "+rw), " ") + "]"
		return
	}
	x, o := g.seq(r.Intn(3), depth, 50)
	return "[" + g.render(x, o, r.Intn(2) == 0) + "]", "[" + c06split(x, o) + "]"
}

// seq makes n operators (levels at least min) and n+1 operands.
func (g *c06gen) seq(n, depth, min int) (xs []c06operand, ops []c06op) {
	var pool []c06op
	for _, o := range c06ops {
		if o.level >= min {
			pool = append(pool, o)
		}
	}
	xs = append(xs, g.operand(depth))
	for i := 0; i < n; i++ {
		ops = append(ops, pick(g.r, pool))
		xs = append(xs, g.operand(depth))
	}
	return
}

func c06alnum(b byte) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9'
}

// render writes the tokens; tight leaves out spaces where two neighbours
// cannot run together into another token.
func (g *c06gen) render(xs []c06operand, ops []c06op, tight bool) string {
	var toks []string
	isop := map[int]bool{}
	for i, x := range xs {
		if i > 0 {
			isop[len(toks)] = true
			toks = append(toks, ops[i-1].text)
		}
		toks = append(toks, x.toks...)
	}
	var sb strings.Builder
	for i, t := range toks {
		if i > 0 {
			p := toks[i-1]
			pl, tf := p[len(p)-1], t[0]
			space := true
			switch {
			case tf == '[' || (tf == '.' && len(t) > 1):
				space = tf == '[' && g.r.Intn(3) == 0
			case !tight:
			case isop[i] && !c06alnum(tf): // symbolic operator after an operand
				space = !(c06alnum(pl) || pl == ')' || pl == ']' || pl == '}')
				if t == ":=" || c06numLike(p) {
					space = true
				}
			case isop[i-1] && !c06alnum(pl): // operand after a symbolic operator
				letter := tf >= 'a' && tf <= 'z' && c06alnum(tf)
				space = !(letter || tf == '(' || tf == '{' || (tf >= '0' && tf <= '9' && pl != '-' && pl != '+'))
			}
			if space {
				sb.WriteString(" ")
				if g.r.Intn(40) == 0 {
					sb.WriteString("/* c */ ")
				}
			}
		}
		sb.WriteString(t)
	}
	return sb.String()
}

func c06numLike(p string) bool { return p[0] >= '0' && p[0] <= '9' || p[0] == '-' }

// statement separators.
func (g *c06gen) sep(next string) string {
	r := g.r
	nl := next[0] != '[' && next[0] != '*' && next[0] != '-' && next[0] != '+' && next[0] != '.'
	switch k := r.Intn(8); {
	case k < 3 && nl:
		return "\n"
	case k == 3 && nl:
		return " // note; not code\n"
	case k == 4 && nl:
		return " /* ; */\n  "
	case k == 5:
		return ";\n"
	case k == 6:
		return " ;; "
	}
	return "; "
}

func c06expand(env *zygo.Zlisp, block string) Outcome {
	return evalStr(env, 20000, "(infixExpand "+block+")")
}

func c06treeCase(c *Ctx) {
	g := &c06gen{r: c.Rng}
	env := newFullCached()
	for k := 0; k < 25; k++ {
		n := 1 + c.intn(4)
		var wants, texts []string
		for i := 0; i < n; i++ {
			xs, ops := g.seq(c.intn(6), 0, 10)
			t := g.render(xs, ops, c.chance(1, 2))
			w := c06split(xs, ops)
			if c.chance(1, 12) && len(ops) == 0 && c06alnum(t[0]) {
				t, w = t+pick(c.Rng, []string{"++", "--", " ++"}), ""
				o := "++"
				if strings.HasSuffix(t, "--") {
					o = "--"
				}
				if len(xs[0].toks) != 1 || c06numLike(t) {
					i--
					continue
				}
				w = "(" + c06sym(o) + " " + xs[0].want + ")"
			}
			texts, wants = append(texts, t), append(wants, w)
		}
		var sb strings.Builder
		sb.WriteString("{")
		for i, t := range texts {
			if i > 0 {
				sb.WriteString(g.sep(t))
			}
			sb.WriteString(t)
		}
		if c.chance(1, 6) {
			sb.WriteString(pick(c.Rng, []string{";", "\n", " // end\n", "  "}))
		}
		sb.WriteString("}")
		c06check(c, env, sb.String(), wants)
	}
}

func c06check(c *Ctx, env *zygo.Zlisp, block string, wants []string) bool {
	c.Eval()
	want := "('\"quote\" " + strings.Join(wants, " ") + ")"
	o := c06expand(env, block)
	if o.String() != want {
		kind := "tree"
		if len(wants) > 1 {
			kind = "statements"
		}
		c.Violate(kind, "block %s\n expands to %s\n the table says %s", block, o.String(), want)
		return false
	}
	c.Count("expansions", 1)
	c.Nontrivial(want)
	return true
}

// exhaustive operator sequences, one case per first operator and length.
func c06exhaust(c *Ctx, n, first int) {
	env := newFullCached()
	names := []string{"a", "b", "cc", "d", "e"}
	idx := make([]int, n)
	idx[0] = first
	mask := 0
	for {
		ops := make([]c06op, n)
		for i, k := range idx {
			ops[i] = c06ops[k]
		}
		lim := 1 << uint(n+1)
		masks := []int{0, mask % lim}
		if n <= 2 || c.Tier == "thorough" && n == 3 {
			masks = masks[:0]
			for m := 0; m < lim; m++ {
				masks = append(masks, m)
			}
		}
		mask += 5
		for _, m := range masks {
			xs := make([]c06operand, n+1)
			for i := range xs {
				xs[i] = c06operand{[]string{names[i]}, c06sym(names[i])}
				if m>>uint(i)&1 == 1 {
					xs[i] = c06operand{[]string{"not", names[i]}, "('\"not\" " + c06sym(names[i]) + ")"}
				}
			}
			g := &c06gen{r: c.Rng}
			if !c06check(c, env, "{"+g.render(xs, ops, false)+"}", []string{c06split(xs, ops)}) {
				return
			}
		}
		p := n - 1
		for p > 0 && idx[p] == len(c06ops)-1 {
			idx[p] = 0
			p--
		}
		if p == 0 {
			return
		}
		idx[p]++
	}
}

// structural statements: if, for, labels, break and continue.
func c06structCase(c *Ctx) {
	g := &c06gen{r: c.Rng}
	env := newFullCached()
	for k := 0; k < 25; k++ {
		n := 1 + c.intn(3)
		var texts, wants []string
		for i := 0; i < n; i++ {
			t, w := g.structured(0)
			texts, wants = append(texts, t), append(wants, w)
		}
		var sb strings.Builder
		sb.WriteString("{")
		for i, t := range texts {
			if i > 0 {
				sb.WriteString(g.sep(t))
			}
			sb.WriteString(t)
		}
		sb.WriteString("}")
		c06check(c, env, sb.String(), wants)
	}
}

func (g *c06gen) headExpr(min int) (string, string) {
	g.header = true
	defer func() { g.header = false }()
	return g.expr(min)
}

func (g *c06gen) expr(min int) (string, string) {
	xs, ops := g.seq(g.r.Intn(3), 1, min)
	return g.render(xs, ops, g.r.Intn(2) == 0), c06split(xs, ops)
}

var c06blocks = []string{"{a}", "{a + b; cc}", "{ a = 1\n b = 2 }", "{(f a)}", "{if a {b} else {cc}}", "{for i := 0; i < 3; i++ {b}}", "{a // x\n}"}

var c06raw = map[string]string{}

// block gives a nested block and its unexpanded form, as the reader gives it.
func (g *c06gen) block() (string, string) {
	b := pick(g.r, c06blocks)
	if c06raw[b] == "" {
		o := evalStr(newFullCached(), 5000, "(quote "+b+")")
		if !o.ok() || !strings.HasPrefix(o.String(), "('\"infix\" [") {
			panic("block reads as " + o.String())
		}
		c06raw[b] = o.String()
	}
	return b, c06raw[b]
}

func (g *c06gen) structured(depth int) (text, want string) {
	r := g.r
	s := func(n string) string { return c06sym(n) }
	switch r.Intn(7) {
	case 0: // plain expression
		return g.expr(10)
	case 1, 2: // if, with else-if chains
		tt, tw := g.expr(30)
		bt, bw := g.block()
		if r.Intn(2) == 0 {
			return "if " + tt + " " + bt, "(" + s("cond") + " " + tw + " " + bw + " nil)"
		}
		if depth < 3 && r.Intn(2) == 0 {
			x, y := g.ifChain(depth + 1)
			return "if " + tt + " " + bt + " else " + x, "(" + s("cond") + " " + tw + " " + bw + " " + y + ")"
		}
		et, ew := g.block()
		return "if " + tt + " " + bt + " else " + et, "(" + s("cond") + " " + tw + " " + bw + " " + ew + ")"
	case 3: // condition-only or endless for
		bt, bw := g.block()
		lt, lw := g.label()
		if r.Intn(4) == 0 {
			return lt + "for " + bt, "(" + s("for") + lw + " [nil true nil] " + bw + ")"
		}
		tt, tw := g.headExpr(30)
		return lt + "for " + tt + " " + bt, "(" + s("for") + lw + " [nil " + tw + " nil] " + bw + ")"
	case 4, 5: // three clauses, each may be absent
		bt, bw := g.block()
		lt, lw := g.label()
		it, iw, tt, tw, pt, pw := "", "nil", "", "true", "", "nil"
		if r.Intn(5) > 0 {
			x, y := g.headExpr(50)
			it, iw = "i := "+x, "("+s("set")+" "+s("i")+" "+y+")"
		}
		if r.Intn(5) > 0 {
			tt, tw = g.headExpr(30)
		}
		switch r.Intn(4) {
		case 0:
		case 1:
			x, y := g.headExpr(50)
			pt, pw = "i = "+x, "("+s("set")+" "+s("i")+" "+y+")"
		case 2:
			pt, pw = "i++", "("+s("++")+" "+s("i")+")"
		case 3:
			pt, pw = "i -= 2", "("+s("-=")+" "+s("i")+" 2)"
		}
		return lt + "for " + it + "; " + tt + "; " + pt + " " + bt,
			"(" + s("for") + lw + " [" + iw + " " + tw + " " + pw + "] " + bw + ")"
	}
	k := pick(r, []string{"break", "continue"})
	if r.Intn(2) == 0 {
		return k + " lab:;", "(" + s(k) + " " + s("lab") + ")"
	}
	return k + ";", "(" + s(k) + ")"
}

func (g *c06gen) ifChain(depth int) (string, string) {
	tt, tw := g.expr(30)
	bt, bw := g.block()
	if depth < 3 && g.r.Intn(2) == 0 {
		x, y := g.ifChain(depth + 1)
		return "if " + tt + " " + bt + " else " + x, "(" + c06sym("cond") + " " + tw + " " + bw + " " + y + ")"
	}
	if g.r.Intn(2) == 0 {
		return "if " + tt + " " + bt, "(" + c06sym("cond") + " " + tw + " " + bw + " nil)"
	}
	et, ew := g.block()
	return "if " + tt + " " + bt + " else " + et, "(" + c06sym("cond") + " " + tw + " " + bw + " " + ew + ")"
}

func (g *c06gen) label() (string, string) {
	if g.r.Intn(3) == 0 {
		return "lab: ", " " + c06sym("lab")
	}
	return "", ""
}

// ------------------------------------------------------------ Part B: running

// c06node is one program tree; infix and prefix are its two spellings.
type c06run struct {
	r       *rand.Rand
	locals  []string
	loops   []string // labels of enclosing loops ("" none)
	depth   int
	nlab    int
	operand int  // blocks entered that are operands
	exact   bool // the prefix twin uses the translated path forms
	uses    map[string]bool
}

type c06pair struct {
	in    string
	pre   string
	level int // binding level of the infix spelling; 100 for atoms
}

// alt picks how a path is spelled in the prefix twin: as the translated form
// itself, or through the ordinary access functions. An access function reads at
// once where the form reads when its operator runs, so in that style no operand
// assigns to a path, or leaves a loop from inside a call.
func (g *c06run) alt(exact, resolved string) string {
	if g.exact {
		return exact
	}
	return resolved
}

func (g *c06run) use(k string) { g.uses[k] = true }

func (g *c06run) wrap(p c06pair, ok bool) string {
	if ok {
		return p.in
	}
	return "{" + p.in + "}"
}

func (g *c06run) bin(op c06op, l, r c06pair, pre string) c06pair {
	lok := l.level > op.level || l.level == op.level && !op.right
	rok := r.level > op.level || r.level == op.level && op.right
	return c06pair{g.wrap(l, lok) + " " + op.text + " " + g.wrap(r, rok), "(" + pre + " " + l.pre + " " + r.pre + ")", op.level}
}

func c06opOf(t string) c06op {
	for _, o := range c06ops {
		if o.text == t {
			return o
		}
	}
	panic(t)
}

func (g *c06run) intVar() string {
	return pick(g.r, append([]string{"x", "y", "z"}, g.locals...))
}

// intx is an integer-valued expression. It never yields an unresolved path.
func (g *c06run) intx(d int) c06pair {
	r := g.r
	if d <= 0 || r.Intn(6) == 0 {
		switch r.Intn(3) {
		case 0:
			n := strconv.Itoa(r.Intn(9))
			return c06pair{n, n, 100}
		default:
			v := g.intVar()
			return c06pair{v, v, 100}
		}
	}
	switch r.Intn(12) {
	case 0, 1, 2, 3:
		op := c06opOf(pick(r, []string{"+", "-", "*", "+", "-", "*", "mod"}))
		l, rr := g.intOrPath(d-1), g.intOrPath(d-1)
		if op.text == "mod" {
			n := strconv.Itoa(1 + r.Intn(7))
			rr = c06pair{n, n, 100}
		}
		g.use(op.text)
		return g.bin(op, l, rr, op.text)
	case 4:
		g.use("**")
		n := strconv.Itoa(r.Intn(3))
		l := pick(r, []string{"1", "2", "3"})
		p := c06pair{n, n, 100}
		if r.Intn(3) == 0 {
			m := strconv.Itoa(r.Intn(3))
			p = g.bin(c06opOf("**"), c06pair{m, m, 100}, p, "**")
		}
		return g.bin(c06opOf("**"), c06pair{l, l, 100}, p, "**")
	case 5, 6: // a call: prefix inside the block as well
		g.use("call")
		n := strconv.Itoa(r.Intn(9))
		a := g.intx(d - 1)
		switch r.Intn(3) {
		case 0:
			return c06pair{"(emit " + n + " {" + a.in + "})", "(emit " + n + " " + a.pre + ")", 100}
		case 1:
			return c06pair{"(f {" + a.in + "})", "(f " + a.pre + ")", 100}
		}
		return c06pair{"(emit " + n + " " + a.pre + ")", "(emit " + n + " " + a.pre + ")", 100}
	case 7: // nested braces
		a := g.intx(d - 1)
		return c06pair{"{" + a.in + "}", a.pre, 100}
	case 8: // a block of statements as an operand
		if g.depth > 2 {
			return g.intx(d - 1)
		}
		g.depth++
		g.operand++
		loops := g.loops
		if !g.exact {
			g.loops = nil
		}
		si, sp := g.stmts(1+r.Intn(2), false)
		g.depth--
		g.operand--
		g.loops = loops
		a := g.intx(d - 1)
		g.use("block")
		return c06pair{"{" + si + "; " + a.in + "}", "(begin " + sp + " " + a.pre + ")", 100}
	case 9: // value of a conditional
		if g.depth > 2 {
			return g.intx(d - 1)
		}
		t, a, b := g.boolx(d-1), g.intx(d-1), g.intx(d-1)
		g.use("ifvalue")
		return c06pair{"{if " + t.in + " {" + a.in + "} else {" + b.in + "}}", "(cond " + t.pre + " " + a.pre + " " + b.pre + ")", 100}
	}
	return g.intx(d - 1)
}

// intOrPath may also be an index or field access; only for operands.
func (g *c06run) intOrPath(d int) c06pair {
	r := g.r
	if r.Intn(3) > 0 {
		return g.intx(d)
	}
	switch r.Intn(5) {
	case 0:
		n := strconv.Itoa(r.Intn(4))
		g.use("index")
		return c06pair{"ar[" + n + "]", g.alt("(arrayidx ar ["+n+"])", "(aget ar "+n+")"), 100}
	case 1: // computed index, kept in range
		a := g.intx(1)
		g.use("index-expr")
		return c06pair{"ar[(idx {" + a.in + "})]", g.alt("(arrayidx ar [(idx "+a.pre+")])", "(aget ar (idx "+a.pre+"))"), 100}
	case 2:
		n := r.Intn(3)
		g.use("index-sum")
		return c06pair{fmt.Sprintf("ar[%d + %d]", n, 1), g.alt(fmt.Sprintf("(arrayidx ar [(+ %d 1)])", n), fmt.Sprintf("(aget ar %d)", n+1)), 100}
	case 3:
		k := pick(r, []string{"p", "q"})
		g.use("field")
		return c06pair{"h." + k, g.alt("h."+k, "(hget h %"+k+")"), 100}
	}
	n := strconv.Itoa(r.Intn(2))
	g.use("field-index")
	return c06pair{"h.ar[" + n + "]", g.alt("(arrayidx h.ar ["+n+"])", "(aget (hget h %ar) "+n+")"), 100}
}

func (g *c06run) boolx(d int) c06pair {
	r := g.r
	if d <= 0 {
		v := pick(r, []string{"true", "false", "bt", "bf"})
		return c06pair{v, v, 100}
	}
	switch r.Intn(8) {
	case 0, 1, 2, 3:
		op := c06opOf(pick(r, []string{"==", "!=", "<", "<=", ">", ">="}))
		g.use(op.text)
		return g.bin(op, g.intOrPath(d-1), g.intOrPath(d-1), op.text)
	case 4, 5:
		op := c06opOf(pick(r, []string{"and", "or"}))
		g.use(op.text)
		return g.bin(op, g.boolx(d-1), g.boolx(d-1), op.text)
	case 6:
		a := g.boolx(d - 1)
		g.use("not")
		return c06pair{"not " + g.wrap(a, a.level >= 70), "(not " + a.pre + ")", 70}
	}
	n := strconv.Itoa(r.Intn(9))
	a := g.boolx(d - 1)
	return c06pair{"(emit " + n + " {" + a.in + "})", "(emit " + n + " " + a.pre + ")", 100}
}

func (g *c06run) stmts(n int, blockOnly bool) (in, pre string) {
	var a, b []string
	for i := 0; i < n; i++ {
		x, y := g.stmt()
		a, b = append(a, x), append(b, y)
	}
	var sb strings.Builder
	cg := &c06gen{r: g.r}
	for i, t := range a {
		if i > 0 {
			if strings.HasPrefix(a[i-1], "break") || strings.HasPrefix(a[i-1], "continue") {
				sb.WriteString("; ")
			} else {
				sb.WriteString(cg.sep(t))
			}
		}
		sb.WriteString(t)
	}
	return sb.String(), strings.Join(b, " ")
}

func (g *c06run) assignTarget() (in, pre string, path bool) {
	r := g.r
	k := r.Intn(6)
	if g.operand > 0 && !g.exact {
		k = 3
	}
	switch k {
	case 0:
		n := strconv.Itoa(r.Intn(4))
		return "ar[" + n + "]", g.alt("set (arrayidx ar ["+n+"])", "aput ar "+n), true
	case 1:
		k := pick(r, []string{"p", "q"})
		return "h." + k, g.alt("set h."+k, "hput h %"+k), true
	case 2:
		n := strconv.Itoa(r.Intn(2))
		return "h.ar[" + n + "]", g.alt("set (arrayidx h.ar ["+n+"])", "aput (hget h %ar) "+n), true
	}
	v := pick(r, []string{"x", "y", "z"})
	return v, "set " + v, false
}

func (g *c06run) stmt() (in, pre string) {
	r := g.r
	k := r.Intn(16)
	if g.depth > 3 && k >= 8 {
		k = r.Intn(8)
	}
	switch k {
	case 0, 1, 2, 3:
		t, p, path := g.assignTarget()
		a := g.intOrPath(2)
		op := pick(r, []string{"=", "=", ":="})
		if path {
			op = "="
			g.use("assign-path")
		}
		return t + " " + op + " " + a.in, "(" + p + " " + a.pre + ")"
	case 4:
		v := pick(r, []string{"x", "y", "z"})
		g.use("incdec")
		if r.Intn(2) == 0 {
			return v + "++", "(set " + v + " (+ " + v + " 1))"
		}
		return v + "--", "(set " + v + " (- " + v + " 1))"
	case 5:
		v := pick(r, []string{"x", "y", "z"})
		o := pick(r, []string{"+", "-"})
		a := g.intOrPath(2)
		g.use("opassign")
		return v + " " + o + "= " + a.in, "(set " + v + " (" + o + " " + v + " " + a.pre + "))"
	case 6: // chained assignment
		a := g.intx(1)
		g.use("chain")
		return "x = y = " + a.in, "(set x (set y " + a.pre + "))"
	case 7:
		a := g.intx(2)
		if r.Intn(3) == 0 {
			i, j := r.Intn(3), 0
			j = i + r.Intn(5-i)
			if j > 4 {
				j = 4
			}
			g.use("slice")
			return fmt.Sprintf("w = ar[%d:%d]", i, j), fmt.Sprintf("(set w (slice ar %d %d))", i, j)
		}
		return "(emit {" + a.in + "})", "(emit " + a.pre + ")"
	case 8, 9, 10:
		t := g.boolx(2)
		g.depth++
		si, sp := g.stmts(1+r.Intn(3), true)
		e1, e2 := "", "nil"
		if r.Intn(2) == 0 {
			ei, ep := g.stmts(1+r.Intn(2), true)
			e1, e2 = " else {"+ei+"}", "(begin "+ep+")"
			if r.Intn(3) == 0 {
				t2 := g.boolx(1)
				e1, e2 = " else if "+t2.in+" {"+ei+"}", "(cond "+t2.pre+" (begin "+ep+") nil)"
			}
		}
		g.depth--
		g.use("if")
		return "if " + t.in + " {" + si + "}" + e1, "(cond " + t.pre + " (begin " + sp + ") " + e2 + ")"
	case 11, 12, 13: // counted loop
		lab := ""
		if r.Intn(2) == 0 {
			g.nlab++
			lab = "lab" + strconv.Itoa(g.nlab) + ":"
			g.use("label")
		}
		v := "i" + strconv.Itoa(len(g.loops))
		n := r.Intn(4)
		g.loops, g.locals = append(g.loops, lab), append(g.locals, v)
		g.depth++
		si, sp := g.stmts(1+r.Intn(3), true)
		g.depth--
		g.loops, g.locals = g.loops[:len(g.loops)-1], g.locals[:len(g.locals)-1]
		post, postP := v+"++", fmt.Sprintf("(set %s (+ %s 1))", v, v)
		if r.Intn(3) == 0 {
			post = v + " += 1"
		}
		g.use("for")
		li := lab
		if li != "" {
			li += " "
		}
		return fmt.Sprintf("%sfor %s := 0; %s < %d; %s {%s}", li, v, v, n, post, si),
			fmt.Sprintf("(for %s[(set %s 0) (< %s %d) %s] %s)", li, v, v, n, postP, sp)
	case 14: // range loops over a fixed array
		g.depth++
		kv := "k" + strconv.Itoa(len(g.loops))
		vv := "v" + strconv.Itoa(len(g.loops))
		ri := "ri" + strconv.Itoa(len(g.loops))
		two := r.Intn(2) == 0
		g.loops = append(g.loops, "")
		g.locals = append(g.locals, kv)
		if two {
			g.locals = append(g.locals, vv)
		}
		si, sp := g.stmts(1+r.Intn(2), true)
		g.loops = g.loops[:len(g.loops)-1]
		g.locals = g.locals[:len(g.locals)-1]
		if two {
			g.locals = g.locals[:len(g.locals)-1]
		}
		g.depth--
		g.use("range")
		head := fmt.Sprintf("(for [(def %s 0) (< %s (len fx)) (set %s (+ %s 1))] (newScope (def %s %s)", ri, ri, ri, ri, kv, ri)
		if two {
			return fmt.Sprintf("for %s, %s := range fx {%s}", kv, vv, si), head + fmt.Sprintf(" (def %s (aget fx %s)) %s))", vv, ri, sp)
		}
		return fmt.Sprintf("for %s := range fx {%s}", kv, si), head + " " + sp + "))"
	}
	if len(g.loops) > 0 {
		t := g.boolx(1)
		k := pick(r, []string{"break", "continue"})
		l := pick(r, g.loops)
		g.use(k)
		if l != "" && r.Intn(2) == 0 {
			g.use(k + "-label")
			lp := l
			if r.Intn(2) == 0 {
				l = strings.TrimSuffix(l, ":")
			}
			return fmt.Sprintf("if %s {%s %s}", t.in, k, l), fmt.Sprintf("(cond %s (%s %s) nil)", t.pre, k, lp)
		}
		return fmt.Sprintf("if %s {%s}", t.in, k), fmt.Sprintf("(cond %s (%s) nil)", t.pre, k)
	}
	a := g.intx(2)
	return "(emit " + a.pre + ")", "(emit " + a.pre + ")"
}

const c06prelude = `(def x 1) (def y 2) (def z 3) (def bt true) (def bf false) (def w []) (def fx [5 6 7])
(def ar [10 20 30 40]) (def h {p:4 q:9 ar:[7 8]}) (defn f [a] (emit "f" a) (+ a 1)) (defn idx [a] (mod (* a a) 4))
(defn aput [a i v] (aset a i v) v) (defn hput [m k v] (hset m k v) v)`

func c06runCase(c *Ctx) {
	for k := 0; k < 4; k++ {
		g := &c06run{r: c.Rng, uses: map[string]bool{}, exact: c.chance(1, 2)}
		ctx := c.intn(7)
		if ctx == 1 || ctx == 2 {
			g.locals = []string{"loc"}
		}
		in, pre := g.stmts(1+c.intn(5), false)
		lastIn, lastPre := "", ""
		if c.chance(3, 4) {
			l := g.intx(3)
			if c.chance(1, 3) {
				l = g.boolx(3)
			}
			in += (&c06gen{r: c.Rng}).sep(l.in)
			lastIn, lastPre = l.in, " "+l.pre
		}
		blk := "{" + in + lastIn + "}"
		pfx := "(begin " + pre + lastPre + ")"
		var a, b string
		switch ctx {
		case 0:
			a, b = blk, pfx
		case 1:
			a, b = "(let [loc 5] "+blk+")", "(let [loc 5] "+pfx+")"
		case 2:
			a, b = "(defn g [loc] "+blk+") (list (g 3) (g 8))", "(defn g [loc] "+pfx+") (list (g 3) (g 8))"
		case 3:
			a, b = "(for [(def i 0) (< i 2) (set i (+ i 1))] "+blk+")", "(for [(def i 0) (< i 2) (set i (+ i 1))] "+pfx+")"
		case 4:
			a, b = "(list (emit 0) "+blk+" (emit 1))", "(list (emit 0) "+pfx+" (emit 1))"
		case 5:
			a, b = "(cond "+blk+" 1 2)", "(cond "+pfx+" 1 2)"
		case 6:
			a, b = "(map (fn [x] "+blk+") [1 2])", "(map (fn [x] "+pfx+") [1 2])"
		}
		c06compare(c, a, b)
		key := []string{}
		for u := range g.uses {
			c.Count("uses:"+u, 1)
			key = append(key, u)
		}
		c.Nontrivial(b)
		if k == 0 && c.Idx%400 == 0 {
			c.Sample(a + "   ==   " + b)
		}
	}
}

func c06observe(src string) (string, string) {
	env := newFull()
	rec := &recorder{}
	rec.install(env)
	if o := evalStr(env, 50000, c06prelude); !o.ok() {
		return "prelude " + o.String(), ""
	}
	rec.log = nil
	o := evalStr(env, 300000, src)
	res := o.Coarse()
	if o.Kind == "panic" {
		res = o.String()
	}
	st := evalStr(env, 50000, "(list x y z w ar h fx)")
	return res + "\n  log " + strings.Join(rec.log, "|") + "\n  state " + st.String(), o.String()
}

func c06compare(c *Ctx, a, b string) {
	c.Eval()
	ra, ea := c06observe(a)
	rb, eb := c06observe(b)
	if strings.HasPrefix(ra, "budget") || strings.HasPrefix(rb, "budget") {
		c.Inconclusive("budget")
		return
	}
	if ra != rb {
		c.Violate("value", "infix  %s\nprefix %s\ninfix gives  %s   (%s)\nprefix gives %s   (%s)", a, b, ra, ea, rb, eb)
		return
	}
	c.Count("runs", 1)
	if strings.HasPrefix(ra, "error") {
		c.Count("runs_error", 1)
	}
}

func c06Run(c *Ctx, idx int) {
	n := len(c06ops)
	switch {
	case idx < n:
		c06exhaust(c, 1, idx)
	case idx < 2*n:
		c06exhaust(c, 2, idx-n)
	case idx < 3*n:
		c06exhaust(c, 3, idx-2*n)
	default:
		switch c.intn(5) {
		case 0, 1:
			c06treeCase(c)
		case 2:
			c06structCase(c)
		default:
			c06runCase(c)
		}
	}
}

func init() {
	register(&Prop{
		ID: "C06",
		Rule: "every operator sequence up to length 3, and random token sequences with prefixes, postfixes, calls, nested blocks, separators, if/for/labels, " +
			"expand to the tree read off the precedence table; random programs written as infix blocks and as prefix forms give the same value, effects and state",
		Assumptions: []string{
			"spellings where two tokens run together into a third (a -1, a<-1, a<!b) are not generated",
			"a statement beginning with [ * + - or . after a newline continues the previous one: the token stream holds no newlines",
			"`:=` is read as set, as the translator documents by its own tests",
		},
		N: func(t string) int {
			if t == "thorough" {
				return 40000
			}
			return 3000
		},
		Run:         c06Run,
		MinDistinct: func(t string) int { return 15000 },
	})
}
