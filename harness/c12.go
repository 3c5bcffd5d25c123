package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C12: printed data reads back as the same data; literals denote what they spell.

func init() {
	register(&Prop{
		ID: "C12",
		Rule: "reading the printed form of a value gives the same value (types and float bits included), evaluating the printed form of JSON-like data gives the same data, " +
			"also after saving to a file and sourcing it; numeric literals equal math/big and strconv on the same spelling; char and string literals denote exactly their runes",
		Assumptions: []string{
			"strings and characters hold Unicode scalar values",
			"symbols are those the reader can produce",
			"literals outside the range of their type must be an error, not another value",
		},
		N: func(t string) int {
			if t == "thorough" {
				return c12uniCases + c12spellCases + 4000000
			}
			return c12uniCases + c12spellCases + 200000
		},
		Run:         c12Run,
		MinDistinct: func(t string) int { return 20000 },
		Exhaustive:  "all Unicode scalar values as characters and in strings; all spellings over the numeric alphabet up to length 5 (thorough: 6)",
	})
}

const (
	c12uniCases   = 0x110000 / 4096
	c12spellCases = 17 * 17
)

func c12Run(c *Ctx, idx int) {
	switch {
	case idx < c12uniCases:
		c12Unicode(c, idx)
	case idx < c12uniCases+c12spellCases:
		c12Spellings(c, idx-c12uniCases)
	default:
		switch c.intn(10) {
		case 0, 1, 2, 3:
			c12Data(c)
		case 4, 5, 6:
			c12JSONLike(c)
		case 7, 8:
			c12Numbers(c)
		default:
			c12Text(c)
		}
	}
}

func c12read(env *zygo.Zlisp, text string) Outcome {
	return guard(20000, func() (zygo.Sexp, error) {
		return env.Apply(c13func(env, "read"), []zygo.Sexp{&zygo.SexpStr{S: text}})
	})
}

// ------------------------------------------------------------- exhaustive

func c12Unicode(c *Ctx, k int) {
	env := newFullCached()
	var chars []zygo.Sexp
	var sb strings.Builder
	var lit, strlit strings.Builder
	lit.WriteString("[")
	for r := rune(k * 4096); r < rune((k+1)*4096); r++ {
		if !utf8.ValidRune(r) {
			continue
		}
		chars = append(chars, &zygo.SexpChar{Val: r})
		sb.WriteRune(r)
		if r != '\'' && r != '\\' {
			lit.WriteString("'" + string(r) + "' ")
		} else {
			lit.WriteString("'\\" + string(r) + "' ")
		}
		if r == '"' || r == '\\' {
			strlit.WriteByte('\\')
		}
		strlit.WriteRune(r)
		c.Eval()
	}
	if len(chars) == 0 {
		return
	}
	lit.WriteString("]")
	arr := env.NewSexpArray(chars)
	want := dump(arr)
	c.Count("code_points", int64(len(chars)))
	// printed and read back
	if o := c12read(env, arr.SexpString(nil)); o.String() != want {
		c12firstDiff(c, "char-roundtrip", o, chars)
	}
	// written literally
	if o := c12read(env, lit.String()); o.String() != want {
		c12firstDiff(c, "char-literal", o, chars)
	}
	s := &zygo.SexpStr{S: sb.String()}
	if o := c12read(env, s.SexpString(nil)); o.String() != dump(s) {
		c.Violate("string-roundtrip", "string of U+%04X.. : %s", k*4096, c12strDiff(o, s.S))
	}
	if o := c12read(env, "\""+strlit.String()+"\""); o.String() != dump(s) {
		c.Violate("string-literal", "string of U+%04X.. : %s", k*4096, c12strDiff(o, s.S))
	}
	raw := strings.ReplaceAll(sb.String(), "`", "")
	if o := c12read(env, "`"+raw+"`"); o.String() != dump(&zygo.SexpStr{S: raw}) {
		c.Violate("raw-string-literal", "raw string of U+%04X.. : %s", k*4096, c12strDiff(o, raw))
	}
	c.Nontrivial(want)
}

func c12firstDiff(c *Ctx, sig string, o Outcome, chars []zygo.Sexp) {
	if !o.ok() {
		c.Violate(sig, "starting at U+%04X: %s", chars[0].(*zygo.SexpChar).Val, o.String())
		return
	}
	a, ok := o.Val.(*zygo.SexpArray)
	if !ok || len(a.Val) != len(chars) {
		c.Violate(sig, "starting at U+%04X: read %d elements, want %d", chars[0].(*zygo.SexpChar).Val, len(a.Val), len(chars))
		return
	}
	for i := range chars {
		if dump(a.Val[i]) != dump(chars[i]) {
			c.Violate(sig, "U+%04X was read as %s", chars[i].(*zygo.SexpChar).Val, dump(a.Val[i]))
			return
		}
	}
}

func c12strDiff(o Outcome, want string) string {
	s, ok := o.Val.(*zygo.SexpStr)
	if !o.ok() || !ok {
		return o.String()
	}
	i := 0
	for i < len(s.S) && i < len(want) && s.S[i] == want[i] {
		i++
	}
	cut := func(t string) string {
		if i+8 < len(t) {
			return strconv.QuoteToASCII(t[i : i+8])
		}
		if i > len(t) {
			return "(end)"
		}
		return strconv.QuoteToASCII(t[i:])
	}
	return fmt.Sprintf("differs at byte %d: got %s..., want %s...", i, cut(s.S), cut(want))
}

const c12alpha = "0179_.eE-+xobafUL"

// c12Spellings: every string over the alphabet starting with two given runes.
func c12Spellings(c *Ctx, k int) {
	env := newFullCached()
	p := string(c12alpha[k/17]) + string(c12alpha[k%17])
	max := 5
	if c.Tier == "thorough" {
		max = 6
	}
	var batch []string
	var want []string
	flush := func() {
		if len(batch) == 0 {
			return
		}
		c12Batch(c, env, batch, want)
		batch, want = nil, nil
	}
	var rec func(s string)
	rec = func(s string) {
		if w, ok := c12spell(s); ok {
			if w == "error" {
				o := c12read(env, s)
				c.Eval()
				if o.Kind != "error" {
					c.Violate("literal-range", "literal %s is out of range but reads as %s", s, o.String())
				}
			} else {
				batch = append(batch, s)
				want = append(want, w)
				if len(batch) >= 200 {
					flush()
				}
			}
		}
		if len(s) < max {
			for i := 0; i < len(c12alpha); i++ {
				rec(s + string(c12alpha[i]))
			}
		}
	}
	if k%17 == 0 {
		// the one-character spelling once
		if w, ok := c12spell(p[:1]); ok {
			batch, want = append(batch, p[:1]), append(want, w)
		}
	}
	rec(p)
	flush()
}

func c12Batch(c *Ctx, env *zygo.Zlisp, lits, want []string) {
	o := c12read(env, "["+strings.Join(lits, " ")+"]")
	a, ok := o.Val.(*zygo.SexpArray)
	if o.ok() && ok && len(a.Val) == len(lits) {
		bad := false
		for i := range lits {
			c.Eval()
			if g := dump(a.Val[i]); g != want[i] {
				bad = true
				c.Violate("literal", "literal %s reads as %s, it denotes %s", lits[i], g, want[i])
			}
			c.Nontrivial("lit" + lits[i])
		}
		c.Count("spellings", int64(len(lits)))
		if !bad {
			return
		}
	}
	// find the culprit
	for i := range lits {
		o := c12read(env, lits[i])
		c.Eval()
		if o.String() != want[i] {
			c.Violate("literal", "literal %s reads as %s, it denotes %s", lits[i], o.String(), want[i])
			return
		}
	}
	if !ok || !o.ok() {
		c.Violate("literal", "literals read alone but not in an array: [%s] gives %s", strings.Join(lits, " "), o.Coarse())
	}
}

func digitsIn(s, set string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !strings.Contains(set, string(s[i])) {
			return false
		}
	}
	return true
}

const dec = "0123456789"

func isDecUnderscore(s string) bool { // digit then digits and underscores
	return s != "" && strings.Contains(dec, s[:1]) && (len(s) == 1 || digitsIn(s[1:], dec+"_"))
}

// c12spell: what a numeric spelling denotes, from the documented notations.
func c12spell(s string) (string, bool) {
	intRange := func(v *big.Int, ok bool) (string, bool) {
		if !ok {
			return "", false
		}
		if !v.IsInt64() {
			return "error", true
		}
		return v.String(), true
	}
	if strings.HasSuffix(s, "ULL") {
		b := strings.TrimSuffix(s, "ULL")
		base := 10
		switch {
		case strings.HasPrefix(b, "0x") && digitsIn(b[2:], dec+"abcdefABCDEF"):
			b, base = b[2:], 16
		case strings.HasPrefix(b, "0o") && digitsIn(b[2:], "01234567"):
			b, base = b[2:], 8
		case digitsIn(b, dec):
		default:
			return "", false
		}
		v, ok := new(big.Int).SetString(b, base)
		if !ok {
			return "", false
		}
		if !v.IsUint64() {
			return "error", true
		}
		return "u" + v.String(), true
	}
	switch {
	case strings.HasPrefix(s, "0x") && digitsIn(s[2:], dec+"abcdefABCDEF"):
		return intRange(new(big.Int).SetString(s[2:], 16))
	case strings.HasPrefix(s, "0o") && digitsIn(s[2:], "01234567"):
		return intRange(new(big.Int).SetString(s[2:], 8))
	case strings.HasPrefix(s, "0b") && digitsIn(s[2:], "01"):
		return intRange(new(big.Int).SetString(s[2:], 2))
	}
	neg := strings.HasPrefix(s, "-")
	m := strings.TrimPrefix(s, "-")
	if isDecUnderscore(m) {
		v, ok := new(big.Int).SetString(strings.ReplaceAll(m, "_", ""), 10)
		if neg && ok {
			v.Neg(v)
		}
		return intRange(v, ok)
	}
	if m == "Inf" || m == "inf" {
		return "f" + fkey(math.Inf(map[bool]int{true: -1, false: 1}[neg])), true
	}
	// mantissa and exponent
	man, exp := m, ""
	if i := strings.IndexAny(m, "eE"); i >= 0 {
		man, exp = m[:i], m[i+1:]
		e := strings.TrimLeft(exp, "+-")
		if len(exp)-len(e) > 1 || !isDecUnderscore(e) {
			return "", false
		}
	}
	ip, fp := man, ""
	dot := strings.IndexByte(man, '.')
	if dot >= 0 {
		ip, fp = man[:dot], man[dot+1:]
	}
	switch {
	case dot < 0 && exp == "":
		return "", false
	case !isDecUnderscore(ip) && !(ip == "" && exp == "" && isDecUnderscore(fp)):
		return "", false
	case ip == "" && exp != "":
		return "", false // .5e3 is not among the documented notations
	case fp != "" && !digitsIn(fp, dec+"_"):
		return "", false
	}
	clean := strings.ReplaceAll(s, "_", "")
	if ip == "" {
		clean = strings.Replace(clean, ".", "0.", 1)
	}
	// exact value by math/big, rounded once to the nearest float64
	if r, ok := new(big.Rat).SetString(clean); ok {
		f, _ := r.Float64()
		if math.IsInf(f, 0) {
			return "error", true
		}
		if neg && f == 0 {
			f = math.Copysign(0, -1)
		}
		return "f" + fkey(f), true
	}
	// the exponent is too large for big.Rat: decide by strconv
	f, err := strconv.ParseFloat(clean, 64)
	if err != nil {
		return "error", true
	}
	return "f" + fkey(f), true
}

// ------------------------------------------------------------- random

var c12syms = []string{"a", "b", "foo", "x1", "FULL", "été", "日本", "+", "-", "*", "/", "**", "<", "<=", ">", "==", "!=", "=", ":=", "->", "++", "--",
	"+=", "and", "or", "not", "quote", "infix", "a.b", ".x", "x.y.z", "?q", "#z", "$", ":", "hash", "list", "nil2", "true1", "e5", "x_y", "def", "fn", "A9", "Z", "!", "&&x"}

func c12float(c *Ctx) float64 {
	r := c.Rng
	switch r.Intn(8) {
	case 0:
		return float64(r.Int63n(1<<53)) / float64(int64(1)<<uint(r.Intn(52)))
	case 1:
		return pick(r, []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, 1e20, 1e21, 1e22, 1e-6, 1e-7, 9.999999e-8, 1e15, 1e16, 1e17, 1e100, 1e300, 1e-300, math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740993, 4.9e-324, 2.2250738585072014e-308, 123456789012345680000, 1 << 63, -(1 << 63), 1 << 62})
	case 2:
		return math.Pow(10, float64(r.Intn(640)-324))
	case 3:
		return float64(r.Int63())
	case 4:
		return -float64(r.Intn(1000)) / 8
	}
	for {
		f := math.Float64frombits(r.Uint64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func c12int(c *Ctx) int64 {
	r := c.Rng
	switch r.Intn(5) {
	case 0:
		return pick(r, []int64{0, 1, -1, 9, 10, -10, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, 1 << 32, -(1 << 31)})
	case 1:
		return r.Int63() - r.Int63()
	}
	return int64(r.Intn(2000) - 1000)
}

func c12rune(c *Ctx) rune {
	r := c.Rng
	switch r.Intn(5) {
	case 0:
		return rune(r.Intn(128))
	case 1:
		return pick(r, []rune{0, 7, 8, 9, 10, 11, 12, 13, 27, '"', '\'', '\\', '`', '#', 127, 0x80, 0x85, 0xa0, 0xff, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0xe000, 0xd7ff, 0x301, 0x200d})
	case 2:
		for {
			x := rune(r.Intn(0x110000))
			if utf8.ValidRune(x) {
				return x
			}
		}
	}
	return rune('a' + r.Intn(26))
}

func c12str(c *Ctx) string {
	var sb strings.Builder
	for i := c.intn(8); i > 0; i-- {
		sb.WriteRune(c12rune(c))
	}
	if c.chance(1, 12) {
		sb.WriteString(pick(c.Rng, []string{`\n`, `\\`, `//`, `/*`, "*/", `\x41`, `\u00e9`, "%d", "~@", "{}", "`", `"`, "\r\n", "nil", "1.0", "'a'"}))
	}
	return sb.String()
}

// c12val builds a data value; sym makes symbols.
func c12val(c *Ctx, env *zygo.Zlisp, depth int) zygo.Sexp {
	r := c.Rng
	k := r.Intn(14)
	if depth <= 0 {
		k = r.Intn(10)
	}
	switch k {
	case 0:
		return &zygo.SexpInt{Val: c12int(c)}
	case 1, 2:
		f := c12float(c)
		if r.Intn(30) == 0 {
			f = pick(r, []float64{math.Inf(1), math.Inf(-1), math.NaN()})
		}
		return &zygo.SexpFloat{Val: f, Scientific: r.Intn(6) == 0}
	case 3:
		return &zygo.SexpBool{Val: r.Intn(2) == 0}
	case 4:
		return zygo.SexpNull
	case 5:
		return &zygo.SexpChar{Val: c12rune(c)}
	case 6:
		return &zygo.SexpUint64{Val: pick(r, []uint64{0, 1, math.MaxUint64, 1 << 63, uint64(r.Int63())})}
	case 7, 8:
		return &zygo.SexpStr{S: c12str(c)}
	case 9:
		return c12readSym(env, pick(r, c12syms))
	case 10, 11:
		n := r.Intn(5)
		xs := make([]zygo.Sexp, n)
		for i := range xs {
			xs[i] = c12val(c, env, depth-1)
		}
		return env.NewSexpArray(xs)
	case 12:
		n := 1 + r.Intn(5)
		var tail zygo.Sexp = zygo.SexpNull
		if r.Intn(5) == 0 {
			tail = c12val(c, env, 0)
		}
		for i := 0; i < n; i++ {
			tail = zygo.Cons(c12val(c, env, depth-1), tail)
		}
		return tail
	default:
		n := r.Intn(6)
		xs := make([]zygo.Sexp, n)
		for i := range xs {
			xs[i] = c12val(c, env, depth-1)
		}
		return zygo.MakeList(xs)
	}
}

var c12symCache = map[string]zygo.Sexp{}

func c12readSym(env *zygo.Zlisp, name string) zygo.Sexp {
	o := c12read(env, name)
	if s, ok := o.Val.(*zygo.SexpSymbol); ok && s.Name() == name {
		return s
	}
	return env.MakeSymbol("plain")
}

func c12hasNaN(d string) bool { return strings.Contains(d, "NaN") }

func c12Data(c *Ctx) {
	env := newFullCached()
	env.Pretty = c.chance(1, 6)
	defer func() { env.Pretty = false }()
	v := c12val(c, env, 1+c.intn(4))
	if c.chance(1, 8) {
		// arithmetic instead of a literal
		src := fmt.Sprintf("(%s %s %s)", pick(c.Rng, []string{"+", "-", "*", "/"}), c12lit(c), c12lit(c))
		if o := evalStr(env, 5000, src); o.ok() {
			v = o.Val
		}
	}
	c.Eval()
	want := dump(v)
	text := v.SexpString(nil)
	o := c12read(env, text)
	if o.String() != want {
		c.Violate("data", "value %s\n  prints as %s\n  which reads as %s", want, show(text), o.String())
		return
	}
	// and as scripts see it: (read (str v)), (== v (read (str v)))
	if _, isStr := v.(*zygo.SexpStr); !isStr {
		env.AddGlobal("c12v", v)
		o = guard(20000, func() (zygo.Sexp, error) {
			s, err := env.Apply(c13func(env, "str"), []zygo.Sexp{v})
			if err != nil {
				return s, err
			}
			return env.Apply(c13func(env, "read"), []zygo.Sexp{s})
		})
		if _, isSym := v.(*zygo.SexpSymbol); !isSym || !strings.Contains(want, ".") {
			if _, isChar := v.(*zygo.SexpChar); !isChar && o.String() != want {
				c.Violate("str", "value %s: (read (str v)) gives %s", want, o.String())
				return
			}
		}
	}
	if o.ok() && !c12hasNaN(want) && c12comparable(v) {
		e := guard(20000, func() (zygo.Sexp, error) {
			return env.Apply(c13func(env, "=="), []zygo.Sexp{v, o.Val})
		})
		if e.String() != "true" {
			c.Violate("equal", "value %s read back as %s but == says %s", want, o.String(), e.String())
			return
		}
	}
	c.Count("values_read_back", 1)
	c.Nontrivial("d" + want)
	c.Sample(text)
}

// c12comparable: == compares element by element; keep to what it supports.
func c12comparable(v zygo.Sexp) bool {
	switch t := v.(type) {
	case *zygo.SexpInt, *zygo.SexpUint64, *zygo.SexpBool, *zygo.SexpStr, *zygo.SexpChar:
		return true
	case *zygo.SexpFloat:
		return !math.IsNaN(t.Val)
	case *zygo.SexpSymbol:
		return !strings.Contains(t.Name(), ".")
	case *zygo.SexpArray:
		for _, x := range t.Val {
			if !c12comparable(x) {
				return false
			}
		}
		return true
	case *zygo.SexpPair:
		for {
			if !c12comparable(t.Head) {
				return false
			}
			nx, ok := t.Tail.(*zygo.SexpPair)
			if !ok {
				return t.Tail == zygo.SexpNull
			}
			t = nx
		}
	}
	return v == zygo.SexpNull
}

func c12lit(c *Ctx) string {
	return strconv.FormatFloat(c12float(c), pick(c.Rng, []byte{'e', 'g', 'f'}), -1, 64)
}

// c12json builds JSON-like data.
func c12json(c *Ctx, env *zygo.Zlisp, depth int) zygo.Sexp {
	r := c.Rng
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(6)
	}
	switch k {
	case 0:
		return &zygo.SexpInt{Val: c12int(c)}
	case 1:
		return &zygo.SexpFloat{Val: c12float(c), Scientific: r.Intn(6) == 0}
	case 2:
		return &zygo.SexpBool{Val: r.Intn(2) == 0}
	case 3:
		return zygo.SexpNull
	case 4, 5:
		return &zygo.SexpStr{S: c12str(c)}
	case 6, 7:
		xs := make([]zygo.Sexp, r.Intn(5))
		for i := range xs {
			xs[i] = c12json(c, env, depth-1)
		}
		return env.NewSexpArray(xs)
	}
	return c12hash(c, env, depth)
}

func c12hash(c *Ctx, env *zygo.Zlisp, depth int) zygo.Sexp {
	r := c.Rng
	h, err := zygo.MakeHash(nil, "hash", env)
	if err != nil {
		return zygo.SexpNull
	}
	mode := r.Intn(4)
	for i := r.Intn(5); i > 0; i-- {
		var k zygo.Sexp
		switch {
		case mode == 0 || mode == 3 && r.Intn(2) == 0:
			k = env.MakeSymbol(pick(r, []string{"a", "b", "key", "été", "x1", "name", "for", "nil", "true", "e5", "and", "日"}))
		case mode == 2 && r.Intn(2) == 0:
			k = &zygo.SexpInt{Val: int64(r.Intn(20) - 5)}
		default:
			k = &zygo.SexpStr{S: c12str(c)}
		}
		if s, ok := k.(*zygo.SexpSymbol); ok && s.Name() == "true" {
			continue
		}
		if err := h.HashSet(k, c12json(c, env, depth-1)); err != nil {
			return zygo.SexpNull
		}
	}
	return h
}

func c12JSONLike(c *Ctx) {
	env := newFullCached()
	env.Pretty = c.chance(1, 6)
	defer func() { env.Pretty = false }()
	var v zygo.Sexp
	if c.chance(2, 3) {
		v = c12hash(c, env, 3)
	} else {
		v = c12json(c, env, 3)
	}
	want := dump(v)
	text := v.SexpString(nil)
	c.Eval()
	o := evalStr(env, 100000, text)
	if o.String() != want {
		c.Violate("eval", "JSON-like value %s\n  prints as %s\n  which evaluates to %s", want, show(text), o.String())
		return
	}
	c.Count("values_evaluated_back", 1)
	c.Nontrivial("j" + want)
	if _, isStr := v.(*zygo.SexpStr); isStr || !c.chance(1, 6) {
		return
	}
	// through (eval (read ...)) and through a saved file
	env.AddGlobal("c12v", v)
	o = evalStr(env, 100000, "(eval (read (str c12v)))")
	if o.String() != want {
		c.Violate("eval", "JSON-like value %s\n  prints as %s\n  and (eval (read (str v))) gives %s", want, show(text), o.String())
		return
	}
	if _, isArr := v.(*zygo.SexpArray); isArr {
		return // arrays are saved one element per line
	}
	f := filepath.Join(os.TempDir(), fmt.Sprintf("c12-%d.zy", os.Getpid()))
	os.Remove(f)
	defer os.Remove(f)
	o = guard(100000, func() (zygo.Sexp, error) {
		save := zygo.WriteToFileFunction("save")
		return save(env, "save", []zygo.Sexp{v, &zygo.SexpStr{S: f}})
	})
	if !o.ok() {
		c.Violate("save", "saving %s: %s", want, o.String())
		return
	}
	o = guard(100000, func() (zygo.Sexp, error) {
		return zygo.SourceFileFunction(env, "source", []zygo.Sexp{&zygo.SexpStr{S: f}})
	})
	if o.String() != want {
		b, _ := os.ReadFile(f)
		c.Violate("source", "JSON-like value %s\n  saved as %s\n  sources as %s", want, show(string(b)), o.String())
		return
	}
	c.Count("saved_and_sourced", 1)
}

// c12Numbers: longer spellings, in several surroundings.
func c12Numbers(c *Ctx) {
	r := c.Rng
	env := newFullCached()
	var lits, want []string
	for len(lits) < 12 {
		var s string
		us := func(d string) string {
			if r.Intn(3) > 0 {
				return d
			}
			var sb strings.Builder
			for i := range d {
				sb.WriteByte(d[i])
				if r.Intn(4) == 0 {
					sb.WriteByte('_')
				}
			}
			return sb.String()
		}
		digits := func(n int) string {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				sb.WriteByte(dec[r.Intn(10)])
			}
			return sb.String()
		}
		near := func(v *big.Int) *big.Int {
			return new(big.Int).Add(v, big.NewInt(int64(r.Intn(5)-2)))
		}
		b := pick(r, []uint{7, 8, 31, 32, 52, 53, 62, 63, 63, 64, 64, 65})
		v := near(new(big.Int).Lsh(big.NewInt(1), b))
		if r.Intn(2) == 0 {
			v = new(big.Int).SetUint64(r.Uint64() >> uint(r.Intn(64)))
		}
		switch r.Intn(9) {
		case 0:
			s = us(v.String())
		case 1:
			s = "-" + us(v.String())
		case 2:
			s = "0x" + v.Text(16)
			if r.Intn(2) == 0 {
				s = "0x" + strings.ToUpper(v.Text(16))
			}
		case 3:
			s = "0o" + v.Text(8)
		case 4:
			s = "0b" + v.Text(2)
		case 5:
			s = pick(r, []string{v.String(), "0x" + v.Text(16), "0o" + v.Text(8)}) + "ULL"
		case 6:
			s = us(digits(1+r.Intn(22))) + "." + us(digits(r.Intn(25)))
		case 7:
			s = us(digits(1+r.Intn(20))) + pick(r, []string{"", ".", "." + digits(1+r.Intn(18))}) + pick(r, []string{"e", "E"}) + pick(r, []string{"", "+", "-"}) + strconv.Itoa(r.Intn(330))
		case 8:
			s = strconv.FormatFloat(c12float(c), pick(r, []byte{'e', 'E', 'g', 'f'}), -1, 64)
		}
		if strings.HasPrefix(s, "--") {
			continue
		}
		if r.Intn(4) == 0 && !strings.HasPrefix(s, "-") && !strings.HasPrefix(s, "0x") && !strings.HasPrefix(s, "0o") && !strings.HasPrefix(s, "0b") && !strings.HasSuffix(s, "ULL") {
			s = "-" + s
		}
		w, ok := c12spell(s)
		if !ok {
			continue
		}
		if w == "error" {
			c.Eval()
			if o := c12read(env, s); o.Kind != "error" {
				c.Violate("literal-range", "literal %s is out of range but reads as %s", s, o.String())
			}
			c.Count("out_of_range_spellings", 1)
			continue
		}
		lits = append(lits, s)
		want = append(want, w)
	}
	c12Batch(c, env, lits, want)
	// surroundings
	l, w := lits[0], want[0]
	for _, t := range []string{l, l + "\n", " " + l + " ", "(quote " + l + ")", "{" + l + "}", "(begin " + l + ")", "{a = " + l + "}", "{\"k\":" + l + "}", "(hash k:" + l + ")",
		"[1, " + l + ", 2]", "(list 1 " + l + ")", l + " // c", "(+ 0 0) " + l} {
		c.Eval()
		o := evalStr(env, 20000, t)
		g := o.String()
		exp := w
		switch {
		case strings.HasPrefix(t, "{\"k\""):
			exp = "(hash \"k\":" + w + ")"
		case strings.HasPrefix(t, "(hash"):
			exp = "(hash '\"k\":" + w + ")"
		case strings.HasPrefix(t, "[1,"):
			exp = "[1 " + w + " 2]"
		case strings.HasPrefix(t, "(list"):
			exp = "(1 " + w + ")"
		}
		if g != exp {
			c.Violate("literal", "%s evaluates to %s, the literal denotes %s", t, g, w)
			return
		}
	}
	c.Count("surroundings", 13)
}

// c12Text: char and string literals written with random escapes.
func c12Text(c *Ctx) {
	r := c.Rng
	env := newFullCached()
	spell := func(x rune, inStr bool) string {
		m := map[rune]string{'\n': `\n`, '\t': `\t`, '\r': `\r`, '\a': `\a`, '\b': `\b`, '\f': `\f`, '\v': `\v`, '\\': `\\`, '"': `\"`, '\'': `\'`, '#': `\#`}
		must := x == '\\' || inStr && x == '"' || !inStr && x == '\''
		if s, ok := m[x]; ok && (must || r.Intn(2) == 0) {
			return s
		}
		if !must {
			switch r.Intn(6) {
			case 0:
				if x < 0x80 {
					return fmt.Sprintf(`\x%02x`, x)
				}
			case 1:
				if x < 0x10000 {
					return fmt.Sprintf(`\u%04x`, x)
				}
			case 2:
				return fmt.Sprintf(`\U%08x`, x)
			}
		}
		return string(x)
	}
	var src bytes.Buffer
	src.WriteString("[")
	var want []zygo.Sexp
	for i := 1 + r.Intn(6); i > 0; i-- {
		switch r.Intn(3) {
		case 0:
			x := c12rune(c)
			src.WriteString("'" + spell(x, false) + "' ")
			want = append(want, &zygo.SexpChar{Val: x})
		case 1:
			s := strings.ReplaceAll(c12str(c), "`", "")
			src.WriteString("`" + s + "` ")
			want = append(want, &zygo.SexpStr{S: s})
		default:
			s := c12str(c)
			src.WriteString("\"")
			for _, x := range s {
				src.WriteString(spell(x, true))
			}
			src.WriteString("\" ")
			want = append(want, &zygo.SexpStr{S: s})
		}
	}
	src.WriteString("]")
	c.Eval()
	w := dump(env.NewSexpArray(want))
	if o := c12read(env, src.String()); o.String() != w {
		c.Violate("text-literal", "%s reads as %s\n  it denotes %s", show(src.String()), o.String(), w)
		return
	}
	if o := evalStr(env, 20000, src.String()); o.String() != w {
		c.Violate("text-literal", "%s evaluates to %s\n  it denotes %s", show(src.String()), o.String(), w)
		return
	}
	c.Count("text_literals", int64(len(want)))
	c.Nontrivial("t" + src.String())
}
