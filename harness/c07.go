package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C07: numbers compare and compute exactly as specified.
// Oracle: exact order / wrap-around arithmetic computed here with math/big and
// plain Go float64, never with the library.

type num struct {
	k byte // 'i','u','c','f'
	i int64
	u uint64
	f float64
}

func (n num) sexp() zygo.Sexp {
	switch n.k {
	case 'i':
		return &zygo.SexpInt{Val: n.i}
	case 'u':
		return &zygo.SexpUint64{Val: n.u}
	case 'c':
		return &zygo.SexpChar{Val: rune(n.i)}
	}
	return &zygo.SexpFloat{Val: n.f}
}

func (n num) String() string { return dump(n.sexp()) }

func (n num) float() float64 {
	switch n.k {
	case 'i', 'c':
		return float64(n.i)
	case 'u':
		return float64(n.u)
	}
	return n.f
}

func (n num) big() *big.Int {
	if n.k == 'u' {
		return new(big.Int).SetUint64(n.u)
	}
	return big.NewInt(n.i)
}

func c07Boundary() []num {
	var r []num
	for _, v := range []int64{0, 1, -1, 2, -2, 3, 7, -7, 10, 97, 127, 128, 255, 256, 65535,
		math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1,
		1 << 52, 1<<53 - 1, 1 << 53, 1<<53 + 1, -(1 << 53) - 1, 1 << 62, -(1 << 62),
		1<<62 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64 - 2, math.MaxInt64 - 1024, math.MinInt64, math.MinInt64 + 1,
		math.MinInt64 + 2, 3037000500, -3037000500, 4294967296, 6700417 * 641} {
		r = append(r, num{k: 'i', i: v})
	}
	for _, v := range []uint64{0, 1, 2, 3, 255, 1 << 31, 1 << 32, 1 << 53, 1<<53 + 1, 1<<62 + 1, math.MaxInt64 - 1, math.MaxInt64,
		math.MaxInt64 + 1, math.MaxInt64 + 2, 1<<63 + 5, math.MaxUint64 - 1, math.MaxUint64} {
		r = append(r, num{k: 'u', u: v})
	}
	for _, v := range []int64{0, 1, 'A', 'a', 'z', 0x7f, 0xe9, 0x3b1, 0x20ac, 0xffff, 0x1f600, 0x10ffff} {
		r = append(r, num{k: 'c', i: v})
	}
	for _, v := range []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 2, 3, 97, 65, math.Pi, 1e-300, math.SmallestNonzeroFloat64,
		-math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(),
		1 << 53, 1<<53 + 2, -(1 << 53), 9223372036854775807, 9223372036854774784, -9223372036854775808, -9223372036854777856, 9223372036854777856,
		18446744073709551615, 4611686018427387904, 1e100, -1e100, 0.1, 0.2, 0.1 + 0.2, 0.3, 2147483648, 1114111} {
		r = append(r, num{k: 'f', f: v})
	}
	return r
}

func c07Random(r *rand.Rand) num {
	switch r.Intn(10) {
	case 0, 1, 2, 3:
		switch r.Intn(6) {
		case 0:
			return num{k: 'i', i: int64(r.Intn(41) - 20)}
		case 1:
			return num{k: 'i', i: math.MaxInt64 - int64(r.Intn(2000))}
		case 2:
			return num{k: 'i', i: math.MinInt64 + int64(r.Intn(2000))}
		case 3:
			return num{k: 'i', i: int64(r.Uint64()) >> uint(r.Intn(64))}
		case 4:
			return num{k: 'i', i: int64(1)<<uint(r.Intn(63)) + int64(r.Intn(3)-1)}
		}
		return num{k: 'i', i: int64(r.Uint64())}
	case 4, 5:
		switch r.Intn(4) {
		case 0:
			return num{k: 'u', u: math.MaxUint64 - uint64(r.Intn(50))}
		case 1:
			return num{k: 'u', u: uint64(r.Intn(30))}
		case 2:
			return num{k: 'u', u: 1<<63 + uint64(r.Intn(5)) - 2}
		}
		return num{k: 'u', u: r.Uint64() >> uint(r.Intn(64))}
	case 6:
		return num{k: 'c', i: int64(r.Intn(0x110000))}
	}
	switch r.Intn(7) {
	case 0:
		return num{k: 'f', f: math.Float64frombits(r.Uint64())}
	case 1:
		return num{k: 'f', f: float64(r.Intn(41) - 20)}
	case 2:
		return num{k: 'f', f: float64(int64(r.Uint64()))}
	case 3:
		return num{k: 'f', f: math.Nextafter(float64(int64(1)<<uint(r.Intn(63))), float64(r.Intn(2))*1e300)}
	case 4:
		return num{k: 'f', f: math.NaN()}
	case 5:
		return num{k: 'f', f: float64(r.Intn(2000)-1000) / 8}
	}
	return num{k: 'f', f: r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))}
}

// c07Order gives -1/0/1, 2 for unordered, and whether the statement speaks
// about this pair at all.
func c07Order(a, b num) (int, bool) {
	if a.k == 'f' || b.k == 'f' {
		if a.k == 'u' || b.k == 'u' {
			return 0, false
		}
		x, y := a.float(), b.float()
		switch {
		case x != x || y != y:
			return 2, true
		case x < y:
			return -1, true
		case x > y:
			return 1, true
		}
		return 0, true
	}
	if (a.k == 'u') != (b.k == 'u') {
		return 0, false
	}
	return a.big().Cmp(b.big()), true
}

var c07CmpOps = []string{"<", ">", "<=", ">=", "==", "!="}
var c07ArithOps = []string{"+", "-", "*", "/", "mod"}

func c07ExpectCmp(op string, o int) bool {
	if o == 2 {
		return op == "!="
	}
	switch op {
	case "<":
		return o < 0
	case ">":
		return o > 0
	case "<=":
		return o <= 0
	case ">=":
		return o >= 0
	case "==":
		return o == 0
	}
	return o != 0
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

// c07ExpectArith returns the acceptable dumps, or nil when unspecified.
func c07ExpectArith(op string, a, b num) (want []string) {
	isF := a.k == 'f' || b.k == 'f'
	if op == "mod" {
		if isF {
			return nil
		}
		if b.big().Sign() == 0 {
			return []string{"error"}
		}
		if a.k == 'i' && b.k == 'i' {
			return []string{dump(&zygo.SexpInt{Val: a.i % b.i})}
		}
		if a.k == 'u' && b.k == 'u' {
			return []string{dump(&zygo.SexpUint64{Val: a.u % b.u})}
		}
		return nil
	}
	if isF {
		if a.k == 'u' || b.k == 'u' { // converted as well, same rule
		}
		x, y := a.float(), b.float()
		var z float64
		switch op {
		case "+":
			z = x + y
		case "-":
			z = x - y
		case "*":
			z = x * y
		case "/":
			z = x / y
			if y == 0 {
				return []string{"error", dump(&zygo.SexpFloat{Val: z})}
			}
		}
		return []string{dump(&zygo.SexpFloat{Val: z})}
	}
	if op == "/" {
		if b.big().Sign() == 0 {
			return []string{"error"}
		}
		switch {
		case a.k == 'i' && b.k == 'i':
			q, m := new(big.Int).QuoRem(a.big(), b.big(), new(big.Int))
			if m.Sign() != 0 {
				return []string{dump(&zygo.SexpFloat{Val: float64(a.i) / float64(b.i)})}
			}
			if q.IsInt64() {
				return []string{q.String()}
			}
			// MinInt64 / -1: wrapping as Go does, or the float, are both exact
			// modulo 2^64 / in float64
			return []string{dump(&zygo.SexpInt{Val: math.MinInt64}), dump(&zygo.SexpFloat{Val: 9223372036854775808})}
		case a.k == 'u' && b.k == 'u':
			if a.u%b.u == 0 {
				return []string{dump(&zygo.SexpUint64{Val: a.u / b.u})}
			}
			return []string{dump(&zygo.SexpFloat{Val: float64(a.u) / float64(b.u)})}
		}
		return nil
	}
	z := new(big.Int)
	switch op {
	case "+":
		z.Add(a.big(), b.big())
	case "-":
		z.Sub(a.big(), b.big())
	case "*":
		z.Mul(a.big(), b.big())
	}
	z.Mod(z, two64)
	switch {
	case a.k == 'u' || b.k == 'u':
		return []string{dump(&zygo.SexpUint64{Val: z.Uint64()})}
	case a.k == 'i':
		return []string{dump(&zygo.SexpInt{Val: int64(z.Uint64())})}
	default: // char first: the result is a char when it fits one
		v := int64(z.Uint64())
		if v < 0 || v > math.MaxInt32 {
			return nil
		}
		return []string{dump(&zygo.SexpChar{Val: rune(v)}), dump(&zygo.SexpInt{Val: v})}
	}
}

var c07env *zygo.Zlisp
var c07fn = map[string]*zygo.SexpFunction{}

func c07Init(c *Ctx) {
	c07env = newFull()
	for _, op := range append(append([]string{}, c07CmpOps...), c07ArithOps...) {
		o, ok := c07env.FindObject(op)
		f, isf := o.(*zygo.SexpFunction)
		if !ok || !isf {
			panic("no builtin " + op)
		}
		c07fn[op] = f
	}
}

func c07Show(op string, a, b num, got string, want interface{}, how string) string {
	return fmt.Sprintf("(%s a b) with a=%s b=%s via %s: got %s, want %v", op, a, b, how, got, want)
}

// one pair through one route
func c07Pair(c *Ctx, a, b num, route string, call func(op string) Outcome) {
	c.Eval()
	ord, spec := c07Order(a, b)
	if spec {
		res := map[string]bool{}
		for _, op := range c07CmpOps {
			o := call(op)
			want := c07ExpectCmp(op, ord)
			got := o.Coarse()
			if got != fmt.Sprint(want) {
				c.Violate(fmt.Sprintf("cmp:%s:%c%c:%s", op, a.k, b.k, route), "%s", c07Show(op, a, b, o.String(), want, route))
				continue
			}
			res[op] = want
		}
		c.Count("comparisons", 6)
	}
	for _, op := range c07ArithOps {
		want := c07ExpectArith(op, a, b)
		o := call(op)
		if o.Kind == "panic" {
			c.Violate(fmt.Sprintf("crash:%s:%c%c:%s", op, a.k, b.k, route), "%s", c07Show(op, a, b, o.String(), want, route))
			continue
		}
		if want == nil {
			c.Count("arith_unspecified", 1)
			continue
		}
		got := o.Coarse()
		ok := false
		for _, w := range want {
			if w == got {
				ok = true
			}
		}
		if !ok {
			c.Violate(fmt.Sprintf("arith:%s:%c%c:%s", op, a.k, b.k, route), "%s", c07Show(op, a, b, o.String(), want, route))
		}
		c.Count("arithmetic_results", 1)
	}
}

func c07Run(c *Ctx, idx int) {
	bd := c07Boundary()
	direct := func(a, b num) {
		as, bs := a.sexp(), b.sexp()
		c07Pair(c, a, b, "apply", func(op string) Outcome {
			return guard(0, func() (zygo.Sexp, error) { return c07env.Apply(c07fn[op], []zygo.Sexp{as, bs}) })
		})
		c.Nontrivial(a.String() + "|" + b.String())
	}
	eval := func(a, b num) {
		c07env.AddGlobal("xa", a.sexp())
		c07env.AddGlobal("xb", b.sexp())
		c07env.AddGlobal("xv", &zygo.SexpArray{Val: []zygo.Sexp{a.sexp(), b.sexp()}})
		switch c.intn(5) {
		case 0:
			c07Pair(c, a, b, "prefix", func(op string) Outcome {
				return evalStr(c07env, 1000, "("+op+" xa xb)")
			})
		case 1:
			c07Pair(c, a, b, "infix", func(op string) Outcome {
				return evalStr(c07env, 1000, "{xa "+op+" xb}")
			})
		case 2:
			c07Pair(c, a, b, "closure", func(op string) Outcome {
				return evalStr(c07env, 1000, "((fn [p q] ("+op+" p q)) xa xb)")
			})
		case 3:
			c07Pair(c, a, b, "apply-builtin", func(op string) Outcome {
				return evalStr(c07env, 1000, "(apply "+op+" [xa xb])")
			})
		case 4:
			c07Pair(c, a, b, "selector", func(op string) Outcome {
				if op == "mod" { // takes no selectors
					return evalStr(c07env, 1000, "(mod xa xb)")
				}
				return evalStr(c07env, 1000, "{xv[0] "+op+" xv[1]}")
			})
		}
		c.Nontrivial(a.String() + "|" + b.String())
	}
	// the laws, directly on the answers, and variadic/compound use
	laws := func(a, b num) {
		ord, spec := c07Order(a, b)
		if !spec {
			return
		}
		ap := func(op string, x, y zygo.Sexp) string {
			return guard(0, func() (zygo.Sexp, error) { return c07env.Apply(c07fn[op], []zygo.Sexp{x, y}) }).Coarse()
		}
		as, bs := a.sexp(), b.sexp()
		// as elements: equality of one-element arrays and lists is that of the elements
		aa := &zygo.SexpArray{Val: []zygo.Sexp{&zygo.SexpInt{Val: 1}, as}}
		ba := &zygo.SexpArray{Val: []zygo.Sexp{&zygo.SexpInt{Val: 1}, bs}}
		if got := ap("==", aa, ba); got != fmt.Sprint(ord == 0) {
			c.Violate(fmt.Sprintf("arr-eq:%c%c", a.k, b.k), "(== [1 a] [1 b]) a=%s b=%s: got %s want %v", a, b, got, ord == 0)
		}
		if got := ap("==", zygo.MakeList([]zygo.Sexp{as}), zygo.MakeList([]zygo.Sexp{bs})); got != fmt.Sprint(ord == 0) {
			c.Violate(fmt.Sprintf("list-eq:%c%c", a.k, b.k), "(== (list a) (list b)) a=%s b=%s: got %s want %v", a, b, got, ord == 0)
		}
		if l, g := ap("<", as, bs), ap(">", bs, as); l != g {
			c.Violate(fmt.Sprintf("antisym:%c%c", a.k, b.k), "(< a b)=%s but (> b a)=%s for a=%s b=%s", l, g, a, b)
		}
		c.Count("law_checks", 3)
	}
	if idx < len(bd) {
		// exhaustive over the boundary set, both routes
		a := bd[idx]
		for _, b := range bd {
			direct(a, b)
			laws(a, b)
			for k := 0; k < 3; k++ {
				eval(a, b)
			}
		}
		c07Variadic(c)
		return
	}
	pairs := 400
	for i := 0; i < pairs; i++ {
		a, b := c07Random(c.Rng), c07Random(c.Rng)
		switch c.intn(6) {
		case 0: // near each other
			b = a
			switch a.k {
			case 'i':
				b.i += int64(c.intn(3) - 1)
			case 'u':
				b.u += uint64(c.intn(3)) - 1
			case 'f':
				b.f = math.Nextafter(a.f, []float64{math.Inf(1), math.Inf(-1), a.f}[c.intn(3)])
			}
		case 1: // same value through another type
			if a.k == 'i' {
				b = num{k: 'f', f: float64(a.i)}
			} else if a.k == 'c' {
				b = num{k: 'f', f: float64(a.i)}
			}
		case 2:
			a = pick(c.Rng, bd)
		}
		if c.chance(1, 2) {
			a, b = b, a
		}
		if i == 0 && idx%500 == 0 {
			c.Sample(fmt.Sprintf("a=%s b=%s", a, b))
		}
		direct(a, b)
		laws(a, b)
		if i%10 == 0 {
			eval(a, b)
		}
	}
}

// variadic folds: (- a b c) etc. fold from the left
func c07Variadic(c *Ctx) {
	for k := 0; k < 30; k++ {
		n := 2 + c.intn(4)
		xs := make([]num, n)
		args := make([]zygo.Sexp, n)
		for i := range xs {
			v := int64(c.Rng.Uint64()) >> uint(c.intn(64))
			xs[i] = num{k: 'i', i: v}
			args[i] = xs[i].sexp()
		}
		op := pick(c.Rng, []string{"+", "-", "*"})
		acc := xs[0].i
		for _, x := range xs[1:] {
			switch op {
			case "+":
				acc += x.i
			case "-":
				acc -= x.i
			case "*":
				acc *= x.i
			}
		}
		o := guard(0, func() (zygo.Sexp, error) { return c07env.Apply(c07fn[op], args) })
		if o.Coarse() != dump(&zygo.SexpInt{Val: acc}) {
			c.Violate("fold:"+op, "(%s %v) = %s want %d", op, xs, o.String(), acc)
		}
		c.Count("folds", 1)
	}
}

func init() {
	register(&Prop{
		ID:   "C07",
		Rule: "operand pairs: all pairs of a boundary set over int/uint64/char/float64 (enumerated), then random and neighbouring pairs; each pair runs through every comparison and arithmetic builtin by direct Apply and by script routes (prefix, infix, closure, apply, selectors); an observation is distinct by the operand pair",
		N: func(t string) int {
			if t == "thorough" {
				return len(c07Boundary()) + 40000
			}
			return len(c07Boundary()) + 2400
		},
		Run: c07Run, Init: c07Init,
		MinDistinct: func(t string) int { return 100000 },
		Exhaustive:  "all ordered pairs of the boundary set",
		Assumptions: []string{"comparison between uint64 and other number types and the ** operator are outside the statement and only checked not to crash", "float division by zero may be an error or IEEE Inf/NaN"},
	})
}
