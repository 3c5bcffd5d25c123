package main

// C09: self-recursive functions whose recursive calls sit in every nesting of
// tail positions. Their values, effects and closures are compared with the
// reference evaluator, which makes an ordinary call each time; and the stacks
// of the VM, the Go stack and the heap are watched while they run to depths
// far apart.

import (
	"fmt"
	"math"
	"runtime"

	"github.com/glycerine/zygomys/v9/zygo"
)

type tailgen struct {
	c      *Ctx
	self   string // what the recursive calls call
	form   int    // how the function is made
	rest   bool   // [n a b & r]
	lazy   bool   // #b
	keepk  bool   // an array of closures is handed down in k
	flat   bool   // nothing may pile up by itself
	errs   bool
	nloc   int
	nest   int
	shapes map[string]bool
}

func (g *tailgen) pickv(vs ...V) V { return vs[g.c.intn(len(vs))] }

func (g *tailgen) bvar() V {
	if g.lazy {
		return call("force", rsym("#b"))
	}
	return rsym("b")
}

// num is a number from what is in scope.
func (g *tailgen) num(d int) V {
	c := g.c
	if d <= 0 {
		return g.pickv(rsym("n"), rsym("a"), g.bvar(), int64(c.intn(7)), rsym("n"), rsym("a"), rsym("glob"))
	}
	switch c.intn(9) {
	case 0, 1:
		return call(pick(c.Rng, []string{"+", "-"}), g.num(d-1), g.num(d-1))
	case 2:
		return call("emit", g.num(d-1))
	case 3:
		return call("cond", g.test(d-1), g.num(d-1), g.num(d-1))
	case 4:
		return call("let", farr(g.pickv(rsym("a"), rsym("x")), g.num(d-1)), g.num(d-1))
	case 5:
		return flist(call("fn", farr(g.pickv(rsym("a"), rsym("y"))), g.num(d-1)), g.num(d-1))
	case 6:
		if g.rest {
			return call("len", call("list", rsym("r")))
		}
	case 7:
		return call("mod", g.num(d-1), int64(2+c.intn(5)))
	}
	return g.num(0)
}

func (g *tailgen) test(d int) V {
	c := g.c
	switch c.intn(6) {
	case 0:
		return pick(c.Rng, []V{true, false, int64(0), int64(1), nil2})
	case 1:
		return call("<", g.num(d-1), g.num(d-1))
	case 2:
		return call("begin", call("emit", "t", rsym("n")), call("==", call("mod", rsym("n"), int64(2)), int64(0)))
	case 3:
		return call("not", g.test(d-1))
	}
	return call("==", call("mod", rsym("n"), int64(2+c.intn(3))), int64(c.intn(2)))
}

var nil2 = V(rnil{})

// getter is a closure over what is in scope.
func (g *tailgen) getter() V {
	c := g.c
	switch c.intn(5) {
	case 0:
		return call("fn", farr(), call("set", g.pickv(rsym("a"), rsym("x")), call("+", rsym("a"), int64(1))), g.num(1))
	case 1:
		return call("fn", farr(), farr(rsym("n"), rsym("a")))
	case 2:
		return call("let", farr(rsym("x"), g.num(1)), call("fn", farr(), call("+", rsym("x"), rsym("n"))))
	}
	return call("fn", farr(), g.num(1))
}

func (g *tailgen) stmt(d int) V {
	c := g.c
	switch c.intn(12) {
	case 0, 1:
		return call("emit", "s", rsym("n"), g.num(1))
	case 2:
		return call("def", g.pickv(rsym("x"), rsym("y")), g.num(1))
	case 3:
		return call("set", g.pickv(rsym("a"), rsym("glob"), rsym("x")), g.num(1))
	case 4, 5:
		if g.flat {
			return call("set", rsym("lastk"), g.getter())
		}
		if g.keepk {
			return call("set", rsym("k"), call("append", rsym("k"), g.getter()))
		}
		return call("set", rsym("kept"), call("append", rsym("kept"), g.getter()))
	case 6:
		i := rsym(fmt.Sprintf("i%d", g.nest))
		g.nest++
		body := []V{rsym("for"), farr(call("def", i, int64(0)), call("<", i, int64(1+c.intn(2))), call("set", i, call("+", i, int64(1))))}
		if c.chance(1, 3) {
			body = append(body, call("cond", g.test(1), flist(rsym("break")), int64(0)))
		}
		body = append(body, call("emit", "f", i))
		return flist(body...)
	case 7:
		return call("let", farr(g.pickv(rsym("a"), rsym("x"), rsym("n")), g.num(1)), call("emit", "l", g.num(1)))
	case 8:
		return call("def", rsym("h"), call("fn", farr(rsym("n")), call("+", rsym("n"), rsym("a"))))
	case 9:
		if !g.flat && d > 0 {
			// a call of itself that is not in tail position
			g.shapes["nontail"] = true
			s := g.selfCall()
			return call("cond", call("and", call("==", call("mod", rsym("n"), int64(5)), int64(2)), call("<", rsym("n"), int64(13))), call("emit", "nt", s), int64(0))
		}
	case 10:
		if g.errs {
			return call("cond", call("==", rsym("n"), int64(c.intn(4))), call("boom", int64(c.intn(3))), int64(0))
		}
	case 11:
		return call("newScope", call("def", g.pickv(rsym("a"), rsym("x")), g.num(1)), call("emit", "n", g.num(0)))
	}
	return call("emit", "p", g.num(1))
}

func (g *tailgen) stmts(d int) (out []V) {
	for k := g.c.intn(3); k > 0; k-- {
		out = append(out, g.stmt(d))
	}
	return out
}

func (g *tailgen) selfCall() V {
	c := g.c
	dec := V(call("-", rsym("n"), int64(1)))
	if c.chance(1, 8) && !g.flat {
		dec = call("-", rsym("n"), int64(2))
	}
	if c.chance(1, 6) {
		dec = call("begin", call("emit", "d", g.num(0)), dec)
	}
	a, b := g.num(1), g.num(1)
	switch c.intn(5) {
	case 0:
		a, b = rsym("b"), rsym("a")
		if g.lazy {
			a = g.bvar()
		}
	case 1:
		a = call("+", rsym("a"), int64(1))
	}
	if g.flat {
		// numbers must not grow into arithmetic that differs
		a, b = call("mod", call("+", a, rsym("n")), int64(97)), call("mod", b, int64(89))
	}
	f := []V{rsym(g.self), dec, a, b}
	if g.form == 6 && c.chance(1, 2) {
		// by name, in any order
		g.shapes["named_arguments"] = true
		f = []V{rsym(g.self)}
		vals, names := []V{dec, a, b}, g.typedNames()
		for _, i := range c.Rng.Perm(3) {
			f = append(f, names[i], vals[i])
		}
	}
	if g.form == 5 {
		f = append(f, rsym(g.self))
	}
	if g.keepk {
		k := V(rsym("k"))
		if c.chance(1, 3) {
			k = call("append", k, g.getter())
		}
		f = append(f, k)
	}
	if g.rest {
		for k := c.intn(3); k > 0; k-- {
			f = append(f, g.num(0))
		}
	}
	if c.chance(1, 20) && g.errs && g.form != 6 {
		f = f[:len(f)-1] // maybe too few
	}
	return flist(f...)
}

// typedNames are the parameters of a func.
func (g *tailgen) typedNames() []V {
	if g.lazy {
		return []V{rlabel("n"), rlabel("a"), rlabel("#b")}
	}
	return []V{rlabel("n"), rlabel("a"), rlabel("b")}
}

func (g *tailgen) cat(head []V, tail V) V {
	return flist(append(append([]V{}, head...), tail)...)
}

// tail is an expression for a tail position.
func (g *tailgen) tail(d int) V {
	c := g.c
	if d <= 0 || c.chance(1, 6) {
		if c.chance(1, 9) {
			return g.num(1)
		}
		return g.selfCall()
	}
	switch k := c.intn(9); k {
	case 0, 1:
		g.shapes["cond"] = true
		f := []V{rsym("cond")}
		for i := 1 + c.intn(3); i > 0; i-- {
			f = append(f, g.test(2), g.tail(d-1))
		}
		return g.cat(f, g.tail(d-1))
	case 2:
		g.shapes["begin"] = true
		return g.cat(append([]V{rsym("begin")}, g.stmts(d)...), g.tail(d-1))
	case 3, 4:
		op := pick(c.Rng, []string{"let", "letseq"})
		g.shapes[op] = true
		b := []V{}
		names := []V{rsym("x"), rsym("a"), rsym("y"), rsym("z")}
		for _, j := range c.Rng.Perm(len(names))[:1+c.intn(2)] {
			b = append(b, names[j], g.num(1))
		}
		return g.cat(append([]V{rsym(op), farr(b...)}, g.stmts(d)...), g.tail(d-1))
	case 5:
		g.shapes["newScope"] = true
		return g.cat(append([]V{rsym("newScope")}, g.stmts(d)...), g.tail(d-1))
	case 6:
		op := pick(c.Rng, []string{"and", "or"})
		g.shapes[op] = true
		f := []V{rsym(op)}
		for i := c.intn(3); i > 0; i-- {
			t := V(op == "and")
			if c.chance(1, 3) {
				t = g.test(1)
			} else if c.chance(1, 2) {
				t = call("begin", call("emit", "ao"), t)
			}
			f = append(f, t)
		}
		return g.cat(f, g.tail(d-1))
	case 7:
		g.shapes["return"] = true
		return call("return", g.tail(d-1))
	case 8:
		if !g.flat && c.chance(1, 2) {
			// only where few calls are left, since each may make several
			return call("cond", call("and", call("<", rsym("n"), int64(7)), call("!=", call("mod", rsym("n"), int64(3)), int64(0))), g.operand(d-1), g.tail(d-1))
		}
	}
	return g.selfCall()
}

// operand is a form in a tail position that calls the function itself where
// it still has something to do afterwards.
func (g *tailgen) operand(d int) V {
	g.shapes["operand"] = true
	c := g.c
	s := g.selfCall()
	x := g.num(1)
	switch c.intn(16) {
	case 0:
		return farr(x, s)
	case 1:
		return farr(farr(s), x)
	case 2:
		return call("hash", rlabel("q"), s)
	case 3:
		return call("list", s, x)
	case 4:
		return call("cond", call("==", int64(1), call("len", farr(s))), farr(x, s), s)
	case 5:
		return call("cond", s, g.num(0), g.num(0))
	case 6:
		return call("let", farr(rsym("x"), s), farr(rsym("x"), rsym("a")))
	case 7:
		return call("letseq", farr(rsym("x"), s, rsym("y"), g.num(0)), rsym("x"))
	case 8:
		return call("and", s, g.num(0))
	case 9:
		return call("or", call("not", s), g.num(0), s)
	case 10:
		return call("begin", s, g.num(0))
	case 11:
		return call("newScope", call("emit", "o", s), call("emit", "q", rsym("n")))
	case 12:
		return call("def", rsym("zz"), s)
	case 13:
		return call("not", s)
	case 14:
		return flist(call("fn", farr(rsym("w")), farr(rsym("w"), rsym("a"))), s)
	}
	return call("newScope", call("def", rsym("zz"), s), farr(rsym("zz"), rsym("n")))
}

func (g *tailgen) params() V {
	b := rsym("b")
	if g.lazy {
		b = rsym("#b")
	}
	p := []V{rsym("n"), rsym("a"), b}
	if g.form == 5 {
		p = append(p, rsym("self"))
	}
	if g.keepk {
		p = append(p, rsym("k"))
	}
	if g.rest {
		p = append(p, rsym("&"), rsym("r"))
	}
	return farr(p...)
}

// callOf calls the function from outside.
func (g *tailgen) callOf(n int64) V {
	f := []V{rsym("f"), n, int64(g.c.intn(9)), int64(g.c.intn(9))}
	switch g.form {
	case 5:
		f = append(f, rsym("f"))
	}
	if g.keepk {
		f = append(f, farr())
	}
	if g.rest {
		for k := g.c.intn(3); k > 0; k-- {
			f = append(f, int64(k))
		}
	}
	switch g.c.intn(5) {
	case 0:
		if !g.lazy {
			return call("apply", rsym("f"), append([]V{}, flist(append([]V{rsym("list")}, f[1:]...)...))[0])
		}
	case 1:
		return call("let", farr(rsym("n"), int64(-5), rsym("a"), int64(-6)), flist(f...))
	case 2:
		return flist(call("fn", farr(rsym("g")), flist(append([]V{rsym("g")}, f[1:]...)...)), rsym("f"))
	}
	return flist(f...)
}

// define gives the forms that define f, with base as its result at the end.
func (g *tailgen) define(depth int, base V) []V {
	c := g.c
	g.self = "f"
	switch g.form {
	case 4:
		g.self = "g"
	case 5:
		g.self = "self"
	}
	body := g.stmts(2)
	body = append(body, call("cond", call("<=", rsym("n"), int64(0)), base, g.tail(depth)))
	if c.chance(1, 5) {
		// the last form of the body is some other tail position
		body = []V{g.cat([]V{rsym(pick(c.Rng, []string{"begin", "newScope"}))}, body[len(body)-1])}
	}
	lambda := flist(append([]V{rsym("fn"), g.params()}, body...)...)
	defn := flist(append([]V{rsym("defn"), rsym("f"), g.params()}, body...)...)
	pre := []V{call("def", rsym("kept"), farr()), call("def", rsym("glob"), int64(3)), call("def", rsym("lastk"), int64(0)), call("def", rsym("x"), int64(100))}
	switch g.form {
	case 6:
		var in []V
		for _, nm := range g.typedNames() {
			in = append(in, nm, rsym("int64"))
		}
		return append(pre, flist(append([]V{rsym("func"), rsym("f"), farr(in...), farr(rlabel("r"), rsym("int64"))}, body...)...))
	case 1:
		return append(pre, call("def", rsym("f"), lambda))
	case 2:
		return append(pre, call("defn", rsym("outer"), farr(rsym("x"), rsym("y")), defn, rsym("f")), call("def", rsym("f"), call("outer", int64(7), int64(8))))
	case 3:
		return append(pre, call("def", rsym("f"), call("let", farr(rsym("f"), lambda), rsym("f"))))
	case 4:
		return append(pre, defn, call("def", rsym("g"), rsym("f")))
	}
	return append(pre, defn)
}

func c09Same(c *Ctx) {
	g := &tailgen{c: c, form: c.intn(7), rest: c.chance(1, 4), keepk: c.chance(1, 3), shapes: map[string]bool{}}
	g.lazy = c.chance(1, 8)
	if g.form == 6 {
		g.rest, g.keepk = false, false
	}
	g.errs = c.chance(1, 6)
	base := g.num(1)
	if g.keepk && c.chance(3, 4) {
		base = call("map", flist(rsym("fn"), farr(rsym("h")), flist(rsym("h"))), rsym("k"))
	}
	texts := [][]V{g.define(1+c.intn(4), base)}
	for _, n := range []int64{0, 1, 2, int64(3 + c.intn(3)), int64(7 + c.intn(9))} {
		texts = append(texts, []V{call("emit", "result", g.callOf(n))},
			[]V{call("map", flist(rsym("fn"), farr(rsym("h")), call("emit", flist(rsym("h")))), rsym("kept")), rsym("glob")})
	}
	p := newPair(c)
	for i, t := range texts {
		r := p.step(t, joinSrc(c, t))
		if r.unsure {
			c.Inconclusive(r.ref.tag)
			return
		}
		if r.lib.Kind == "budget" {
			c.Inconclusive("step budget")
			return
		}
		if r.bad != "" {
			reportDiff(c, "differs", texts[:i+1], true, r.bad)
			return
		}
		c.Count("effects_compared", int64(len(p.rec.log)))
		if i == 0 {
			c.Nontrivial(joinSrc(nil, t))
		}
		if r.ref.kind == "error" {
			c.Count("programs_ending_in_error", 1)
			break
		}
		c.Count("recursions_compared", 1)
	}
	for s := range g.shapes {
		c.Count("tail_inside_"+s, 1)
	}
	p.observe()
}

type c09use struct {
	d, s, a, l, frames int
	heap               uint64
}

func c09Space(c *Ctx, idx int) {
	g := &tailgen{c: c, form: c.intn(7), rest: c.chance(1, 4), flat: true, shapes: map[string]bool{}}
	if g.form == 6 {
		g.rest = false
		g.shapes["func"] = true
	}
	forms := g.define(1+c.intn(5), call("begin", call("measure"), rsym("a")))
	src := joinSrc(nil, forms)
	env := newCore()
	if g.form == 6 {
		env = newFull()
	}
	var rec recorder
	installEffects(env, &rec)
	var heap uint64
	env.AddFunction("measure", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		var m runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m)
		heap = m.HeapAlloc
		return zygo.SexpNull, nil
	})
	quiet := func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		if len(args) == 0 {
			return zygo.SexpNull, nil
		}
		return args[len(args)-1], nil
	}
	env.AddFunction("emit", quiet)
	if o := evalStr(env, defaultBudget, src); !o.ok() {
		c.Violate("definition-failed", "%s\n%s", src, o)
		return
	}
	depths := []int64{120, 1200}
	switch {
	case c.chance(1, 25):
		depths = []int64{120, 12000}
	}
	if c.chance(1, 200) {
		depths = []int64{120, 100000}
		if c.Tier == "thorough" {
			depths[1] = 400000
		}
	}
	if c.chance(1, 3) {
		// so that no number is odd or even by accident
		depths[1] += int64(c.intn(60))
	}
	var use []c09use
	ends := 0
	for _, n := range depths {
		stepMon.sample, stepMon.frames = true, 113
		stepMon.maxData, stepMon.maxScope, stepMon.maxAddr, stepMon.maxLoop, stepMon.maxFrames = 0, 0, 0, 0, 0
		heap = 0
		call := joinSrc(nil, []V{g.callOf(n)})
		o := evalStr(env, 4000*n, call)
		stepMon.sample, stepMon.frames = false, 0
		c.Eval()
		if o.Kind == "budget" {
			c.Inconclusive("step budget")
			return
		}
		if !o.ok() {
			c.Violate("deep-recursion-failed", "depth %d: %s\n%s\n%s", n, call, o, src)
			return
		}
		if heap != 0 {
			ends++
		}
		use = append(use, c09use{stepMon.maxData, stepMon.maxScope, stepMon.maxAddr, stepMon.maxLoop, stepMon.maxFrames, heap})
		c.Count("steps_watched", stepMon.steps)
		c.Max("deepest_recursion", n)
	}
	c.Count("space_runs", 1)
	if ends < 2 {
		// one of the calls returned on the way
		c.Count("space_runs_cut_short", 1)
	} else {
		c.Nontrivial(src)
		for s := range g.shapes {
			c.Count("space_inside_"+s, 1)
		}
	}
	// Paths depend on n modulo small numbers and on a and b; the shallow run
	// may have missed the deepest one, by the nesting of the body at most.
	slack := 24
	u, v := use[0], use[1]
	for _, m := range []struct {
		what string
		a, b int
	}{{"data stack", u.d, v.d}, {"scope stack", u.s, v.s}, {"address stack", u.a, v.a}, {"loop stack", u.l, v.l}, {"Go stack frames", u.frames, v.frames}} {
		sl := slack
		if m.what == "Go stack frames" {
			sl = 150
		}
		c.Max("max "+m.what, int64(m.b))
		if m.b > m.a+sl {
			c.Violate("space-grows", "%s: %d entries at depth %d, %d at depth %d\n%s", m.what, m.a, depths[0], m.b, depths[1], src)
			return
		}
	}
	if u.heap != 0 && v.heap != 0 && depths[1] >= 1200 {
		grown := int64(math.Max(0, float64(v.heap)-float64(u.heap)))
		c.Count("heap_comparisons", 1)
		if depths[1] >= 12000 && grown > depths[1]*24+100000 {
			c.Violate("heap-grows", "live heap at the end of the recursion: %d bytes at depth %d, %d at depth %d\n%s", u.heap, depths[0], v.heap, depths[1], src)
		}
		if depths[1] >= 12000 {
			c.Max("heap_growth_per_level", grown/depths[1])
			c.Count("deep_heap_comparisons", 1)
		}
	}
}

func c09Case(c *Ctx, idx int) {
	if c.chance(1, 4) {
		c09Space(c, idx)
		return
	}
	c09Same(c)
}

func init() {
	register(&Prop{
		ID:   "C09",
		Rule: "self-recursive functions (by defn, def of a fn, local, let-bound, through an alias or a parameter; with rest and lazy parameters) whose recursive calls sit in random nestings of cond, begin, let, letseq, newScope, and, or, return: at depths 0 to 16 value, effects and the closures of every iteration are compared with the reference evaluator; to depths 1200 to 100000 the high-water marks of the four VM stacks, of the Go stack and the live heap are compared with those at depth 120",
		Assumptions: []string{
			"programs of the space family do not themselves accumulate anything that grows with the depth",
		},
		N:           func(t string) int { return tierN(t, 16000, 200000) },
		Run:         c09Case,
		MinDistinct: func(t string) int { return 6000 },
	})
}
