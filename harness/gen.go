package main

// Type-directed generator of programs in the core language. It aims at
// programs that mostly run to the end, with few names (so that shadowing is
// the rule), effects at every depth, closures stored, passed and returned,
// and now and then an error planted somewhere.

import (
	"fmt"
)

type gtype struct {
	k        byte // i b s A L H F  P(array of F)  N(nothing known)
	args     []*gtype
	ret      *gtype
	variadic bool
	lazy     []bool
	small    bool // first argument counts a recursion: give it a small number
}

var (
	tI = &gtype{k: 'i'}
	tB = &gtype{k: 'b'}
	tS = &gtype{k: 's'}
	tA = &gtype{k: 'A'}
	tL = &gtype{k: 'L'}
	tH = &gtype{k: 'H'}
	tF = &gtype{k: 'f'} // float
	tV = &gtype{k: 'V'} // any data
)

func (t *gtype) same(u *gtype) bool {
	if t == u {
		return true
	}
	if t.k != u.k || t.variadic != u.variadic || t.small != u.small || len(t.args) != len(u.args) {
		return false
	}
	if t.k != 'F' && t.k != 'P' {
		return true
	}
	for i := range t.args {
		if !t.args[i].same(u.args[i]) {
			return false
		}
	}
	return t.ret == u.ret || t.ret != nil && u.ret != nil && t.ret.same(u.ret)
}

type gvar struct {
	name  string
	t     *gtype
	konst bool // never set: loop counters, recursion arguments
	lazy  bool // holds a promise of t
}

type gprofile struct {
	errs     int // planted errors per 1000 expressions
	lazies   bool
	closures bool // favour closures
	loops    bool
	ops      bool // full set of data operations
	maxDepth int
	full     bool // full set-up: ++ and friends
	names    int  // how many names to use
}

type gen struct {
	c      *Ctx
	p      gprofile
	scopes [][]gvar
	nboom  int
	nloop  int
	size   int
	limit  int
	fnest  int
	lnest  int
	// onExpr sees every form that was generated to be evaluated.
	onExpr func(v V)
}

// gctx is what surrounds an expression.
type gctx struct{ loops []string }

var gnames = []string{"a", "b", "c", "d", "x", "y", "z", "f", "g", "h"}

func (g *gen) name() string {
	if n := g.p.names; n > 0 {
		// a few data names and a few function names
		return gnames[(g.c.intn(n)*3)%len(gnames)]
	}
	return pick(g.c.Rng, gnames)
}

func newGen(c *Ctx, p gprofile, limit int) *gen {
	g := &gen{c: c, p: p, limit: limit}
	g.push()
	return g
}

func (g *gen) push() { g.scopes = append(g.scopes, nil) }
func (g *gen) pop()  { g.scopes = g.scopes[:len(g.scopes)-1] }
func (g *gen) bind(v gvar) {
	i := len(g.scopes) - 1
	for j := range g.scopes[i] {
		if g.scopes[i][j].name == v.name {
			g.scopes[i][j] = v
			return
		}
	}
	g.scopes[i] = append(g.scopes[i], v)
}

// visible lists the variables a name denotes here.
func (g *gen) visible(ok func(v gvar) bool) []gvar {
	seen := map[string]bool{}
	var out []gvar
	for i := len(g.scopes) - 1; i >= 0; i-- {
		for j := len(g.scopes[i]) - 1; j >= 0; j-- {
			v := g.scopes[i][j]
			if seen[v.name] {
				continue
			}
			seen[v.name] = true
			if ok(v) {
				out = append(out, v)
			}
		}
	}
	return out
}

func (g *gen) ofType(t *gtype) []gvar {
	return g.visible(func(v gvar) bool { return v.t.same(t) && !v.lazy })
}

// few is mostly below k, and now and then well above it.
func (g *gen) few(k int) int {
	if g.chance(1, 14) {
		return k + g.c.intn(6)
	}
	return g.c.intn(k)
}

func (g *gen) chance(a, b int) bool { return g.c.chance(a, b) }

// full says that the expression should stay small from here on.
func (g *gen) full(d int) bool { return d <= 0 || g.size > g.limit }

func call(op string, args ...V) V { return flist(append([]V{rsym(op)}, args...)...) }

// freshName picks a name that may be defined with type t in this scope.
func (g *gen) freshName(t *gtype) string {
	for try := 0; try < 20; try++ {
		n := g.name()
		ok := true
		for _, v := range g.scopes[len(g.scopes)-1] {
			if v.name == n && (!v.t.same(t) || v.konst || v.lazy) {
				ok = false
			}
		}
		if ok {
			return n
		}
	}
	return fmt.Sprintf("v%d", g.c.intn(1000))
}

func (g *gen) boom() V {
	g.nboom++
	return call("boom", int64(g.nboom))
}

// planted gives an expression that fails.
func (g *gen) planted(t *gtype, d int, x gctx) V {
	switch g.c.intn(22) {
	case 0, 1, 2, 3:
		return g.boom()
	case 14:
		return call("cond", g.expr(tB, d-1, gctx{}), g.expr(tI, d-1, gctx{}))
	case 15:
		return pick(g.c.Rng, []V{call("break"), call("continue", rlabel("nolabel"))})
	case 16:
		return pick(g.c.Rng, []V{call("and"), call("or"), call("quote"), call("let", farr(rsym("a")), int64(1)),
			call("fn", farr()), call("fn", int64(1), int64(2)), call("for", farr(int64(1), int64(2))), call("let", farr(rsym("a"), int64(1))),
			call("def", rsym("a")), call("def", int64(3), int64(4)), call("mdef", rsym("a"), rsym("b"), call("list", int64(1)))})
	case 17:
		return call("+", g.expr(tI, d-1, gctx{}), g.expr(tS, d-1, gctx{}))
	case 18:
		return call("eval", flist(rsym("quote"), g.boom()))
	case 19:
		return call("apply", g.expr(tI, d-1, gctx{}), farr())
	case 20:
		return flist(flist(rsym("fn"), farr(rsym("x")), rsym("x")), g.boom())
	case 21:
		return call("apply", flist(rsym("fn"), farr(rsym("x"), rsym("&"), rsym("y")), rsym("x")), farr())
	case 4:
		return rsym("undefinedName")
	case 5:
		return call("aget", farr(g.expr(tI, d-1, gctx{})), int64(7))
	case 6:
		return call("/", g.expr(tI, d-1, gctx{}), int64(0))
	case 7:
		return call("first", farr())
	case 8:
		return call("hget", call("hash", rlabel("k"), int64(1)), rlabel("nokey"))
	case 9:
		return flist(int64(5), g.expr(tI, d-1, gctx{}))
	case 10:
		return flist(call("fn", farr(rsym("a"), rsym("b")), rsym("a")), g.expr(tI, d-1, gctx{}))
	case 11:
		return call("assert", false)
	case 12:
		return call("map", call("fn", farr(rsym("x")), call("cond", call("==", rsym("x"), int64(2)), g.boom(), rsym("x"))), farr(int64(1), int64(2), int64(3)))
	}
	return call("begin", g.expr(tI, d-1, x), g.boom(), g.expr(tI, d-1, x))
}

// expr generates an expression of a type.
func (g *gen) expr(t *gtype, d int, x gctx) V {
	v := g.exprOf(t, d, x)
	if g.onExpr != nil {
		g.onExpr(v)
	}
	return v
}

func (g *gen) exprOf(t *gtype, d int, x gctx) V {
	g.size++
	if g.p.errs > 0 && g.c.intn(1000) < g.p.errs {
		return g.planted(t, min(d, 2), x)
	}
	if !g.full(d) {
		// forms any type can have
		switch g.c.intn(26) {
		case 0:
			return g.condExpr(t, d, x)
		case 1:
			return g.scopeExpr(t, d, x)
		case 2:
			g.push()
			b := g.body(t, d-1, x)
			g.pop()
			return flist(append([]V{rsym("begin")}, b...)...)
		case 3:
			if e := g.callExpr(t, d); e != nil {
				return e
			}
		case 4:
			if e := g.callExpr(t, d); e != nil {
				return e
			}
		case 5:
			// an expression that is immediately called
			if g.fnest < 3 {
				ft := g.fnType(t)
				return g.callOf(ft, g.fnLit(ft, d-2), d-1)
			}
		case 6:
			return call("emit", int64(g.c.intn(100)), g.expr(t, d-1, gctx{}))
		case 7:
			if vs := g.ofType(t); len(vs) > 0 {
				v := pick(g.c.Rng, vs)
				if !v.konst && (t.k != 'F' || !t.small) {
					return call("set", rsym(v.name), g.expr(t, d-1, x))
				}
			}
		case 8:
			n := g.freshName(t)
			e := g.expr(t, d-1, x)
			if t.k != 'F' || !t.small {
				// in effect only once evaluated, so not recorded as bound
				return call("let", farr(rsym(n), e), call("emit", rsym(n)), rsym(n))
			}
		case 9:
			return call("eval", flist(rsym("quote"), g.quotable(t, d-1)))
		case 10:
			if g.p.lazies && len(x.loops) == 0 {
				return call("force", g.expr(t, d-1, gctx{}))
			}
		}
	}
	vs := g.visible(func(v gvar) bool { return v.t.same(t) })
	if len(vs) > 0 && g.chance(3, 5) {
		v := pick(g.c.Rng, vs)
		if v.lazy {
			return call("force", rsym(v.name))
		}
		return rsym(v.name)
	}
	switch t.k {
	case 'i':
		return g.intExpr(d, x)
	case 'b':
		return g.boolExpr(d, x)
	case 's':
		return g.strExpr(d, x)
	case 'A':
		return g.arrExpr(d, x)
	case 'L':
		return g.listExpr(d, x)
	case 'H':
		return g.hashExpr(d, x)
	case 'f':
		if g.full(d) || g.chance(1, 2) {
			return pick(g.c.Rng, []float64{0.5, 1.25, -3.75, 1e10, 0})
		}
		a, b := g.expr(tF, d-1, gctx{}), g.expr(pick(g.c.Rng, []*gtype{tF, tI}), d-1, gctx{})
		if g.chance(1, 3) {
			a, b = b, a
		}
		op := pick(g.c.Rng, []string{"+", "-", "*"})
		if op == "*" && g.chance(1, 2) {
			return call("/", int64(1+g.c.intn(5)), 8.0)
		}
		if t := call(op, a, b); g.chance(1, 2) {
			return t
		}
		return call("+", 0.5, call(op, a, b))
	case 'V':
		return g.dataExpr(d, x)
	case 'F':
		if !g.full(d) && g.chance(1, 6) {
			return g.makerCall(t, d)
		}
		return g.fnLit(t, d-1)
	case 'P':
		n := g.few(3) + 1
		var es []V
		for i := 0; i < n; i++ {
			es = append(es, g.expr(t.ret, d-1, x))
		}
		return farr(es...)
	}
	panic("expr")
}

// quotable generates an expression to be quoted and evaluated.
func (g *gen) quotable(t *gtype, d int) V { return g.expr(t, d, gctx{}) }

func (g *gen) condExpr(t *gtype, d int, x gctx) V {
	n := 1 + g.few(2)
	args := []V{rsym("cond")}
	for i := 0; i < n; i++ {
		args = append(args, g.test(d-1, x), g.arm(t, d-1, x))
	}
	args = append(args, g.arm(t, d-1, x))
	return flist(args...)
}

// arm may leave the loop instead of giving a value.
func (g *gen) arm(t *gtype, d int, x gctx) V {
	if len(x.loops) > 0 && g.chance(1, 8) {
		return g.exit(x)
	}
	return g.expr(t, d, x)
}

func (g *gen) exit(x gctx) V {
	op := pick(g.c.Rng, []string{"break", "continue"})
	if g.chance(1, 2) {
		var labels []string
		for _, l := range x.loops {
			if l != "" {
				labels = append(labels, l)
			}
		}
		if len(labels) > 0 {
			return call(op, rlabel(pick(g.c.Rng, labels)))
		}
	}
	return call(op)
}

// test is anything with a truth value.
func (g *gen) test(d int, x gctx) V {
	switch g.c.intn(8) {
	case 0:
		return g.expr(tI, d, x)
	case 1:
		return pick(g.c.Rng, []V{nilv, int64(0), int64(1), true, false, "", farr(), 0.0})
	}
	return g.expr(tB, d, x)
}

// scopeExpr: let, letseq, newScope.
func (g *gen) scopeExpr(t *gtype, d int, x gctx) V {
	op := pick(g.c.Rng, []string{"let", "letseq", "newScope"})
	g.push()
	defer g.pop()
	if op == "newScope" {
		return flist(append([]V{rsym(op)}, g.body(t, d-1, x)...)...)
	}
	var b []V
	var vars []gvar
	used := map[string]bool{}
	for i, n := 0, 1+g.few(3); i < n; i++ {
		vt := g.someType(d)
		name := g.name()
		if used[name] {
			continue
		}
		used[name] = true
		e := g.expr(vt, d-1, x)
		b = append(b, rsym(name), e)
		v := gvar{name: name, t: vt}
		if op == "letseq" {
			g.bind(v)
		}
		vars = append(vars, v)
	}
	for _, v := range vars {
		g.bind(v)
	}
	return flist(append([]V{rsym(op), farr(b...)}, g.body(t, d-1, x)...)...)
}

// someType picks a type for a variable.
func (g *gen) someType(d int) *gtype {
	if (g.p.closures && g.chance(2, 5) || g.chance(1, 6)) && d > 0 {
		return g.simpleFn()
	}
	switch g.c.intn(11) {
	case 0, 1, 2, 3:
		return tI
	case 9:
		return tF
	case 10:
		return tV
	case 4:
		return tB
	case 5:
		return tS
	case 6:
		return tA
	case 7:
		return tL
	}
	return tH
}

// a few function types only, so that values of them meet
var simpleFns = []*gtype{
	{k: 'F', ret: tI},
	{k: 'F', args: []*gtype{tI}, ret: tI},
	{k: 'F', args: []*gtype{tI, tI}, ret: tI},
	{k: 'F', args: []*gtype{tI}, ret: tI, variadic: true},
	{k: 'F', args: []*gtype{tI, tL}, ret: tI},
}
var hofs = []*gtype{
	{k: 'F', args: []*gtype{simpleFns[1], tI}, ret: tI},
	{k: 'F', args: []*gtype{tI}, ret: simpleFns[0]},
	{k: 'F', args: []*gtype{simpleFns[0]}, ret: simpleFns[1]},
}
var fnArrays = []*gtype{{k: 'P', ret: simpleFns[0]}, {k: 'P', ret: simpleFns[1]}}

func (g *gen) simpleFn() *gtype {
	if g.p.closures && g.chance(1, 3) {
		if g.chance(1, 2) {
			return pick(g.c.Rng, hofs)
		}
		return pick(g.c.Rng, fnArrays)
	}
	return pick(g.c.Rng, simpleFns)
}

// fnType makes a function type that returns t.
func (g *gen) fnType(t *gtype) *gtype {
	ft := &gtype{k: 'F', ret: t}
	for i, n := 0, g.few(4); i < n; i++ {
		ft.args = append(ft.args, pick(g.c.Rng, []*gtype{tI, tI, tB, tS, tA}))
	}
	if g.chance(1, 5) {
		ft.variadic = true
	}
	return ft
}

// params binds the parameters of a function literal in a new scope.
func (g *gen) params(ft *gtype) *rarr {
	used := map[string]bool{}
	var ps []V
	name := func() string {
		for try := 0; ; try++ {
			n := g.name()
			if try > 10 {
				n = fmt.Sprintf("p%d", try)
			}
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	for i, a := range ft.args {
		n := name()
		v := gvar{name: n, t: a}
		if g.p.lazies && !ft.small && (i < len(ft.lazy) && ft.lazy[i] || ft.lazy == nil && g.chance(1, 2)) {
			v.name = "#" + n
			v.lazy = true
		}
		if i == 0 && ft.small {
			v.konst = true
		}
		g.bind(v)
		ps = append(ps, rsym(v.name))
	}
	if ft.variadic {
		n := name()
		g.bind(gvar{name: n, t: tL})
		ps = append(ps, rsym("&"), rsym(n))
	}
	return &rarr{ps}
}

func (g *gen) fnLit(ft *gtype, d int) V {
	g.fnest++
	g.push()
	ps := g.params(ft)
	b := g.body(ft.ret, d, gctx{})
	g.pop()
	g.fnest--
	return flist(append([]V{rsym("fn"), ps}, b...)...)
}

// makerCall calls a function that makes a closure over its own locals.
func (g *gen) makerCall(t *gtype, d int) V {
	mt := &gtype{k: 'F', args: []*gtype{tI}, ret: t}
	return g.callOf(mt, g.fnLit(mt, d-1), d-1)
}

// callExpr calls a visible function that returns t, in some way.
func (g *gen) callExpr(t *gtype, d int) V {
	fs := g.visible(func(v gvar) bool { return v.t.k == 'F' && v.t.ret.same(t) })
	ps := g.visible(func(v gvar) bool { return v.t.k == 'P' && v.t.ret.ret.same(t) })
	if len(ps) > 0 && g.chance(1, 3) {
		v := pick(g.c.Rng, ps)
		var fa V = rsym(v.name)
		if v.lazy {
			fa = call("force", fa)
		}
		return g.callOf(v.t.ret, call("aget", fa, int64(g.c.intn(2))), d-1)
	}
	if len(fs) == 0 {
		return nil
	}
	v := pick(g.c.Rng, fs)
	var f V = rsym(v.name)
	if v.lazy {
		f = call("force", f)
	} else if !v.t.small {
		switch g.c.intn(9) {
		case 0:
			f = call("begin", call("emit", "callee"), f)
		case 1:
			var other V = f
			if o := g.ofType(v.t); len(o) > 0 {
				other = rsym(pick(g.c.Rng, o).name)
			}
			f = call("cond", g.test(d-2, gctx{}), f, other)
		case 2:
			f = call("aget", farr(f), int64(0))
		case 3:
			f = call("hget", call("hash", rlabel("k"), f), rlabel("k"))
		case 4:
			// through an alias
			n := g.freshName(v.t)
			g.push()
			g.bind(gvar{name: n, t: v.t})
			e := g.callOf(v.t, rsym(n), d-1)
			g.pop()
			return call("let", farr(rsym(n), f), e)
		case 5:
			// through a parameter
			n := g.name()
			g.push()
			g.bind(gvar{name: n, t: v.t})
			e := g.callOf(v.t, rsym(n), d-1)
			g.pop()
			return flist(call("fn", farr(rsym(n)), e), f)
		}
	}
	return g.callOf(v.t, f, d)
}

// callOf generates a call of f, whose type is ft.
func (g *gen) callOf(ft *gtype, f V, d int) V {
	var args []V
	for i, a := range ft.args {
		if i == 0 && ft.small {
			args = append(args, int64(g.c.intn(5)))
			continue
		}
		args = append(args, g.expr(a, d-1, gctx{}))
	}
	if ft.variadic {
		for i, n := 0, g.few(3); i < n; i++ {
			args = append(args, g.expr(tI, d-1, gctx{}))
		}
	}
	if g.chance(1, 10) && len(args) > 0 {
		if g.chance(1, 2) {
			return call("apply", f, farr(args...))
		}
		return call("apply", f, call("list", args...))
	}
	return flist(append([]V{f}, args...)...)
}

func (g *gen) intLit() V {
	switch g.c.intn(12) {
	case 0:
		return int64(-g.c.intn(20))
	case 1:
		return int64(9223372036854775807)
	case 2:
		return int64(g.c.Rng.Uint64())
	}
	return int64(g.c.intn(20))
}

func (g *gen) intExpr(d int, x gctx) V {
	if g.full(d) {
		return g.intLit()
	}
	switch g.c.intn(16) {
	case 0, 1:
		op := pick(g.c.Rng, []string{"+", "-", "*"})
		n := 2 + g.few(2)
		args := []V{rsym(op)}
		for i := 0; i < n; i++ {
			args = append(args, g.expr(tI, d-1, gctx{}))
		}
		return flist(args...)
	case 2:
		return call("mod", g.expr(tI, d-1, gctx{}), int64(1+g.c.intn(9)))
	case 3:
		return call("len", g.expr(pick(g.c.Rng, []*gtype{tA, tL, tS, tH}), d-1, gctx{}))
	case 4:
		if g.chance(1, 8) {
			return call("aget", g.expr(tA, d-1, gctx{}), g.index(d))
		}
		return call("aget", call("concat", farr(g.intLit(), g.expr(tI, d-1, gctx{})), g.expr(tA, d-1, gctx{})), g.index(0))
	case 5:
		if g.chance(1, 8) {
			return call("first", g.expr(pick(g.c.Rng, []*gtype{tA, tL}), d-1, gctx{}))
		}
		return call("first", call("cons", g.expr(tI, d-1, gctx{}), g.expr(tL, d-1, gctx{})))
	case 6:
		return call("hget", g.expr(tH, d-1, gctx{}), g.key(), g.expr(tI, d-1, gctx{}))
	case 7:
		return call(pick(g.c.Rng, []string{"and", "or"}), g.expr(tI, d-1, x), g.arm(tI, d-1, x))
	case 8:
		return call("emit", g.expr(tI, d-1, gctx{}))
	case 9:
		return call("return", g.expr(tI, d-1, x))
	case 10:
		return call("aget", g.expr(tA, d-1, gctx{}), int64(g.c.intn(6)), g.expr(tI, d-1, gctx{}))
	case 11:
		if vs := g.ofType(tI); len(vs) > 0 && g.p.full {
			v := pick(g.c.Rng, vs)
			if !v.konst {
				if g.chance(1, 2) {
					return call(pick(g.c.Rng, []string{"++", "--"}), rsym(v.name))
				}
				return call(pick(g.c.Rng, []string{"+=", "-="}), rsym(v.name), g.expr(tI, d-1, gctx{}))
			}
		}
	case 12:
		// count with a function called by map
		n := g.name()
		g.push()
		g.bind(gvar{name: n, t: tI})
		e := g.expr(tI, d-2, gctx{})
		g.pop()
		return call("len", call("map", call("fn", farr(rsym(n)), e), g.expr(tA, d-2, gctx{})))
	}
	return g.intLit()
}

func (g *gen) index(d int) V {
	if g.chance(1, 6) {
		return g.expr(tI, d-1, gctx{})
	}
	return int64(g.c.intn(2))
}

func (g *gen) key() V { return rlabel(pick(g.c.Rng, []string{"k", "l", "m"})) }

func (g *gen) boolExpr(d int, x gctx) V {
	if g.full(d) {
		return g.chance(1, 2)
	}
	switch g.c.intn(10) {
	case 8:
		op := pick(g.c.Rng, []string{"<", "==", "==", "!=", ">="})
		switch g.c.intn(4) {
		case 0, 1:
			return call(op, rnil{}, g.expr(g.someType(d-1), d-1, gctx{}))
		case 2:
			return call(op, farr(rnil{}, int64(1)), g.expr(tA, d-1, gctx{}))
		}
		t := pick(g.c.Rng, []*gtype{tB, tS, tA, tI})
		return call(pick(g.c.Rng, []string{"==", "!="}), g.expr(t, d-1, gctx{}), g.expr(t, d-1, gctx{}))
	case 0, 1, 2:
		op := pick(g.c.Rng, []string{"<", ">", "<=", ">=", "==", "!="})
		return call(op, g.expr(tI, d-1, gctx{}), g.expr(tI, d-1, gctx{}))
	case 3:
		return call("not", g.test(d-1, gctx{}))
	case 4:
		args := []V{rsym(pick(g.c.Rng, []string{"and", "or"}))}
		for i, n := 0, 1+g.few(3); i < n; i++ {
			args = append(args, g.expr(tB, d-1, x))
		}
		return flist(args...)
	case 5:
		return call("==", g.expr(tS, d-1, gctx{}), g.expr(tS, d-1, gctx{}))
	case 6:
		return call("empty?", g.expr(pick(g.c.Rng, []*gtype{tA, tL, tH}), d-1, gctx{}))
	case 7:
		p := pick(g.c.Rng, []string{"null?", "list?", "array?", "hash?", "int?", "string?", "func?", "zero?", "number?", "symbol?", "float?"})
		return call(p, g.expr(g.someType(d-1), d-1, gctx{}))
	}
	return g.chance(1, 2)
}

var gwords = []string{"", "a", "bc", "xyz", "hello", "\u00e9", "a b"}

func (g *gen) strExpr(d int, x gctx) V {
	if g.full(d) {
		return pick(g.c.Rng, gwords)
	}
	switch g.c.intn(6) {
	case 0:
		return call("concat", g.expr(tS, d-1, gctx{}), g.expr(tS, d-1, gctx{}))
	case 1:
		return call("append", g.expr(tS, d-1, gctx{}), g.expr(tS, d-1, gctx{}))
	case 2:
		return call("str", g.expr(pick(g.c.Rng, []*gtype{tI, tB, tA, tL}), d-1, gctx{}))
	case 3:
		return call("type?", g.expr(g.someType(d-1), d-1, gctx{}))
	}
	return pick(g.c.Rng, gwords)
}

func (g *gen) arrExpr(d int, x gctx) V {
	if !g.full(d) {
		switch g.c.intn(10) {
		case 0:
			return call("append", g.expr(tA, d-1, gctx{}), g.expr(tI, d-1, gctx{}))
		case 1:
			return call("concat", g.expr(tA, d-1, gctx{}), g.expr(tA, d-1, gctx{}))
		case 2:
			return call("rest", g.expr(tA, d-1, gctx{}))
		case 3:
			n := g.name()
			g.push()
			g.bind(gvar{name: n, t: tI})
			e := g.expr(tI, d-1, gctx{})
			g.pop()
			return call("map", call("fn", farr(rsym(n)), e), g.expr(tA, d-1, gctx{}))
		case 4:
			if fs := g.ofType(simpleFns[1]); len(fs) > 0 {
				return call("map", rsym(pick(g.c.Rng, fs).name), g.expr(tA, d-1, gctx{}))
			}
		case 5:
			return call("array", g.expr(tI, d-1, gctx{}), g.expr(tI, d-1, gctx{}))
		case 6:
			return call("slice", farr(g.expr(tI, d-1, x), g.expr(tI, d-1, x), g.expr(tI, d-1, x)), int64(g.c.intn(2)), int64(2+g.c.intn(2)))
		}
	}
	n := g.few(4)
	var es []V
	for i := 0; i < n; i++ {
		es = append(es, g.expr(tI, d-1, x))
	}
	return farr(es...)
}

func (g *gen) listExpr(d int, x gctx) V {
	if !g.full(d) {
		switch g.c.intn(8) {
		case 0:
			return call("cons", g.expr(tI, d-1, gctx{}), g.expr(tL, d-1, gctx{}))
		case 1:
			return call("rest", g.expr(tL, d-1, gctx{}))
		case 2:
			return call("concat", call("list", int64(1)), g.expr(tL, d-1, gctx{}))
		case 3:
			if fs := g.ofType(simpleFns[1]); len(fs) > 0 {
				return call("map", rsym(pick(g.c.Rng, fs).name), call("list", g.expr(tI, d-1, gctx{}), g.expr(tI, d-1, gctx{})))
			}
		case 4:
			return flist(rsym("quote"), flist(int64(1), rsym("q"), int64(2)))
		}
	}
	n := g.few(4)
	args := []V{rsym("list")}
	for i := 0; i < n; i++ {
		args = append(args, g.expr(tI, d-1, gctx{}))
	}
	return flist(args...)
}

func (g *gen) hashExpr(d int, x gctx) V {
	args := []V{rsym("hash")}
	for i, n := 0, g.few(4); i < n; i++ {
		args = append(args, g.key(), g.expr(tI, d-1, gctx{}))
	}
	return flist(args...)
}

// body is a sequence of forms the last of which has type t.
func (g *gen) body(t *gtype, d int, x gctx) []V {
	var out []V
	if !g.full(d) {
		n := g.few(3)
		for i := 0; i < n; i++ {
			out = append(out, g.stmt(d-1, x))
		}
	}
	return append(out, g.expr(t, d, x))
}

// stmt generates a form for its effect.
func (g *gen) stmt(d int, x gctx) V {
	v := g.stmtOf(d, x)
	if g.onExpr != nil {
		g.onExpr(v)
	}
	return v
}

func (g *gen) stmtOf(d int, x gctx) V {
	g.size++
	if len(x.loops) > 0 && g.chance(1, 8) {
		return call("cond", g.test(d, x), g.exit(x), nilv)
	}
	switch g.c.intn(12) {
	case 0, 1, 2:
		t := g.someType(d)
		n := g.freshName(t)
		e := g.expr(t, d, x)
		g.bind(gvar{name: n, t: t})
		return call("def", rsym(n), e)
	case 3, 4:
		vs := g.visible(func(v gvar) bool { return !v.konst && !v.lazy && !(v.t.k == 'F' && v.t.small) })
		if len(vs) > 0 {
			v := pick(g.c.Rng, vs)
			return call("set", rsym(v.name), g.expr(v.t, d, x))
		}
	case 5:
		if g.fnest < 2 {
			return g.defn(d)
		}
	case 6:
		if g.fnest < 2 {
			return g.recursive(d)
		}
	case 7, 8:
		if g.lnest < 2 && d > 0 && g.size < g.limit {
			return g.loop(d, x)
		}
	case 9:
		switch vs := g.ofType(tA); {
		case len(vs) > 0:
			return call("aset", rsym(pick(g.c.Rng, vs).name), int64(g.c.intn(2)), g.expr(tI, d-1, gctx{}))
		}
	case 10:
		switch vs := g.ofType(tH); {
		case len(vs) > 0:
			h := rsym(pick(g.c.Rng, vs).name)
			if g.chance(1, 4) {
				return call("hdel", h, g.key())
			}
			return call("hset", h, g.key(), g.expr(tI, d-1, gctx{}))
		}
	case 11:
		if g.chance(1, 3) {
			return g.fnLoop(d)
		}
		if g.chance(1, 3) {
			a, b := g.name(), g.name()
			if a != b {
				sc := g.scopes[len(g.scopes)-1]
				for _, v := range sc {
					if (v.name == a || v.name == b) && v.t.k != 'i' || v.konst || v.lazy {
						a = ""
						break
					}
				}
				if a != "" {
					e := call("list", g.expr(tI, d-1, gctx{}), g.expr(tI, d-1, gctx{}))
					g.bind(gvar{name: a, t: tI})
					g.bind(gvar{name: b, t: tI})
					return call("mdef", rsym(a), rsym(b), e)
				}
			}
		}
	}
	return call("emit", int64(g.c.intn(100)), g.expr(g.someType(0), d-1, gctx{}))
}

func (g *gen) defn(d int) V {
	ft := pick(g.c.Rng, simpleFns)
	if g.p.closures && g.chance(1, 3) {
		ft = pick(g.c.Rng, hofs)
	}
	if g.p.lazies && g.chance(1, 2) {
		ft = g.fnType(tI)
	}
	n := g.freshName(ft)
	g.fnest++
	g.push()
	ps := g.params(ft)
	b := g.body(ft.ret, d, gctx{})
	g.pop()
	g.fnest--
	g.bind(gvar{name: n, t: ft})
	return flist(append([]V{rsym("defn"), rsym(n), ps}, b...)...)
}

// recursive defines a function that calls itself, in tail position or not.
func (g *gen) recursive(d int) V {
	ft := &gtype{k: 'F', args: []*gtype{tI, tI}, ret: tI, small: true}
	name := fmt.Sprintf("r%d", g.c.intn(4))
	for _, v := range g.scopes[len(g.scopes)-1] {
		if v.name == name {
			return call("emit", int64(0))
		}
	}
	g.fnest++
	g.push()
	n, acc := "n", "acc"
	g.bind(gvar{name: n, t: tI, konst: true})
	g.bind(gvar{name: acc, t: tI})
	base := g.expr(tI, d-2, gctx{})
	arg := g.expr(tI, d-2, gctx{})
	self := flist(rsym(name), call("-", rsym(n), int64(1)), arg)
	var rec V = self
	switch g.c.intn(7) {
	case 0:
		rec = call("+", g.expr(tI, d-2, gctx{}), self)
	case 1:
		rec = call("begin", g.stmt(d-2, gctx{}), self)
	case 2:
		m := g.name()
		e := g.expr(tI, d-2, gctx{})
		rec = call("let", farr(rsym(m), e), call("emit", rsym(m)), self)
	case 3:
		rec = call("newScope", call("def", rsym("acc"), g.expr(tI, d-2, gctx{})), self)
	case 4:
		rec = call("and", true, self)
	case 5:
		rec = call("or", call("emit", false), self)
	}
	g.pop()
	g.fnest--
	g.bind(gvar{name: name, t: ft, konst: true})
	return call("defn", rsym(name), farr(rsym(n), rsym(acc)),
		call("emit", name, rsym(n), rsym(acc)),
		call("cond", call("<=", rsym(n), int64(0)), base, rec))
}

func (g *gen) loop(d int, x gctx) V {
	g.nloop++
	g.lnest++
	ctr := fmt.Sprintf("i%d", g.nloop%5)
	label := ""
	if g.chance(1, 2) {
		label = fmt.Sprintf("L%d", g.nloop)
		if g.chance(1, 4) {
			label = fmt.Sprintf("L%d", g.nloop%2)
		}
	}
	g.push()
	g.bind(gvar{name: ctr, t: tI, konst: true})
	in := gctx{loops: append(append([]string(nil), x.loops...), label)}
	n := int64(1 + g.c.intn(4))
	var test V = call("<", rsym(ctr), n)
	if g.chance(1, 6) {
		test = call("and", test, g.test(d-2, gctx{}))
	}
	var body []V
	for i, k := 0, 1+g.few(3); i < k; i++ {
		body = append(body, g.stmt(d-1, in))
	}
	if g.chance(1, 3) {
		body = append(body, g.expr(tI, d-1, in))
	}
	g.pop()
	g.lnest--
	args := []V{rsym("for")}
	if label != "" {
		args = append(args, rlabel(label))
	}
	step := V(call("set", rsym(ctr), call("+", rsym(ctr), int64(1))))
	init := V(call("def", rsym(ctr), int64(0)))
	if g.chance(1, 5) {
		init = call("begin", call("emit", "init"), init)
	}
	args = append(args, farr(init, test, step))
	return flist(append(args, body...)...)
}

// fnLoop fills an array with closures made in a loop.
func (g *gen) fnLoop(d int) V {
	t := pick(g.c.Rng, fnArrays)
	n := g.freshName(t)
	g.nloop++
	ctr := fmt.Sprintf("i%d", g.nloop%5)
	g.push()
	g.bind(gvar{name: ctr, t: tI, konst: true})
	var e V
	put := func() V {
		f := g.fnLit(t.ret, d-2)
		switch g.c.intn(4) {
		case 0:
			return call("let", farr(rsym("tmpf"), f), call("set", rsym(n), call("append", rsym(n), rsym("tmpf"))))
		case 1:
			return call("begin", call("def", rsym("tmpf"), f), call("set", rsym(n), call("append", rsym(n), rsym("tmpf"))))
		}
		return call("set", rsym(n), call("append", rsym(n), f))
	}
	if g.chance(1, 2) {
		m := g.name()
		for try := 0; m == n; try++ {
			if m = g.name(); try > 10 {
				m = "m"
			}
		}
		g.push()
		g.bind(gvar{name: m, t: tI})
		e = call("let", farr(rsym(m), call("*", rsym(ctr), int64(10))), put())
		g.pop()
	} else {
		e = put()
	}
	g.pop()
	def := call("def", rsym(n), farr())
	g.bind(gvar{name: n, t: t})
	return call("begin", def, call("for", farr(call("def", rsym(ctr), int64(0)), call("<", rsym(ctr), int64(1+g.c.intn(4))),
		call("set", rsym(ctr), call("+", rsym(ctr), int64(1)))), e))
}

// program generates top-level forms, then forms that look at every global.
func (g *gen) program(n int) []V {
	var out []V
	for i := 0; i < n; i++ {
		if g.chance(1, 3) {
			g.size = 0
			out = append(out, g.expr(g.someType(2), g.p.maxDepth, gctx{}))
			continue
		}
		g.size = 0
		out = append(out, g.stmt(g.p.maxDepth, gctx{}))
	}
	return out
}

// probes gives forms that show the state of the globals.
func (g *gen) probes() []V {
	var out []V
	for _, v := range g.scopes[0] {
		out = append(out, call("emit", v.name, rsym(v.name)))
		if v.t.k == 'F' && !v.t.small {
			ok := true
			args := []V{rsym(v.name)}
			for _, a := range v.t.args {
				switch a.k {
				case 'i':
					args = append(args, int64(3))
				case 'L':
					args = append(args, call("list", int64(4)))
				default:
					ok = false
				}
			}
			if ok {
				out = append(out, call("emit", v.name, flist(args...)))
			}
		}
		if v.t.k == 'P' {
			if len(v.t.ret.args) == 0 {
				out = append(out, call("map", call("fn", farr(rsym("p")), call("emit", v.name, flist(rsym("p")))), rsym(v.name)))
			} else {
				out = append(out, call("map", call("fn", farr(rsym("p")), call("emit", v.name, flist(rsym("p"), int64(3)))), rsym(v.name)))
			}
		}
	}
	return out
}

// dataExpr is nested data of any kind.
func (g *gen) dataExpr(d int, x gctx) V {
	if g.full(d) {
		return pick(g.c.Rng, []V{nilv, int64(1), "s", true, farr(), 1.5, flist(rsym("quote"), rsym("sy"))})
	}
	switch g.c.intn(6) {
	case 0:
		args := []V{rsym("list")}
		for i, n := 0, g.few(4); i < n; i++ {
			args = append(args, g.expr(g.someType(0), d-1, gctx{}))
		}
		return flist(args...)
	case 1, 2:
		var es []V
		for i, n := 0, g.few(4); i < n; i++ {
			es = append(es, g.expr(g.someType(0), d-1, x))
		}
		return farr(es...)
	case 3:
		args := []V{rsym("hash")}
		for i, n := 0, g.few(3); i < n; i++ {
			args = append(args, pick(g.c.Rng, []V{g.key(), "str", int64(3), farr(int64(1), "k")}), g.expr(g.someType(0), d-1, gctx{}))
		}
		return flist(args...)
	case 4:
		return call("cons", g.expr(g.someType(0), d-1, gctx{}), g.expr(g.someType(0), d-1, gctx{}))
	}
	return g.expr(g.someType(0), d-1, x)
}
