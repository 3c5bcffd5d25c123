package main

// C16: programs made of functions with every mix of lazy, strict and rest
// parameters, called by every route, with arguments that have effects, fail,
// or depend on variables that have another meaning where they are forced. The
// reference evaluator keeps promises as (form, environment); values, errors
// and the trace of effects have to agree after every text.

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{
		ID:    "C16",
		Rule:  "effects, values and recovered forms of lazy and strict arguments equal those of a reference that keeps promises as form plus environment",
		Level: "bounded",
		Assumptions: []string{
			"a rest parameter is strict; forcing evaluates again when the first evaluation failed; apply and map hand over values that count as forced",
		},
		N:           func(t string) int { return tierN(t, 26000, 900000) },
		Run:         c16Case,
		MinDistinct: func(t string) int { return tierN(t, 8000, 80000) },
	})
}

// c16fn is a function the program can call.
type c16fn struct {
	name  string
	kinds string // per parameter: s strict, l lazy, r rest (last)
	names []string
	typed bool
	prom  bool // returns a promise
	rec   bool // counts its first (strict) argument down
	how   string
}

type c16 struct {
	c     *Ctx
	fns   []*c16fn
	n     int
	size  int
	kept  bool
	errs  bool
	fail  int
	dots  int // functions that are also members pk.F<i> and hk.F<i>
	texts []c15text
}

type c16x struct {
	vars  []string // int variables
	lazy  []string // promise variables
	rest  []string // list variables
	max   int      // callable functions
	quiet bool
	inFn  bool
	typed bool // what is returned must be an int
}

func (g *c16) lit() V { g.n++; return int64(g.n % 90) }

func (x c16x) with(vars []string, lazy []string) c16x {
	y := x
	y.vars = append(append([]string(nil), x.vars...), vars...)
	y.lazy = append(append([]string(nil), x.lazy...), lazy...)
	return y
}

// expr is an int expression.
func (g *c16) expr(d int, x c16x) V {
	c := g.c
	g.size++
	if d <= 0 || g.size > 90 {
		if len(x.vars) > 0 && c.chance(2, 3) {
			return rsym(pick(c.Rng, x.vars))
		}
		return g.lit()
	}
	switch c.intn(22) {
	case 0, 1:
		return g.lit()
	case 2, 3, 4:
		return rsym(pick(c.Rng, x.vars))
	case 5, 6:
		return call("emit", g.expr(d-1, x))
	case 7:
		return call("+", g.expr(d-1, x), g.expr(d-1, x))
	case 8:
		return call("begin", call("set", rsym(pick(c.Rng, x.vars)), g.expr(d-1, x)), g.expr(d-1, x))
	case 9:
		v := pick(c.Rng, []string{"a", "b", "c"})
		return call("let", farr(rsym(v), g.expr(d-1, x)), g.expr(d-1, x.with([]string{v}, nil)))
	case 10:
		return call("cond", call("<", g.expr(d-1, x), int64(c.intn(60))), g.expr(d-1, x), g.expr(d-1, x))
	case 11, 12, 13:
		if len(x.lazy) > 0 {
			return call("force", rsym(pick(c.Rng, x.lazy)))
		}
	case 14:
		v := pick(c.Rng, []string{"a", "b", "c"})
		return flist(call("fn", farr(rsym(v)), g.expr(d-1, x.with([]string{v}, nil))), g.expr(d-1, x))
	case 15:
		if g.errs && c.chance(1, 3) {
			g.fail++
			return pick(c.Rng, []V{call("boom", int64(g.fail)), rsym("undefinedvar"), call("begin", call("emit", "bad"), call("boom", int64(g.fail)))})
		}
		return call("bump")
	case 16:
		return call("begin", g.stmt(d-1, x), g.expr(d-1, x))
	}
	if x.max > 0 {
		return g.callOf(g.fns[c.intn(x.max)], d, x)
	}
	return call("emit", g.expr(d-1, x))
}

// odd is a value that is no number, or is false.
func (g *c16) odd() V {
	return g.pickv(nil2, nil2, false, true, int64(0), "", farr(), farr(nil2), call("list"), call("hash"), "s", 0.0, call("quote", rsym("sy")), call("fn", farr(), int64(1)), call("cond", false, int64(1), nil2))
}

func (g *c16) pickv(vs ...V) V { return vs[g.c.intn(len(vs))] }

// stmt does something for its effect.
func (g *c16) stmt(d int, x c16x) V {
	c := g.c
	g.size++
	if len(x.lazy) > 0 && c.chance(3, 5) {
		l := rsym(pick(c.Rng, x.lazy))
		switch c.intn(13) {
		case 0, 1:
			return call("emit", "sub", call("substitute", l))
		case 2:
			return call("emit", "ty", call("type?", l))
		case 3, 4:
			return call("emit", call("force", l))
		case 5:
			return call("begin", call("emit", call("force", l)), call("emit", call("force", l)))
		case 6:
			if g.kept {
				return call("set", rsym("kept"), call("cons", l, rsym("kept")))
			}
		case 7:
			if g.kept {
				return call("set", rsym("kfns"), call("cons", call("fn", farr(), call("force", l)), rsym("kfns")))
			}
		case 8:
			i := rsym("i")
			return call("for", farr(call("def", i, int64(0)), call("<", i, int64(2)), call("set", i, call("+", i, int64(1)))), call("emit", call("force", l)))
		case 9:
			v := pick(c.Rng, []string{"a", "b", "c"})
			return call("let", farr(rsym(v), g.lit()), call("emit", call("force", l)))
		case 10:
			return call("begin", call("set", rsym(pick(c.Rng, []string{"a", "b", "c"})), g.lit()), call("emit", call("force", l)))
		case 11:
			// the value the form gives when it is evaluated here
			return call("emit", "len", call("len", call("list", call("substitute", l))))
		case 12:
			// through a strict function, which gets the promise itself
			return call("emit", flist(call("fn", farr(rsym("q")), call("list", call("type?", rsym("q")), call("force", rsym("q")))), l))
		}
	}
	switch c.intn(8) {
	case 6, 7:
		// a value other than a number, forced several times
		w := call("force", rsym("#w"))
		body := []V{rsym("fn"), farr(rsym("#w"), rsym("v"))}
		for k := 1 + c.intn(3); k > 0; k-- {
			body = append(body, pick(c.Rng, []V{call("emit", w), call("emit", "t", call("type?", w)), call("emit", "b", call("cond", w, int64(1), int64(2))), call("emit", "and", call("or", w, int64(3)))}))
		}
		f := V(flist(append(body, pick(c.Rng, []V{rsym("v"), w}))...))
		args := []V{call("begin", call("emit", "odd"), g.odd()), g.expr(d-1, x)}
		switch c.intn(3) {
		case 0:
			return call("emit", call("let", farr(rsym("g"), f), flist(append([]V{rsym("g")}, args...)...)))
		case 1:
			return call("emit", call("apply", f, farr(args...)))
		}
		return call("emit", flist(append([]V{f}, args...)...))
	case 0:
		return call("set", rsym(pick(c.Rng, x.vars)), g.expr(d-1, x))
	case 1:
		i := rsym("i")
		return call("for", farr(call("def", i, int64(0)), call("<", i, int64(1+c.intn(3))), call("set", i, call("+", i, int64(1)))), call("emit", g.expr(d-1, x.with([]string{"i"}, nil))))
	case 2:
		if len(x.rest) > 0 {
			return call("emit", "rest", rsym(pick(c.Rng, x.rest)))
		}
	}
	return call("emit", g.expr(d-1, x))
}

// args for a function. vals: only values may be given (apply, map).
func (g *c16) args(f *c16fn, d int, x c16x) []V {
	c := g.c
	var out []V
	for i, k := range f.kinds {
		switch {
		case k == 'r':
			for j, n := 0, c.intn(3); j < n; j++ {
				out = append(out, g.expr(d-1, x))
			}
		case i == 0 && f.rec:
			out = append(out, int64(c.intn(4)))
		case k == 'l' && g.errs && c.chance(1, 15) && !f.typed:
			out = append(out, call("begin", call("emit", "odd"), g.odd()))
		case k == 'l' && len(x.lazy) > 0 && c.chance(1, 10) && !f.typed && !x.typed && !f.rec && f.how != "deep":
			// hand on the promise inside
			out = append(out, call("force", rsym(pick(c.Rng, x.lazy))))
		default:
			e := g.expr(d-1, x)
			if c.chance(2, 5) {
				e = call("emit", "arg", e)
			}
			out = append(out, e)
		}
	}
	if g.errs && c.chance(1, 30) && len(out) > 0 {
		// a name that only means something where it is forced
		out[len(out)-1] = rsym(pick(c.Rng, []string{"p", "q", "n", "rest", "#x", "#y", "i", "inner"}))
	}
	if g.errs && c.chance(1, 25) {
		if len(out) > 0 && c.chance(1, 2) {
			out = out[:len(out)-1]
		} else {
			out = append(out, call("emit", "extra", g.lit()))
		}
	}
	return out
}

// callOf calls f by some route.
func (g *c16) callOf(f *c16fn, d int, x c16x) V {
	c := g.c
	fs := rsym(f.name)
	args := g.args(f, d, x)
	direct := func(h V, a []V) V {
		var v V = flist(append([]V{h}, a...)...)
		if f.prom {
			v = call("force", v)
		}
		return v
	}
	var at int
	fmt.Sscanf(f.name, "f%d", &at)
	if at < g.dots && c.chance(1, 4) {
		fs = rsym(fmt.Sprintf("%s.F%d", pick(c.Rng, []string{"pk", "hk", "pk.In"}), at))
	}
	if f.typed && c.chance(1, 2) && len(args) == len(f.names) {
		// by name, in any order
		var out []V
		for _, i := range c.Rng.Perm(len(args)) {
			out = append(out, rlabel(f.names[i]), args[i])
		}
		args = out
	}
	route := c.intn(24)
	if route > 11 {
		fs = rsym(f.name) // a dot path is not resolved in every place
	}
	switch route {
	case 0, 1, 2, 3, 4, 5:
		return direct(fs, args)
	case 6, 7:
		return call("let", farr(rsym("g"), fs), direct(rsym("g"), args))
	case 8:
		return flist(call("fn", farr(rsym("h")), direct(rsym("h"), args)), fs)
	case 9:
		return direct(flist(call("fn", farr(), fs)), args)
	case 10:
		return direct(call("begin", call("emit", "callee"), fs), args)
	case 11:
		return direct(call("cond", call("<", g.expr(1, x), int64(30)), fs, fs), args)
	case 12:
		return direct(call("aget", farr(int64(0), fs), int64(1)), args)
	case 13:
		return direct(call("hget", call("hash", rlabel("k"), fs), rlabel("k")), args)
	case 14, 15:
		if !c16named(args) {
			w := func(v V) V { return v }
			if f.prom {
				w = func(v V) V { return call("force", v) }
			}
			return w(call("apply", fs, pick(c.Rng, []V{farr(args...), flist(append([]V{rsym("list")}, args...)...)})))
		}
	case 16:
		if len(f.kinds) == 1 && !f.prom {
			e := []V{g.expr(d-1, x), g.expr(d-1, x)}
			if f.rec {
				e = []V{int64(1), int64(2)}
			}
			return call("aget", call("map", fs, farr(e...)), int64(1))
		}
	case 17:
		return direct(rsym("callmac"), append([]V{fs}, args...))
	case 18:
		return call("eval", call("quote", direct(fs, args)))
	case 19:
		// a new function around it
		return flist(call("fn", farr(rsym("#w")), direct(fs, args), call("force", rsym("#w"))), g.expr(d-1, x))
	case 20:
		// delayed once more
		return flist(call("fn", farr(rsym("#w"), rsym("a")), call("emit", "before"), call("force", rsym("#w"))), direct(fs, args), g.lit())
	case 21:
		// the alias is made, then moves on
		return call("let", farr(rsym("g"), call("fn", farr(rsym("&"), rsym("r")), int64(0)), rsym("g2"), rsym("g")), call("set", rsym("g"), fs), direct(rsym("g"), args))
	case 22:
		if !c16named(args) {
			return direct(rsym("via"), append([]V{fs}, args...))
		}
	case 23:
		return call("newScope", call("def", rsym("g"), fs), direct(rsym("g"), args))
	}
	return direct(fs, args)
}

func c16named(args []V) bool {
	for _, a := range args {
		if _, ok := a.(rlabel); ok {
			return true
		}
	}
	return false
}

// define makes a function; its body may call those before it.
func (g *c16) define(top []string) {
	c := g.c
	f := &c16fn{name: fmt.Sprintf("f%d", len(g.fns))}
	strict := []string{"a", "b", "c", "p", "q"}
	lazy := []string{"#x", "#y", "#z", "#a"}
	c.Rng.Shuffle(len(strict), func(i, j int) { strict[i], strict[j] = strict[j], strict[i] })
	c.Rng.Shuffle(len(lazy), func(i, j int) { lazy[i], lazy[j] = lazy[j], lazy[i] })
	f.typed = c.chance(1, 6)
	f.rec = !f.typed && c.chance(1, 5)
	n := c.intn(4)
	if n == 0 && c.chance(3, 4) {
		n = 1
	}
	x := c16x{vars: append([]string(nil), top...), max: len(g.fns), inFn: true, typed: true}
	var params []V
	for i := 0; i < n || i == 0 && f.rec; i++ {
		if f.rec && i == 0 {
			f.kinds += "s"
			f.names = append(f.names, "n")
			params = append(params, rsym("n"))
			continue
		}
		if c.chance(3, 5) {
			f.kinds += "l"
			f.names = append(f.names, lazy[i])
			x.lazy = append(x.lazy, lazy[i])
		} else {
			f.kinds += "s"
			f.names = append(f.names, strict[i])
			x.vars = append(x.vars, strict[i])
		}
		params = append(params, rsym(f.names[i]))
	}
	if !f.typed && c.chance(1, 5) {
		f.kinds += "r"
		x.rest = []string{"rest"}
		params = append(params, rsym("&"), rsym("rest"))
	}
	g.size = 0
	var body []V
	for i, k := 0, c.intn(4); i < k; i++ {
		body = append(body, g.stmt(2, x))
	}
	last := g.expr(1+c.intn(3), x)
	if len(x.lazy) > 0 && !f.typed && !f.rec && c.chance(1, 7) {
		f.prom = true
		last = rsym(pick(c.Rng, x.lazy))
	}
	if f.rec {
		// down to nothing, in tail position or not
		xs := x
		xs.vars = append(xs.vars, "n")
		sub := c16fn{name: f.name, kinds: f.kinds, names: f.names, how: "deep"}
		args := g.args(&sub, 2, xs)
		if len(args) > 0 {
			args[0] = call("-", rsym("n"), int64(1))
		}
		var self V = flist(append([]V{rsym(f.name)}, args...)...)
		if c.chance(1, 3) {
			self = call("+", int64(1), self)
		}
		switch c.intn(4) {
		case 0:
			last = call("cond", call("<", rsym("n"), int64(1)), last, self)
		case 1:
			last = call("cond", call(">", rsym("n"), int64(0)), call("begin", g.stmt(1, xs), self), last)
		case 2:
			last = call("cond", call("<", rsym("n"), int64(1)), last, call("let", farr(rsym("b"), g.expr(1, xs)), self))
		case 3:
			last = call("cond", call("<", rsym("n"), int64(1)), last, call("newScope", g.stmt(1, xs), self))
		}
	}
	body = append(body, last)
	sig := farr(params...)
	var def V
	switch k := c.intn(10); {
	case f.typed:
		var in []V
		for _, nm := range f.names {
			in = append(in, rlabel(nm), rsym("int64"))
		}
		def = flist(append([]V{rsym("func"), rsym(f.name), farr(in...), farr(rlabel("r"), rsym("int64"))}, body...)...)
	case k < 5 || f.rec:
		def = flist(append([]V{rsym("defn"), rsym(f.name), sig}, body...)...)
	case k < 7:
		def = call("def", rsym(f.name), flist(append([]V{rsym("fn"), sig}, body...)...))
	case k < 8:
		def = call("def", rsym(f.name), call("let", farr(rsym("a"), g.lit(), rsym("b"), g.lit()), flist(append([]V{rsym("fn"), sig}, body...)...)))
	case k < 9:
		def = call("def", rsym(f.name), flist(call("fn", farr(rsym("a")), flist(append([]V{rsym("defn"), rsym("inner"), sig}, body...)...), rsym("inner")), g.lit()))
	default:
		def = call("def", rsym(f.name), flist(call("fn", farr(rsym("#c")), call("def", rsym("c"), call("force", rsym("#c"))), flist(append([]V{rsym("fn"), sig}, body...)...)), g.lit()))
	}
	g.fns = append(g.fns, f)
	g.text(def)
}

// members makes the functions members of a package, a package in it, and a hash.
func (g *c16) members() {
	var defs []V
	h := []V{rsym("hash")}
	t := c15text{ref: []V{nilv}, dots: map[string]string{}}
	for i, f := range g.fns {
		if f.rec {
			break // known by its name
		}
		g.dots++
		m := fmt.Sprintf("F%d", i)
		defs = append(defs, call("def", rsym(m), rsym(f.name)))
		h = append(h, rlabel(m), rsym(f.name))
		for _, p := range []string{"pk", "hk", "pk.In"} {
			t.dots[p+"."+m] = f.name
		}
	}
	if g.dots == 0 {
		return
	}
	in := call("def", rsym("In"), flist(append([]V{rsym("package"), "in"}, defs...)...))
	t.lib = []V{call("def", rsym("pk"), flist(append([]V{rsym("package"), "pk", in}, defs...)...)), call("def", rsym("hk"), flist(h...)), nilv}
	g.texts = append(g.texts, t)
}

func (g *c16) text(fs ...V) { g.texts = append(g.texts, c15text{lib: fs, ref: fs}) }

func c16Case(c *Ctx, idx int) {
	g := &c16{c: c, kept: c.chance(2, 3), errs: c.chance(1, 3)}
	top := []string{"a", "b", "c"}
	g.text(
		call("def", rsym("a"), int64(1)), call("def", rsym("b"), int64(2)), call("def", rsym("c"), int64(3)),
		call("def", rsym("n0"), int64(0)),
		call("defn", rsym("bump"), farr(), call("set", rsym("n0"), call("+", rsym("n0"), int64(1))), call("emit", "bump", rsym("n0"))),
		call("def", rsym("kept"), call("list")), call("def", rsym("kfns"), call("list")),
		call("defmac", rsym("callmac"), farr(rsym("f"), rsym("&"), rsym("as")), c15sq(flist(c15uq(rsym("f")), c15us(rsym("as"))))),
		call("defn", rsym("via"), farr(rsym("f"), rsym("&"), rsym("as")), call("apply", rsym("f"), rsym("as"))),
	)
	for i, n := 0, 1+c.intn(4); i < n; i++ {
		g.define(top)
	}
	if c.chance(1, 3) {
		g.members()
	}
	x := c16x{vars: top, max: len(g.fns)}
	for i, n := 0, 2+c.intn(4); i < n; i++ {
		g.size = 0
		f := g.fns[c.intn(len(g.fns))]
		switch c.intn(9) {
		case 0:
			// from inside a function with variables of the same names
			y := x.with([]string{"p"}, nil)
			g.text(call("defn", rsym("caller"), farr(rsym("a"), rsym("p")), call("def", rsym("b"), g.lit()), g.callOf(f, 3, y)), call("emit", call("caller", g.lit(), g.lit())), call("emit", call("caller", g.lit(), g.lit())))
		case 1:
			y := x.with([]string{"i"}, nil)
			k := rsym("i")
			g.text(call("for", farr(call("def", k, int64(0)), call("<", k, int64(3)), call("set", k, call("+", k, int64(1)))), call("emit", g.callOf(f, 2, y))))
		case 2:
			g.text(call("let", farr(rsym("a"), g.lit(), rsym("c"), g.lit()), call("emit", g.callOf(f, 3, x)), call("set", rsym("a"), g.lit()), call("emit", rsym("a"))))
		case 3:
			if g.kept {
				// after whoever made them has returned
				switch c.intn(4) {
				case 0:
					g.text(call("emit", "kept", call("map", rsym("force"), rsym("kept"))))
				case 1:
					g.text(call("let", farr(rsym("a"), int64(70), rsym("b"), int64(80)), call("emit", call("map", call("fn", farr(rsym("a")), call("force", rsym("a"))), rsym("kept")))))
				case 2:
					g.text(call("emit", "kfns", call("map", call("fn", farr(rsym("f")), flist(rsym("f"))), rsym("kfns"))))
				case 3:
					g.text(call("emit", "subs", call("map", rsym("substitute"), rsym("kept"))))
				}
				continue
			}
		case 4:
			// the name comes to mean a function of another kind
			if len(g.fns) > 1 {
				h := g.fns[c.intn(len(g.fns))]
				lz := pick(c.Rng, []string{"#s", "s"})
				g.text(call("defn", rsym("later"), farr(), call("moved", call("emit", g.expr(1, x)))),
					call("defn", rsym("moved"), farr(rsym(lz)), call("emit", "in", call("type?", rsym(lz))), int64(4)),
					call("emit", call("later")))
				lz2 := pick(c.Rng, []string{"#t", "t"})
				g.text(call("defn", rsym("moved"), farr(rsym(lz2)), call("emit", "in2", call("type?", rsym(lz2))), call("force", rsym(lz2))), call("emit", call("later")), call("emit", g.callOf(h, 2, x)))
				continue
			}
		case 5:
			// a strict builtin or host function gets values
			g.text(call("emit", g.callOf(f, 2, x), flist(call("fn", farr(rsym("e")), call("e", g.expr(2, x), g.expr(1, x))), rsym("emit"))))
		default:
			g.text(call("emit", g.callOf(f, 3, x)))
		}
	}
	g.text(call("emit", rsym("a"), rsym("b"), rsym("c"), rsym("n0"), call("len", rsym("kept"))))
	g.text(call("emit", call("map", rsym("force"), rsym("kept"))))
	p := newPair(c)
	bad, unsure, at := c16run(c, p, g.texts)
	switch {
	case unsure != "":
		c.Inconclusive(unsure)
		return
	case bad != "" && g.dots > 0:
		c.Violate("lazy", "%s\nprogram:\n%s", bad, strings.Join(p.src, "\n-- text\n"))
		return
	case bad != "":
		texts := make([][]V, at+1)
		for i := range texts {
			texts[i] = g.texts[i].lib
		}
		reportDiff(c, "lazy", texts, false, bad)
		return
	}
	c.Nontrivial(strings.Join(p.src[1:], "\n"))
	if c.chance(1, 400) {
		c.Sample(strings.Join(p.src[1:], "\n"))
	}
	p.observe()
}

func c16run(c *Ctx, p *pairRun, texts []c15text) (bad, unsure string, at int) {
	for i, t := range texts {
		r := p.step(t.ref, joinSrc(c, t.lib))
		for n, of := range t.dots {
			if v, ok := p.it.global.vars[of]; ok {
				p.it.global.vars[n] = v
			} else {
				return "", "no function " + of, i
			}
		}
		if r.unsure {
			return "", r.ref.tag, i
		}
		if r.bad == "" {
			r.bad = atRest(p.env)
		}
		if r.bad != "" {
			return r.bad, "", i
		}
		c.Count("texts_"+r.ref.kind, 1)
		c.Count("effects", int64(len(p.it.log)))
	}
	return "", "", 0
}
