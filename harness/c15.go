package main

// C15: templates against exact substitution, macros against the forms a hand
// would have written.
//
// Templates: random nestings of lists, arrays and hashes with unquotes and
// splices anywhere are evaluated in random contexts and compared with the
// reference evaluator, whose template code substitutes and nothing else.
//
// Macros: a random program is rewritten so that many of its forms become calls
// of macros whose templates give these forms back; the library runs the
// rewritten program, the reference the original one. Value, error, effects and
// all globals afterwards have to agree, and an expansion must leave the stacks
// and the bindings around it as they were.

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

func init() {
	register(&Prop{
		ID:    "C15",
		Rule:  "a template gives exactly its substitution, a macro call does what the form its template gives would do, and expanding changes nothing around it",
		Level: "bounded",
		Assumptions: []string{
			"a splice inside a hash stands for that many of the keys and values in sequence",
			"improper lists are not templates; a template that is nothing but a splice is an error",
		},
		N:           func(t string) int { return tierN(t, 24000, 700000) },
		Run:         c15Case,
		MinDistinct: func(t string) int { return tierN(t, 6000, 60000) },
	})
}

func c15Case(c *Ctx, idx int) {
	switch {
	case idx < len(c15pairs):
		c15Pair(c, c15pairs[idx])
	case c.chance(11, 20):
		c15Templates(c)
	default:
		c15Macros(c)
	}
}

// ---- templates

type c15t struct {
	c    *Ctx
	errs bool
	size int
	vars []string // data names that are certainly visible
	lsts []string // those that hold lists
	hash bool
}

func c15sq(v V) V { return call("syntaxQuote", v) }
func c15uq(v V) V { return call("unquote", v) }
func c15us(v V) V { return call("unquote-splicing", v) }
func c15q(v V) V  { return call("quote", v) }

// data is plain data, to be quoted.
func (t *c15t) data(d int) V {
	c := t.c
	switch k := c.intn(14); {
	case k < 2:
		return int64(c.intn(20)) - 3
	case k == 2:
		return pick(c.Rng, []V{"", "s", "a\"b\\", "~x", "é"})
	case k == 3:
		return pick(c.Rng, []V{true, false, nilv, 1.5, -2.25, rchar('k'), rchar('~')})
	case k < 6 || d <= 0:
		return pick(c.Rng, []V{rsym("p"), rsym("q"), rsym("i0"), rsym("l3"), rsym("list"), rsym("quote"), rsym("def"), rsym("nosuch"), rlabel("k"), rlabel("i0"), rsym("unquote"), rsym("+"), rsym("let")})
	case k < 10:
		var es []V
		for i, n := 0, c.intn(4); i < n; i++ {
			es = append(es, t.data(d-1))
		}
		return flist(es...)
	}
	var es []V
	for i, n := 0, c.intn(4); i < n; i++ {
		es = append(es, t.data(d-1))
	}
	return farr(es...)
}

// anyExpr gives an expression of any value.
func (t *c15t) anyExpr(d int) V {
	c := t.c
	if d <= 0 {
		return rsym(pick(c.Rng, t.vars))
	}
	if t.errs && c.chance(1, 12) {
		return pick(c.Rng, []V{call("boom", int64(c.intn(9))), rsym("nosuchvar"), call("+", int64(1), "x"), call("first", int64(3))})
	}
	switch c.intn(16) {
	case 0, 1, 2, 3, 4:
		return rsym(pick(c.Rng, t.vars))
	case 5:
		return call("emit", int64(c.intn(50)), t.anyExpr(d-1))
	case 6:
		return call(pick(c.Rng, []string{"+", "-", "*"}), rsym("i0"), int64(c.intn(9)))
	case 7:
		return call("list", t.anyExpr(d-1), t.anyExpr(d-1))
	case 8:
		return farr(t.anyExpr(d-1), t.anyExpr(d-1))
	case 9:
		return c15sq(t.tmpl(d-1, true))
	case 10:
		return call("let", farr(rsym("i0"), int64(c.intn(50))), c15sq(t.tmpl(d-1, true)))
	case 11:
		return flist(call("fn", farr(rsym("i0"), rsym("i1")), t.anyExpr(d-1)), int64(5), t.anyExpr(d-1))
	case 12:
		return call("cond", call("<", rsym("i0"), int64(c.intn(9))), t.anyExpr(d-1), t.anyExpr(d-1))
	case 13:
		return call("begin", call("emit", int64(c.intn(9))), t.anyExpr(d-1))
	case 14:
		return c15q(t.data(2))
	}
	return call(pick(c.Rng, []string{"tf", "tg"}), t.anyExpr(d-1), t.lstExpr(d-1))
}

// lstExpr gives an expression of a list.
func (t *c15t) lstExpr(d int) V {
	c := t.c
	if t.errs && c.chance(1, 12) {
		return t.anyExpr(d)
	}
	if d <= 0 {
		return rsym(pick(c.Rng, t.lsts))
	}
	switch c.intn(14) {
	case 0, 1, 2, 3, 4:
		return rsym(pick(c.Rng, t.lsts))
	case 5:
		return call("list")
	case 6:
		var es []V
		for i, n := 0, 1+c.intn(4); i < n; i++ {
			es = append(es, t.anyExpr(d-1))
		}
		return flist(append([]V{rsym("list")}, es...)...)
	case 7:
		return call("cdr", rsym("l3"))
	case 8:
		return call("map", call("fn", farr(rsym("i0")), call("emit", rsym("i0")), t.anyExpr(d-1)), rsym(pick(c.Rng, t.lsts)))
	case 9:
		return c15sq(flist(append([]V{rsym("h")}, t.elems(d-1, true)...)...))
	case 10:
		return c15q(flist(t.data(1), t.data(2), t.data(1)))
	case 11:
		return call("begin", call("emit", int64(c.intn(9))), t.lstExpr(d-1))
	case 12:
		return pick(c.Rng, []V{nilv, flist()})
	}
	return call("cons", t.anyExpr(d-1), t.lstExpr(d-1))
}

// elems are the elements of a template list or array. Inside an expression
// nothing is a hash.
func (t *c15t) elems(d int, inExpr bool) []V {
	c := t.c
	var es []V
	n := c.intn(5)
	for i := 0; i < n; i++ {
		t.size++
		switch c.intn(9) {
		case 0, 1:
			es = append(es, c15uq(t.anyExpr(min(d, 2))))
		case 2, 3:
			es = append(es, c15us(t.lstExpr(min(d, 2))))
			if c.chance(1, 3) {
				es = append(es, c15us(t.lstExpr(min(d, 2))))
			}
		default:
			es = append(es, t.tmpl(d-1, inExpr))
		}
	}
	return es
}

func (t *c15t) tmpl(d int, inExpr bool) V {
	c := t.c
	t.size++
	if d <= 0 || t.size > 60 {
		return t.data(0)
	}
	switch k := c.intn(12); {
	case k < 5:
		return flist(t.elems(d, inExpr)...)
	case k < 8:
		return farr(t.elems(d, inExpr)...)
	case k == 8:
		return c15uq(t.anyExpr(min(d, 2)))
	case k == 9:
		// sugar and special words inside a template are only data
		switch c.intn(6) {
		case 0:
			return c15q(t.tmpl(d-1, inExpr))
		case 1:
			return call("let", farr(rsym("x"), c15uq(t.anyExpr(1))), t.tmpl(d-1, inExpr))
		case 2:
			return call("hash", rlabel("k"), t.tmpl(d-1, inExpr), rlabel("l"), c15uq(t.anyExpr(1)))
		case 3:
			return call("fn", farr(c15us(t.lstExpr(1))), c15us(t.lstExpr(1)))
		case 4:
			return c15sq(t.tmpl(d-1, inExpr))
		case 5:
			return flist(rsym("unquote"), t.tmpl(d-1, true), int64(1))
		}
	case k == 10 && t.hash && !inExpr:
		h := newRHash()
		for i, n := 0, c.intn(4); i < n; i++ {
			var v V
			switch c.intn(5) {
			case 0:
				v = c15uq(t.anyExpr(1))
			case 1:
				// may be any number of elements
				if c.chance(1, 2) {
					v = c15us(c15q(flist(t.data(1))))
				} else {
					v = c15us(c15q(flist(t.data(1), rsym("h"+fmt.Sprint(i)), t.data(1))))
				}
			default:
				v = t.tmpl(d-1, false)
			}
			h.set(pick(c.Rng, []V{rsym("a"), rsym("b"), rsym("c"), int64(1), "k", rchar('x')}), v)
		}
		return h
	}
	return t.data(1)
}

// build gives an expression that evaluates to the data d.
func c15build(d V) V {
	switch x := d.(type) {
	case *rcell:
		e, ok := listElems(x)
		if !ok {
			return c15q(x)
		}
		out := []V{rsym("list")}
		for _, y := range e {
			out = append(out, c15build(y))
		}
		return flist(out...)
	case *rarr:
		var out []V
		for _, y := range x.v {
			out = append(out, c15build(y))
		}
		return farr(out...)
	case *rhash:
		out := []V{rsym("hash")}
		for _, k := range x.keys {
			if s, ok := k.(rsym); ok {
				out = append(out, rlabel(s))
			} else {
				out = append(out, k)
			}
			out = append(out, c15build(x.m[rdump(k)]))
		}
		return flist(out...)
	case rsym:
		if x == "unquote-splicing" {
			// cannot be written alone
			return call("first", c15q(c15us(rsym("x"))))
		}
		return c15q(x)
	}
	return d
}

func c15prelude(t *c15t) []V {
	v1, v2 := t.data(3), t.data(2)
	return []V{
		call("def", rsym("i0"), int64(7)),
		call("def", rsym("i1"), int64(-2)),
		call("def", rsym("s0"), "str~"),
		call("def", rsym("y0"), c15q(rsym("sym"))),
		call("def", rsym("l0"), call("list")),
		call("def", rsym("l1"), call("list", int64(1))),
		call("def", rsym("l3"), c15q(flist(int64(1), rsym("two"), flist("three", int64(4))))),
		call("def", rsym("ln"), c15q(flist(flist(), farr(), nilv))),
		call("def", rsym("r0"), farr()),
		call("def", rsym("r2"), farr(int64(1), farr(int64(2)))),
		call("def", rsym("v1"), c15q(v1)),
		call("def", rsym("v2"), c15q(v2)),
		call("def", rsym("h1"), call("hash", rlabel("k"), int64(1), rlabel("l"), call("list", int64(2)))),
		call("defn", rsym("tf"), farr(rsym("i0"), rsym("l1")), c15sq(flist(c15uq(rsym("i0")), c15us(rsym("l1")), rsym("i0")))),
		call("defn", rsym("tg"), farr(rsym("v1"), rsym("l3")), c15sq(farr(c15us(rsym("l3")), farr(c15uq(rsym("v1"))), c15us(rsym("l0"))))),
	}
}

func c15Templates(c *Ctx) {
	t := &c15t{c: c, errs: c.chance(1, 6),
		vars: []string{"i0", "i1", "s0", "y0", "l0", "l1", "l3", "r0", "r2", "v1", "v2", "h1", "ln"},
		lsts: []string{"l0", "l1", "l3", "l0", "ln"}}
	texts := [][]V{c15prelude(t)}
	for i, n := 0, 1+c.intn(3); i < n; i++ {
		t.size = 0
		t.hash = false
		if c.chance(1, 4) {
			t.hash = true
			d := t.tmpl(3, false)
			if c.chance(1, 3) {
				d = farr(int64(0), d, c15us(rsym("l3")))
			}
			texts = append(texts, []V{call("def", rsym("d"), c15build(d)), call("eval", call("list", c15q(rsym("syntaxQuote")), rsym("d"))), rsym("d")}[:2+c.intn(2)])
			if c.chance(1, 3) {
				texts = append(texts, []V{call("eval", call("list", c15q(rsym("syntaxQuote")), rsym("d")))})
			}
			continue
		}
		T := c15sq(t.tmpl(2+c.intn(3), false))
		texts = append(texts, c15context(t, T))
	}
	// the bindings are what they were
	texts = append(texts, []V{call("list", rsym("i0"), rsym("i1"), rsym("l0"), rsym("l1"), rsym("l3"), rsym("r0"), rsym("r2"), rsym("v1"), rsym("v2"), rsym("h1"), rsym("ln"))})
	p := newPair(c)
	for i, tx := range texts {
		r := p.step(tx, joinSrc(c, tx))
		if r.unsure {
			c.Inconclusive(r.ref.tag)
			return
		}
		if r.bad == "" {
			if bad := atRest(p.env); bad != "" {
				r.bad = "not at rest: " + bad
			}
		}
		if r.bad != "" {
			reportDiff(c, "template", texts[:i+1], false, r.bad)
			return
		}
		c.Count("template_"+r.ref.kind, 1)
		if i == 1 {
			c.Nontrivial(joinSrc(nil, tx))
		}
	}
	if c.chance(1, 400) {
		c.Sample(strings.Join(p.src[1:], "\n"))
	}
	p.observe()
}

// c15context puts a template expression somewhere.
func c15context(t *c15t, T V) []V {
	c := t.c
	switch c.intn(15) {
	case 0:
		return []V{call("list", int64(1), T, int64(2))}
	case 1:
		return []V{farr(T, T)}
	case 2:
		return []V{call("defn", rsym("u"), farr(rsym("i0"), rsym("l1")), T), call("list", call("u", int64(1), call("list", int64(2), int64(3))), call("u", "x", call("list")))}
	case 3:
		return []V{call("let", farr(rsym("i0"), int64(77), rsym("l3"), call("list", int64(9))), T)}
	case 4:
		return []V{call("for", farr(call("def", rsym("i1"), int64(0)), call("<", rsym("i1"), int64(3)), call("set", rsym("i1"), call("+", rsym("i1"), int64(1)))), call("emit", T))}
	case 5:
		return []V{call("map", call("fn", farr(rsym("i0")), T), farr(int64(1), int64(2)))}
	case 6:
		return []V{call("cond", call("emit", true), T, int64(0))}
	case 7:
		// what is built is new every time
		return []V{call("defn", rsym("u"), farr(), T), call("def", rsym("a"), call("u")),
			call("cond", call("array?", rsym("a")), call("cond", call(">", call("len", rsym("a")), int64(0)), call("aset", rsym("a"), int64(0), "changed"), nilv), nilv),
			call("list", call("u"), rsym("a"))}
	case 8:
		return []V{call("emit", int64(1), T, call("emit", int64(2)))}
	case 9:
		return []V{call("begin", T, T)}
	case 10:
		return []V{call("and", true, T)}
	case 11:
		return []V{call("apply", call("fn", farr(rsym("i0"), rsym("&"), rsym("l1")), T), farr(int64(3), int64(4)))}
	case 12:
		return []V{flist(flist(rsym("fn"), farr(rsym("i1")), call("fn", farr(), T)), int64(4)), flist(flist(call("fn", farr(rsym("i1")), call("fn", farr(), T)), int64(5)))}
	case 13:
		return []V{call("hash", rlabel("k"), T)}
	}
	return []V{T}
}

// ---- macros

type c15m struct {
	c     *Ctx
	g     *gen
	marks map[*rcell]bool
	defs  []V
	calls []V
	n     int
	errs  bool
}

func (m *c15m) helper(n int64) V {
	c := m.c
	switch c.intn(7) {
	case 0:
		return call("+", int64(3), n-3)
	case 1:
		return flist(call("fn", farr(rsym("x")), rsym("x")), n)
	case 2:
		return call("let", farr(rsym("a"), n), rsym("a"))
	case 3:
		return call("first", call("list", n, int64(2)))
	case 4:
		return call("c15id", n)
	case 5:
		return call("cond", call("<", int64(2), int64(1)), "no", n)
	}
	return call("begin", int64(4), n)
}

// mac rewrites f, which is a call form, as a call of a new macro.
func (m *c15m) mac(f *rcell) V {
	c := m.c
	name := fmt.Sprintf("zm%d", m.n)
	m.n++
	var params []V
	var args []V
	pool := append([]string(nil), gnames...)
	c.Rng.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	if c.chance(1, 2) {
		for i := range pool {
			pool[i] = "zp" + fmt.Sprint(i)
		}
	}
	param := func(arg V) V {
		n := rsym(pool[len(params)])
		params = append(params, n)
		args = append(args, arg)
		return n
	}
	room := func() bool { return len(params) < 5 }
	var tm func(v V, d int) V
	var kids func(es []V, d int, first bool) []V
	kids = func(es []V, d int, first bool) []V {
		var out []V
		for i := 0; i < len(es); {
			if c.chance(1, 10) && !first {
				out = append(out, c15us(pick(c.Rng, []V{nilv, call("list"), c15q(flist())})))
			}
			if c.chance(1, 8) && room() {
				// a run of them
				k := 1 + c.intn(len(es)-i)
				var run []V
				for _, e := range es[i : i+k] {
					run = append(run, m.conv(e))
				}
				i += k
				switch c.intn(3) {
				case 0:
					out = append(out, c15us(param(flist(run...))))
				case 1:
					if len(run) > 1 {
						j := 1 + c.intn(len(run)-1)
						out = append(out, c15us(param(flist(run[:j]...))))
						if room() {
							out = append(out, c15us(param(flist(run[j:]...))))
						} else {
							out = append(out, c15us(c15q(flist(run[j:]...))))
						}
						break
					}
					fallthrough
				default:
					out = append(out, c15us(c15sq(flist(c15us(param(flist(run...)))))))
				}
				continue
			}
			out = append(out, tm(es[i], d))
			i++
			first = false
		}
		if c.chance(1, 12) {
			out = append(out, c15us(pick(c.Rng, []V{nilv, call("list")})))
		}
		return out
	}
	tm = func(v V, d int) V {
		if room() && c.chance(1, 4) {
			return c15uq(param(m.conv(v)))
		}
		switch x := v.(type) {
		case int64:
			if c.chance(1, 4) {
				return c15uq(m.helper(x))
			}
			return x
		case string:
			if c.chance(1, 5) {
				return c15uq(call("concat", x[:len(x)/2], x[len(x)/2:]))
			}
			return x
		case rsym:
			if c.chance(1, 6) {
				if c.chance(1, 2) {
					return c15uq(c15q(x))
				}
				return c15uq(call("first", c15q(flist(x))))
			}
			return x
		case *rarr:
			if d <= 0 {
				return m.conv(x)
			}
			return farr(kids(x.v, d-1, true)...)
		case *rcell:
			e, ok := listElems(x)
			if !ok {
				return x
			}
			if len(e) == 2 && (e[0] == V(rsym("unquote")) || e[0] == V(rsym("unquote-splicing"))) {
				return x
			}
			if m.marks[x] && c.chance(1, 3) {
				// inside the template; its arguments can use ours
				sub := m.mac(x)
				se, _ := listElems(sub)
				out := []V{se[0]}
				for _, a := range se[1:] {
					if room() && c.chance(1, 2) {
						out = append(out, c15uq(param(a)))
					} else {
						out = append(out, a)
					}
				}
				return flist(out...)
			}
			if d <= 0 {
				return m.conv(x)
			}
			// an operator of its own: arity of the template must not make it an unquote
			l := kids(e, d-1, true)
			if c.chance(1, 8) {
				return c15uq(c15sq(flist(l...)))
			}
			if c.chance(1, 12) {
				return c15uq(call("cons", c15sq(tm(e[0], 0)), c15sq(flist(kids(e[1:], 0, false)...))))
			}
			return flist(l...)
		}
		return v
	}
	e, _ := listElems(f)
	var body V
	if c.chance(1, 15) {
		body = c15uq(param(flist(e...)))
	} else {
		body = flist(kids(e, 1+c.intn(4), true)...)
	}
	var T V = c15sq(body)
	switch c.intn(8) {
	case 0:
		T = call("let", farr(rsym("t"), int64(1)), T)
	case 1:
		T = call("cond", true, T, nilv)
	case 2:
		T = call("begin", int64(9), T)
	}
	// the last parameter may take the rest
	formals := append([]V(nil), params...)
	if n := len(params); n > 0 && c.chance(1, 3) {
		if l, ok := listElems(args[n-1]); ok {
			formals = append(formals[:n-1], rsym("&"), params[n-1])
			// the rest arrives as a list of forms
			args = append(args[:n-1:n-1], l...)
		}
	}
	m.defs = append(m.defs, call("defmac", rsym(name), farr(formals...), T))
	out := flist(append([]V{rsym(name)}, args...)...)
	m.calls = append(m.calls, out)
	return out
}

// conv rewrites some of the evaluated forms inside v.
func (m *c15m) conv(v V) V {
	switch x := v.(type) {
	case *rcell:
		if m.marks[x] && m.n < 25 && m.c.chance(1, 3) {
			return m.mac(x)
		}
		e, ok := listElems(x)
		if !ok {
			return x
		}
		out := make([]V, len(e))
		for i := range e {
			out[i] = m.conv(e[i])
		}
		return flist(out...)
	case *rarr:
		out := make([]V, len(x.v))
		for i := range out {
			out[i] = m.conv(x.v[i])
		}
		return farr(out...)
	}
	return v
}

func c15Macros(c *Ctx) {
	prof := gprofile{loops: true, ops: true, full: true, maxDepth: 3 + c.intn(3), closures: c.chance(1, 3)}
	if c.chance(1, 5) {
		prof.errs = 4 + c.intn(12)
	}
	g := newGen(c, prof, 40+c.intn(120))
	m := &c15m{c: c, g: g, marks: map[*rcell]bool{}}
	g.onExpr = func(v V) {
		if x, ok := v.(*rcell); ok {
			m.marks[x] = true
		}
	}
	forms := g.program(2 + c.intn(4))
	probes := g.probes()
	var texts []c15text
	defsSeen := 0
	first := []V{call("defn", rsym("c15id"), farr(rsym("x")), rsym("x"))}
	texts = append(texts, c15text{lib: first, ref: first})
	for _, orig := range c02Texts(c, forms) {
		var conv []V
		for _, f := range orig {
			conv = append(conv, m.conv(f))
		}
		defs := m.defs[defsSeen:]
		defsSeen = len(m.defs)
		if len(defs) > 0 && c.chance(1, 2) {
			// in the same text, ahead of the uses
			texts = append(texts, c15text{lib: append(append([]V(nil), defs...), conv...), ref: orig})
		} else {
			if len(defs) > 0 {
				texts = append(texts, c15text{lib: defs, ref: []V{nilv}})
			}
			texts = append(texts, c15text{lib: conv, ref: orig})
		}
	}
	if m.n == 0 {
		c.Count("no_macros", 1)
	}
	p := newPair(c)
	if bad, unsure := c15run(c, p, texts, probes); unsure != "" {
		c.Inconclusive(unsure)
		return
	} else if bad != "" {
		small := c15shrink(c, texts, probes)
		p2 := newPair(c)
		b2, _ := c15run(c, p2, small, probes)
		if b2 == "" {
			small, b2 = texts, bad
		}
		var sb strings.Builder
		for i, t := range small {
			fmt.Fprintf(&sb, "-- text %d\n%s\n-- written by hand\n%s\n", i+1, joinSrc(nil, t.lib), joinSrc(nil, t.ref))
		}
		c.Violate("macro", "%s\n%s", b2, sb.String())
		return
	}
	c.Count("macro_calls_written", int64(m.n))
	// expanding alone
	it2 := newRef(true)
	it2.eval(first)
	for _, d := range m.defs {
		it2.eval([]V{d})
		evalStr(p.env, defaultBudget, srcOf(d)) // an error may have come before it
	}
	n := min(len(m.calls), 4)
	for i := 0; i < n; i++ {
		cl := m.calls[c.intn(len(m.calls))]
		c15expandOnly(c, p, it2, cl)
	}
	if m.n > 0 {
		c.Nontrivial(strings.Join(p.src, "\n"))
	}
	if c.chance(1, 400) {
		c.Sample(strings.Join(p.src, "\n"))
	}
	p.observe()
}

type c15text struct {
	lib, ref []V
	dots     map[string]string // names the reference gets for the values of other names
}

// c15run runs the two sides of every text and compares.
func c15run(c *Ctx, p *pairRun, texts []c15text, probes []V) (bad, unsure string) {
	one := func(lib, ref []V) string {
		p.it.log, p.rec.log = nil, nil
		r := p.it.eval(ref)
		if r.kind == "unsure" {
			unsure = r.tag
			return ""
		}
		src := joinSrc(nil, lib)
		p.src = append(p.src, src)
		c.Eval()
		o := evalStr(p.env, defaultBudget, src)
		if b := p.diff(o, r); b != "" {
			return b
		}
		if b := atRest(p.env); b != "" {
			return "not at rest: " + b
		}
		c.Count("macro_texts_"+r.kind, 1)
		if r.kind == "error" {
			return "stop"
		}
		return ""
	}
	for _, t := range texts {
		if b := one(t.lib, t.ref); b != "" || unsure != "" {
			if b == "stop" {
				break
			}
			return b, unsure
		}
	}
	for _, pr := range probes {
		if b := one([]V{pr}, []V{pr}); b != "" || unsure != "" {
			if b == "stop" {
				continue
			}
			return b, unsure
		}
	}
	return "", unsure
}

func c15shrink(c *Ctx, texts []c15text, probes []V) []c15text {
	// whole forms only: the two sides must keep to each other
	cur := texts
	for i := 0; i < len(cur); i++ {
		cand := append(append([]c15text(nil), cur[:i]...), cur[i+1:]...)
		func() {
			defer func() { recover() }()
			if b, u := c15run(c, newPair(c), cand, probes); b != "" && u == "" {
				cur = cand
				i--
			}
		}()
	}
	return cur
}

// c15expandOnly expands a call with work pending around it and compares the
// form, the stacks and the globals.
func c15expandOnly(c *Ctx, p *pairRun, it2 *rinterp, cl V) {
	type depth struct{ d, s, a, l int }
	var seen []depth
	p.env.AddFunction("c15depths", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		d, s, a, l, _ := vmDepths(env)
		seen = append(seen, depth{d, s, a, l})
		return zygo.SexpNull, nil
	})
	exp := call("macexpand", cl)
	r := it2.eval([]V{exp})
	if r.kind != "value" {
		return
	}
	names := []string{"a", "b", "c", "d", "x", "y", "z", "f", "g", "h", "t", "zp0", "zp1", "zp2", "zp3", "zp4"}
	globals := func() string {
		var sb strings.Builder
		for _, n := range names {
			fmt.Fprintf(&sb, "%s=%s;", n, evalStr(p.env, defaultBudget, n).Coarse())
		}
		return sb.String()
	}
	g1 := globals()
	p.rec.log = nil
	src := srcOf(call("let", farr(rsym("loc"), "mine", rsym("zp0"), int64(5)), call("c15depths"), call("def", rsym("q"), exp), call("c15depths"),
		call("list", rsym("loc"), rsym("q"), rsym("zp0"), exp)))
	c.Eval()
	o := evalStr(p.env, defaultBudget, src)
	want := rdump(flist("mine", r.val, int64(5), r.val))
	if got := o.Coarse(); got != want {
		c.Violate("macexpand", "library %s\nsubstitution %s\ntext:\n%s\nafter\n%s", cut(o.String()), cut(want), src, strings.Join(p.src, "\n"))
		return
	}
	if len(p.rec.log) > 0 {
		c.Violate("macexpand-effects", "expanding alone had effects %v\ntext:\n%s\nafter\n%s", p.rec.log, src, strings.Join(p.src, "\n"))
	}
	if len(seen) != 2 || seen[0] != seen[1] {
		c.Violate("expansion-stacks", "stacks before and after an expansion: %v\ntext:\n%s\nafter\n%s", seen, src, strings.Join(p.src, "\n"))
	}
	if b := atRest(p.env); b != "" {
		c.Violate("expansion-rest", "%s\ntext:\n%s\nafter\n%s", b, src, strings.Join(p.src, "\n"))
	}
	if g2 := globals(); g1 != g2 {
		c.Violate("expansion-globals", "globals before %s\nafter %s\ntext:\n%s\nafter\n%s", cut(g1), cut(g2), src, strings.Join(p.src, "\n"))
	}
	c.Count("expansions_compared", 1)
}

// ---- fixed pairs: with macros, by hand

type c15pair struct{ mac, hand string }

var c15pairs = []c15pair{
	{`(defmac unless [t & body] ^(cond ~t nil (begin ~@body))) (unless false (emit 1) (emit 2) 3)`, `(cond false nil (begin (emit 1) (emit 2) 3))`},
	{`(defmac unroll [n f] (cond (== n 0) nil ^(begin ~f (unroll ~(- n 1) ~f)))) (unroll 4 (emit 7))`, `(begin (emit 7) (begin (emit 7) (begin (emit 7) (begin (emit 7) nil))))`},
	{`(defmac mk [n v] ^(defmac ~n [] ~v)) (mk foo 12) (foo)`, `12`},
	{`(defmac mk [n] ^(defn ~n [x] (emit x) (* x 2))) (mk dbl) (dbl 4)`, `(defn dbl [x] (emit x) (* x 2)) (dbl 4)`},
	{`(defmac swp [a b] ^(let [tmp ~a] (set ~a ~b) (set ~b tmp))) (def p 1) (def q 2) (swp p q) [p q]`, `(def p 1) (def q 2) (let [tmp p] (set p q) (set q tmp)) [p q]`},
	{`(defmac two [x] ^{~x + ~x}) (def k 4) (two (begin (emit k) k))`, `(def k 4) {(begin (emit k) k) + (begin (emit k) k)}`},
	{`(defmac m [x] ^(+ 1 ~x)) (def k 4) {r = (m k) * 2} r`, `(def k 4) {r = (+ 1 k) * 2} r`},
	{`(defmac m [x] ^(+ 1 ~x)) (defn f [x] (let [y (m x)] (for [(def i 0) (< i (m 1)) (set i (m i))] (emit (m i))) (m y))) (f 3)`,
		`(defn f [x] (let [y (+ 1 x)] (for [(def i 0) (< i (+ 1 1)) (set i (+ 1 i))] (emit (+ 1 i))) (+ 1 y))) (f 3)`},
	{`(defmac brk [] ^(break)) (defmac cnt [l] ^(continue ~l)) (for [(def i 0) (< i 5) (set i (+ i 1))] (emit i) (cond (== i 2) (brk) nil))`,
		`(for [(def i 0) (< i 5) (set i (+ i 1))] (emit i) (cond (== i 2) (break) nil))`},
	{`(defmac cnt [l] ^(continue ~l)) (for outer: [(def i 0) (< i 3) (set i (+ i 1))] (for [(def j 0) (< j 3) (set j (+ j 1))] (emit i j) (cond (== j 1) (cnt outer:) nil)))`,
		`(for outer: [(def i 0) (< i 3) (set i (+ i 1))] (for [(def j 0) (< j 3) (set j (+ j 1))] (emit i j) (cond (== j 1) (continue outer:) nil)))`},
	{`(defmac tail [f x] ^(~f (- ~x 1))) (defn loop [n] (cond (== n 0) "done" (tail loop n))) (loop 5000)`, `(defn loop [n] (cond (== n 0) "done" (loop (- n 1)))) (loop 5000)`},
	{`(defmac w [x] ^[1 ~x [~x]]) (map (fn [q] (w q)) [1 2])`, `(map (fn [q] [1 q [q]]) [1 2])`},
	{`(defmac w [& xs] ^[~@xs ~@xs]) [(w) (w 1) (w 1 (+ 1 1))]`, `[[] [1 1] [1 (+ 1 1) 1 (+ 1 1)]]`},
	{`(defmac ev [x] (eval x)) (ev (+ 1 2))`, `3`},
	{`(defmac lit [x] ^(quote ~x)) (lit (a b [c]))`, `(quote (a b [c]))`},
	{`(defmac h [k v] ^(hash ~k ~v z: 1)) (h y: (+ 1 2))`, `(hash y: (+ 1 2) z: 1)`},
	{`(defmac nest [x] ^(begin ~@(map (fn [i] ^(emit ~i ~x)) (list 1 2 3)))) (nest (+ 2 3))`, `(begin (emit 1 (+ 2 3)) (emit 2 (+ 2 3)) (emit 3 (+ 2 3)))`},
	{`(defmac a1 [x] ^(b1 ~x ~x)) (defmac b1 [x y] ^(+ ~x ~y)) (a1 (begin (emit 1) 4))`, `(+ (begin (emit 1) 4) (begin (emit 1) 4))`},
	{`(defmac m [] ^(def fresh 5)) (m) fresh`, `(def fresh 5) fresh`},
	{`(defmac m [] ^(def fresh 5)) (let [fresh 1] (m) (set fresh 9)) (let [] (m)) 1`, `(let [fresh 1] (def fresh 5) (set fresh 9)) (let [] (def fresh 5)) 1`},
	{`(def x 1) (defmac m [x] ^(list x ~x)) (let [x 2] (m (+ x 5)))`, `(def x 1) (let [x 2] (list x (+ x 5)))`},
	{`(defmac m [x] (def inner 5) ^(+ ~inner ~x)) (m 3)`, `(+ 5 3)`},
	{`(defmac m [x] (let [u 1 v 2] ^(list ~u ~v ~x))) (let [u 8] (list (m u) u))`, `(let [u 8] (list (list 1 2 u) u))`},
	{`(defmac m [x] (for [(def i 0) (< i 3) (set i (+ i 1))] nil) ^(list ~x)) (for [(def i 0) (< i 2) (set i (+ i 1))] (emit (m i)))`, `(for [(def i 0) (< i 2) (set i (+ i 1))] (emit (list i)))`},
	{`(defmac m [f & a] ^(~f ~@a)) (m + 1 2) (m (fn [x] (emit x)) 5)`, `(+ 1 2) ((fn [x] (emit x)) 5)`},
	{`(defmac m [a] ^(fn [~a & rest] (list ~a rest))) ((m z) 1 2 3)`, `((fn [z & rest] (list z rest)) 1 2 3)`},
	{`(defmac m [#x] ^(list 1)) 1`, `1`},
	{`(range i v [4 5] (emit i v))`, `(emit 0 4) (emit 1 5) nil`},
	{`(def n 3) (++ n) (+= n 5) (-- n) n`, `(def n 3) (set n (+ n 1)) (set n (+ n 5)) (set n (- n 1)) n`},
	{`(defmac m [x] ^~x) (m (emit 3))`, `(emit 3)`},
	{`(defmac m [x] x) (m (emit 3))`, `(emit 3)`},
	{`(defmac m [x] (list (quote +) 1 x)) (m (emit 3))`, `(+ 1 (emit 3))`},
	{`(defmac m [] nil) (m)`, `nil`},
	{`(defmac m [] "s") (m)`, `"s"`},
	{`(defmac m [] ^()) (m)`, `()`},
	{`(defmac m [& xs] ^(let [~@xs] (list a b))) (m a 1 b (emit 2))`, `(let [a 1 b (emit 2)] (list a b))`},
	{`(defmac m [& cl] ^(cond ~@cl)) (m false (emit 1) true (emit 2) (emit 3))`, `(cond false (emit 1) true (emit 2) (emit 3))`},
	{`(defmac m [a b] ^(and ~a ~b)) (list (m 1 (emit 2)) (m false (emit 3)))`, `(list (and 1 (emit 2)) (and false (emit 3)))`},
	{`(defn f [] (defmac loc [x] ^(* ~x ~x)) (loc 5)) (f)`, `(defn f [] (* 5 5)) (f)`},
	{`(let [] (defmac loc [x] ^(* ~x ~x)) (loc 5))`, `(let [] (* 5 5))`},
	{`(defmac m [x] ^(eval (quote ~x))) (let [k 3] (m (emit (+ k 1))))`, `(let [k 3] (eval (quote (emit (+ k 1)))))`},
	{`(defmac m [x] (emit "expanding") ^(+ 1 ~x)) (defn g [] (m 2)) (def r []) (set r (append r (g))) (set r (append r (g))) r`, `(emit "expanding") (defn g [] (+ 1 2)) (def r []) (set r (append r (g))) (set r (append r (g))) r`},
	{`(defmac m [x] ^(list ~x ^(p ~x))) (def x 3) (m 1)`, `(def x 3) (list 1 ^(p 1))`},
	{`(defmac m [t] ^(begin (struct ~t [(field I: int64 e:0)]) (~t I: 4))) (m Cc)`, `(begin (struct Cc [(field I: int64 e:0)]) (Cc I: 4))`},
	{`(defmac m [n] ^(package ~n (def X 3) (defn Y [] X))) (def q (m "pk")) (q.Y)`, `(def q (package "pk" (def X 3) (defn Y [] X))) (q.Y)`},
}

func c15Pair(c *Ctx, t c15pair) {
	run := func(src string) (Outcome, []string, *zygo.Zlisp) {
		var rec recorder
		env := newFull()
		installEffects(env, &rec)
		c.Eval()
		o := evalStr(env, defaultBudget, src)
		return o, rec.log, env
	}
	o1, l1, e1 := run(t.mac)
	o2, l2, _ := run(t.hand)
	c.Nontrivial(t.mac)
	if o1.Coarse() != o2.Coarse() || strings.Join(l1, " ") != strings.Join(l2, " ") {
		c.Violate("pair", "with macros: %s, effects %v\nby hand: %s, effects %v\nwith macros:\n%s\nby hand:\n%s", cut(o1.String()), l1, cut(o2.String()), l2, t.mac, t.hand)
	}
	if b := atRest(e1); b != "" {
		c.Violate("pair-rest", "%s\ntext:\n%s", b, t.mac)
	}
	c.Count("fixed_pairs", 1)
}
