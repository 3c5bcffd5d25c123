package main

// C03: closure-heavy programs over very few names, so that a free variable
// that is resolved anywhere but where its function was made finds another
// binding of the same name; compared with the reference evaluator.

func c03Case(c *Ctx, idx int) {
	prof := gprofile{loops: true, ops: true, full: true, closures: true, maxDepth: 4 + c.intn(4), names: 2 + c.intn(4)}
	if c.chance(1, 6) {
		prof.errs = 3
	}
	if c.chance(1, 3) {
		c03Nest(c)
		return
	}
	coreCase(c, prof, 2+c.intn(6))
}

// c03Nest builds a chain of nested activations of random kinds, every one of
// which may shadow v or w, update them, and leave behind a getter and a setter
// in a global array; then the getters and setters are called in random order
// from scopes that have their own v and w.
func c03Nest(c *Ctx) {
	n := 0
	lit := func() V { n++; return int64(n) }
	var build func(d int) V
	keep := func(k V) V {
		put := func(k V) V { return call("set", rsym("kept"), call("append", rsym("kept"), k)) }
		// a form that is an argument is compiled at each call, others only once
		switch c.intn(6) {
		case 0:
			return call("let", farr(rsym("k0"), k), put(rsym("k0")))
		case 1:
			return call("begin", call("def", rsym("k1"), k), put(rsym("k1")))
		case 2:
			return call("let", farr(rsym("k0"), call("cond", true, k, rsym("v"))), put(rsym("k0")))
		case 3:
			return put(call("begin", call("emit", "keep"), k))
		}
		return put(k)
	}
	formals := func() V {
		switch c.intn(6) {
		case 0:
			return farr(rsym("&"), rsym("more"))
		case 1:
			return farr(rsym("&"), rsym("u"))
		}
		return farr()
	}
	use := func() V {
		return pick(c.Rng, []V{rsym("v"), rsym("w"), call("+", rsym("v"), rsym("w"))})
	}
	closure := func() V {
		switch c.intn(5) {
		case 0:
			return call("fn", formals(), call("set", pick(c.Rng, []V{rsym("v"), rsym("w")}), lit()), use())
		case 1:
			// made inside another activation
			return flist(call("fn", farr(rsym("w")), call("fn", formals(), use())), lit())
		case 2:
			return call("let", farr(rsym("v"), lit()), call("fn", formals(), call("set", rsym("v"), call("+", rsym("v"), int64(1000))), use()))
		case 3:
			return call("fn", formals(), call("let", farr(rsym("w"), lit()), flist(rsym("peek"))), use())
		}
		return call("fn", formals(), use())
	}
	body := func(d int) []V {
		var out []V
		for i, k := 0, 1+c.intn(3); i < k; i++ {
			switch c.intn(7) {
			case 0:
				out = append(out, call("def", rsym("v"), lit()))
			case 1:
				out = append(out, call("set", pick(c.Rng, []V{rsym("v"), rsym("w")}), lit()))
			case 2, 3:
				out = append(out, keep(closure()))
			case 4:
				out = append(out, call("emit", "here", use()))
			case 5:
				out = append(out, call("emit", "peek", call("peek")))
			case 6:
				out = append(out, call("defn", rsym("peek2"), farr(), use()), keep(rsym("peek2")))
			}
		}
		if d > 0 {
			out = append(out, build(d-1))
			if c.chance(1, 2) {
				out = append(out, keep(closure()), call("emit", "after", use()))
			}
		} else {
			out = append(out, use())
		}
		return out
	}
	cat := func(a []V, b []V) V { return flist(append(a, b...)...) }
	build = func(d int) V {
		switch c.intn(11) {
		case 9:
			// several turns of a loop, each with its own v
			i := rsym([]string{"i", "j", "i2", "j2", "i3"}[d%5])
			return call("begin", call("for", farr(call("def", i, int64(0)), call("<", i, int64(1+c.intn(3))), call("set", i, call("+", i, int64(1)))),
				cat([]V{rsym("let"), farr(rsym("v"), call("+", lit(), call("*", int64(100), i)))}, body(d))), use())
		case 0:
			return cat([]V{rsym("let"), farr(rsym("v"), lit(), rsym("w"), use())}, body(d))
		case 1:
			return cat([]V{rsym("letseq"), farr(rsym("v"), lit(), rsym("w"), rsym("v"))}, body(d))
		case 2:
			return cat([]V{rsym("newScope")}, body(d))
		case 3:
			return flist(cat([]V{rsym("fn"), farr(rsym("v"))}, body(d)), lit())
		case 4:
			return flist(cat([]V{rsym("fn"), farr(rsym("w"), rsym("&"), rsym("v"))}, append([]V{call("def", rsym("v"), lit())}, body(d)...)), lit())
		case 5:
			out := []V{rsym("begin"), cat([]V{rsym("defn"), rsym("loc"), farr(rsym("v"))}, body(d)), flist(rsym("loc"), lit())}
			for c.chance(1, 2) && len(out) < 6 {
				out = append(out, flist(rsym("loc"), lit()))
			}
			return flist(out...)
		case 6:
			return call("aget", call("map", cat([]V{rsym("fn"), farr(rsym("w"))}, body(d)), farr(lit(), lit())), int64(0))
		case 7:
			return call("apply", cat([]V{rsym("fn"), farr(rsym("v"))}, body(d)), call("list", lit()))
		case 8:
			b := body(d)
			return call("begin", cat([]V{rsym("for"), farr(call("def", rsym("v"), int64(0)), call("<", rsym("v"), int64(1)), call("set", rsym("v"), call("+", rsym("v"), int64(1)))),
				call("def", rsym("vv"), rsym("v"))}, append(append([]V{rsym("newScope")}[:0:0], b...), call("set", rsym("v"), int64(50)))), use())
		}
		// a recursive function that keeps a closure per activation
		return call("begin", flist(rsym("defn"), rsym("rec"), farr(rsym("v"), rsym("k")),
			keep(closure()),
			call("cond", call("<=", rsym("k"), int64(0)), use(), flist(rsym("rec"), call("+", rsym("v"), int64(1)), call("-", rsym("k"), int64(1))))),
			flist(rsym("rec"), lit(), int64(c.intn(4))))
	}
	texts := [][]V{
		{call("def", rsym("kept"), farr()), call("def", rsym("v"), lit()), call("def", rsym("w"), lit()),
			call("defn", rsym("peek"), farr(), farr(rsym("v"), rsym("w")))},
		{build(1 + c.intn(4))},
		{call("emit", "len", call("len", rsym("kept")))},
	}
	for i := 0; i < 4; i++ {
		texts = append(texts, []V{
			call("let", farr(rsym("v"), int64(-1), rsym("w"), int64(-2)),
				call("map", flist(rsym("fn"), farr(rsym("g")), call("emit", flist(rsym("g")))), rsym("kept"))),
		})
		if c.chance(1, 2) {
			texts = append(texts, []V{call("set", pick(c.Rng, []V{rsym("v"), rsym("w")}), lit())})
		}
		if c.chance(1, 2) {
			texts = append(texts, []V{call("emit", call("peek"))})
		}
	}
	p := newPair(c)
	for i, t := range texts {
		r := p.step(t, joinSrc(c, t))
		if r.unsure {
			c.Inconclusive(r.ref.tag)
			return
		}
		if r.bad != "" {
			reportDiff(c, "differs", texts[:i+1], true, r.bad)
			return
		}
		c.Count("effects_compared", int64(len(p.rec.log)))
		if i == 1 {
			c.Nontrivial(joinSrc(nil, t))
		}
		if r.ref.kind == "error" {
			c.Count("programs_ending_in_error", 1)
			return
		}
	}
	c.Count("nests_run", 1)
	p.observe()
}

func init() {
	register(&Prop{
		ID:          "C03",
		Rule:        "closure-heavy random programs over two to five names and chains of nested activations (fn, defn, let, letseq, newScope, for, map, apply, recursion) that shadow, update and capture the same two names, with getters and setters called later from scopes with their own bindings of these names; values and effects are compared with a reference evaluator with chained scopes; non-trivial programs differ in text or result",
		N:           func(t string) int { return tierN(t, 60000, 2500000) },
		Run:         c03Case,
		MinDistinct: func(t string) int { return 30000 },
		Assumptions: []string{"right-hand sides of let are evaluated inside the new scope before it binds anything", "a for loop has one scope for all its iterations"},
	})
}
