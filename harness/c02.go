package main

import "os"

// C02: generated programs are evaluated by the library and by the reference
// evaluator; the monitor compares value, error and the order of effects.

func c02Texts(c *Ctx, forms []V) [][]V {
	if c.chance(1, 2) {
		return [][]V{forms}
	}
	var out [][]V
	for i := 0; i < len(forms); {
		n := 1 + c.intn(2)
		if i+n > len(forms) {
			n = len(forms) - i
		}
		out = append(out, forms[i:i+n])
		i += n
	}
	return out
}

func c02Case(c *Ctx, idx int) {
	prof := gprofile{loops: true, ops: true, full: true, maxDepth: 3 + c.intn(4)}
	if c.chance(1, 3) {
		prof.errs = 4 + c.intn(25)
	}
	if c.chance(1, 4) {
		prof.closures = true
	}
	coreCase(c, prof, 2+c.intn(7))
}

// coreCase runs one generated program.
func coreCase(c *Ctx, prof gprofile, nforms int) {
	g := newGen(c, prof, 60+c.intn(200))
	forms := g.program(nforms)
	probes := g.probes()
	texts := c02Texts(c, forms)
	for _, p := range probes {
		texts = append(texts, []V{p})
	}
	p := newPair(c)
	kind := "value"
	for i, t := range texts {
		src := joinSrc(c, t)
		r := p.step(t, src)
		if r.unsure {
			c.Inconclusive(r.ref.tag)
			kind = "unsure"
			break
		}
		if r.bad != "" {
			reportDiff(c, "differs", texts[:i+1], true, r.bad)
			return
		}
		if i == 0 {
			c.Nontrivial(r.ref.String() + "|" + joinSrc(nil, t))
		}
		c.Count("effects_compared", int64(len(p.rec.log)))
		if r.ref.kind == "error" {
			kind = "error"
			c.Count("errors_compared", 1)
			if os.Getenv("ZMON_ERRSTAT") != "" {
				m := r.lib.Err
				if len(m) > 60 {
					m = m[len(m)-60:]
				}
				c.Count("E "+m, 1)
			}
			if r.ref.tag != "" {
				c.Count("errors_compared_by_text", 1)
			}
			break
		}
	}
	c.Count("programs_ending_in_"+kind, 1)
	p.observe()
	if c.Idx%2000 < 2 {
		c.Sample(joinSrc(nil, forms))
	}
}

func init() {
	register(&Prop{
		ID:          "C02",
		Rule:        "type-directed random programs over the whole core language (nested scopes over ten names, closures, loops with labelled exits, recursion, map/apply/eval, planted errors of many kinds) are evaluated by the library and by an independent reference evaluator, as one text or several; the monitor compares value, error and every effect in order; non-trivial programs differ in text or result",
		N:           func(t string) int { return tierN(t, 80000, 3000000) },
		Run:         c02Case,
		MinDistinct: func(t string) int { return 40000 },
		Assumptions: []string{
			"right-hand sides of let are evaluated inside the new scope before it binds anything",
			"programs whose meaning the reference does not fix (a let binding one name twice, break inside the control vector of for, arithmetic on chars, and such) are generated rarely and counted as inconclusive",
		},
	})
}

func tierN(t string, quick, thorough int) int {
	if t == "thorough" {
		return thorough
	}
	return quick
}
