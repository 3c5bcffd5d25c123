package main

// C04: after every evaluation that returns a value the VM stacks are back
// where they were, empty input is nil, forms evaluated together and one at a
// time (through every entry point) agree, and repeating an evaluation does not
// make the interpreter grow.

import (
	"fmt"
	"runtime"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// atRest complains if the interpreter is not as a fresh one.
func atRest(env *zygo.Zlisp) string {
	d, s, a, l, ok := vmDepths(env)
	if ok && (d != 0 || s != 1 || a != 0 || l != 0) {
		return fmt.Sprintf("data %d, scopes %d, calls %d, loops %d (at rest: 0, 1, 0, 0)", d, s, a, l)
	}
	return ""
}

// gensymNo tells how many symbols the interpreter has made so far.
func gensymNo(env *zygo.Zlisp) int {
	n := -1
	o := evalStr(env, defaultBudget, "(gensym)")
	if o.ok() {
		if s, ok := o.Val.(*zygo.SexpSymbol); ok {
			fmt.Sscanf(strings.TrimPrefix(s.Name(), "__gensym"), "%d", &n)
		}
	}
	return n
}

// parseAll reads all of text as expressions.
func parseAll(env *zygo.Zlisp, text string) (xs []zygo.Sexp, err error) {
	o := guard(defaultBudget, func() (zygo.Sexp, error) {
		p := env.NewParser()
		p.ResetAddNewInput(strings.NewReader(text))
		var e error
		xs, e = p.ParseTokens()
		return zygo.SexpNull, e
	})
	if !o.ok() {
		return nil, fmt.Errorf("%s", o)
	}
	return xs, nil
}

// c04ways are the ways to evaluate a list of texts.
var c04ways = []string{"EvalString each", "EvalString all", "LoadString each, Run each", "LoadString each, Run once", "EvalExpressions each", "EvalExpressions all", "EvalExpressions one form at a time", "pairs"}

// c04run evaluates texts in one of the ways; returns last outcome, effects,
// complaint about the state at rest.
func c04run(c *Ctx, way int, texts []string) (last Outcome, log []string, bad string) {
	var rec recorder
	env := newConstructEnv(&rec)
	each := func(f func(t string) Outcome, texts []string) {
		for _, t := range texts {
			c.Eval()
			last = f(t)
			if !last.ok() {
				return
			}
			if b := atRest(env); b != "" {
				bad = "after " + t + ": " + b
				return
			}
			c.Count("evaluations_seen_at_rest", 1)
		}
	}
	exprs := func(t string) Outcome {
		xs, err := parseAll(env, t)
		if err != nil {
			return Outcome{Kind: "error", Err: err.Error()}
		}
		return guard(defaultBudget, func() (zygo.Sexp, error) { return env.EvalExpressions(xs) })
	}
	str := func(t string) Outcome { return evalStr(env, defaultBudget, t) }
	all := strings.Join(texts, "\n")
	switch way {
	case 0:
		each(str, texts)
	case 1:
		each(str, []string{all})
	case 2:
		each(func(t string) Outcome {
			return guard(defaultBudget, func() (zygo.Sexp, error) {
				if err := env.LoadString(t); err != nil {
					return nil, err
				}
				return env.Run()
			})
		}, texts)
	case 3:
		each(func(t string) Outcome {
			return guard(defaultBudget, func() (zygo.Sexp, error) {
				for _, t := range texts {
					if err := env.LoadString(t); err != nil {
						return nil, err
					}
				}
				return env.Run()
			})
		}, []string{all})
	case 4:
		each(exprs, texts)
	case 5:
		each(exprs, []string{all})
	case 6:
		for _, t := range texts {
			xs, err := parseAll(env, t)
			if err != nil {
				last = Outcome{Kind: "error", Err: err.Error()}
				break
			}
			for _, x := range xs {
				c.Eval()
				x := x
				last = guard(defaultBudget, func() (zygo.Sexp, error) { return env.EvalExpressions([]zygo.Sexp{x}) })
				if !last.ok() {
					break
				}
				if b := atRest(env); b != "" {
					return last, rec.log, "after " + x.SexpString(nil) + ": " + b
				}
			}
			if !last.ok() {
				break
			}
		}
	case 7:
		var two []string
		for i := 0; i < len(texts); i += 2 {
			two = append(two, strings.Join(texts[i:min(i+2, len(texts))], " "))
		}
		each(str, two)
	}
	if bad == "" && last.ok() {
		bad = c04empty(c, env)
	}
	return last, rec.log, bad
}

var emptyTexts = []string{"", " ", "\n\n", "// comment", "// comment\n", "/* c */", "\t", "  // a\n  // b\n", "/* a\n b */ // c\n", "// (+ 1 2)", "\r\n", "/**/", "//"}

// c04empty checks that empty input is nil whatever came before.
func c04empty(c *Ctx, env *zygo.Zlisp) string {
	t := pick(c.Rng, emptyTexts)
	var o Outcome
	how := "EvalString"
	switch c.intn(5) {
	case 0, 1:
		o = evalStr(env, defaultBudget, t)
	case 2:
		how = "LoadString+Run"
		o = guard(defaultBudget, func() (zygo.Sexp, error) {
			if err := env.LoadString(t); err != nil {
				return nil, err
			}
			return env.Run()
		})
	case 3:
		how, t = "EvalExpressions", "nil"
		o = guard(defaultBudget, func() (zygo.Sexp, error) { return env.EvalExpressions(nil) })
	case 4:
		how, t = "Run", ""
		o = guard(defaultBudget, func() (zygo.Sexp, error) { return env.Run() })
	}
	c.Count("empty_inputs", 1)
	if s := o.String(); s != "nil" {
		return fmt.Sprintf("%s of empty input %q gives %s, not nil", how, t, cut(s))
	}
	if b := atRest(env); b != "" {
		return fmt.Sprintf("after %s of empty input %q: %s", how, t, b)
	}
	return ""
}

// c04together compares the ways.
func c04together(c *Ctx) {
	g := &congen{c: c}
	var texts []string
	n := 1 + c.intn(6)
	for i := 0; i < n; i++ {
		g.big = 0
		texts = append(texts, strings.ReplaceAll(pick(c.Rng, formContexts), "%s", g.form(c.intn(3))))
	}
	// forms that fail are left out: this property is about success
	var rec recorder
	env := newConstructEnv(&rec)
	good := texts[:0:0]
	var outs []Outcome
	for _, t := range texts {
		c.Eval()
		o := evalStr(env, defaultBudget, t)
		switch {
		case o.ok():
			good = append(good, t)
			outs = append(outs, o)
			if b := atRest(env); b != "" {
				c.Violate("rest", "%s\nafter:\n%s", b, strings.Join(good, "\n"))
				return
			}
		case o.Kind == "budget":
			c.Inconclusive("budget")
			return
		default:
			c.Count("forms_left_out", 1)
			// what a failing form did before it failed would be missing
			// from the other runs
			env = newConstructEnv(&rec)
			for _, t := range good {
				evalStr(env, defaultBudget, t)
			}
		}
	}
	if len(good) == 0 {
		return
	}
	ref, reflog, bad := c04run(c, 0, good)
	if bad != "" {
		c.Violate("rest", "%s: %s\ntexts:\n%s", c04ways[0], bad, strings.Join(good, "\n--\n"))
		return
	}
	c.Nontrivial(strings.Join(good, "\n"))
	want := ref.String()
	for _, way := range []int{1 + c.intn(3), 4 + c.intn(4)} {
		o, log, bad := c04run(c, way, good)
		if bad != "" {
			c.Violate("rest", "%s: %s\ntexts:\n%s", c04ways[way], bad, strings.Join(good, "\n--\n"))
			return
		}
		c.Count("ways_compared", 1)
		c.Count("effects_compared", int64(len(log)))
		if got := o.String(); got != want {
			c.Violate("together", "%s gives %s\n%s gives %s\ntexts:\n%s", c04ways[0], cut(want), c04ways[way], cut(got), strings.Join(good, "\n--\n"))
			return
		}
		if a, b := strings.Join(reflog, "\n"), strings.Join(log, "\n"); a != b {
			c.Violate("together", "effects differ\n%s:\n%s\n%s:\n%s\ntexts:\n%s", c04ways[0], cut(a), c04ways[way], cut(b), strings.Join(good, "\n--\n"))
			return
		}
	}
	c.Count("forms_compared", int64(len(good)))
	if c.Idx%1000 < 2 {
		c.Sample(strings.Join(good, "\n"))
	}
}

// c04core: programs of the core language against the reference, in pieces and
// whole, with the state at rest and empty inputs checked in between.
func c04core(c *Ctx) {
	prof := gprofile{loops: true, ops: true, full: true, closures: c.chance(1, 3), lazies: c.chance(1, 3), maxDepth: 3 + c.intn(4)}
	g := newGen(c, prof, 60+c.intn(150))
	forms := g.program(2 + c.intn(6))
	texts := c02Texts(c, forms)
	p := newPair(c)
	for i, t := range texts {
		r := p.step(t, joinSrc(c, t))
		if r.unsure {
			c.Inconclusive(r.ref.tag)
			return
		}
		if r.bad != "" {
			reportDiff(c, "differs", texts[:i+1], true, r.bad)
			return
		}
		if r.ref.kind != "value" {
			return
		}
		if b := atRest(p.env); b != "" {
			c.Violate("rest", "%s\nafter:\n%s", b, strings.Join(p.src, "\n--\n"))
			return
		}
		c.Count("evaluations_seen_at_rest", 1)
		if c.chance(1, 3) {
			if b := c04empty(c, p.env); b != "" {
				c.Violate("empty", "%s\nafter:\n%s", b, strings.Join(p.src, "\n--\n"))
				return
			}
		}
	}
	if c.chance(1, 2) {
		// repeat the last text: code and symbols must not accumulate
		last := p.src[len(p.src)-1]
		if o := evalStr(p.env, defaultBudget, last); !o.ok() {
			return
		}
		n1 := gensymNo(p.env)
		k1, _ := vmCodeSize(p.env)
		if o := evalStr(p.env, defaultBudget, last); !o.ok() {
			return
		}
		n2 := gensymNo(p.env)
		k2, _ := vmCodeSize(p.env)
		c.Count("repeats_compared", 1)
		if n1 >= 0 && n2 != n1+1 {
			c.Violate("symbols", "repeating an evaluation adds %d symbols each time\ntext:\n%s", n2-n1-1, last)
		}
		if k2 != k1 {
			c.Violate("code", "repeating an evaluation grows the main program from %d to %d instructions\ntext:\n%s", k1, k2, last)
		}
	}
	p.observe()
	c.Nontrivial(strings.Join(p.src, "\n"))
}

func heapObjs() (int64, int64) {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), int64(m.HeapObjects)
}

// heapGrowth evaluates src n times and returns bytes and objects kept per
// evaluation.
func heapGrowth(env *zygo.Zlisp, src string, warm, n int) (float64, float64) {
	for i := 0; i < warm; i++ {
		env.EvalString(src)
	}
	b0, o0 := heapObjs()
	for i := 0; i < n; i++ {
		env.EvalString(src)
	}
	b1, o1 := heapObjs()
	return float64(b1-b0) / float64(n), float64(o1-o0) / float64(n)
}

// c04grow: the live heap after thousands of repetitions of one text.
func c04grow(c *Ctx, t string) {
	g := &congen{c: c}
	src := g.expand(t, c.intn(2))
	var rec recorder
	env := newConstructEnv(&rec)
	env.AddFunction("emit", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		return args[len(args)-1], nil
	})
	c.Eval()
	if o := evalStr(env, defaultBudget, src); !o.ok() || strings.Contains(src, "(printf") || strings.Contains(src, "println") || strings.Contains(src, "_method") {
		c.Count("growth_texts_left_out", 1)
		return
	}
	if o := evalStr(env, defaultBudget, src); !o.ok() {
		c.Count("growth_texts_left_out", 1)
		return
	}
	n := 400
	b, o := heapGrowth(env, src, 50, n)
	for try := 0; try < 3 && (b > 24 || o > 0.2); try++ {
		n *= 2
		b, o = heapGrowth(env, src, 100, n)
	}
	c.Count("growth_evaluations", int64(n))
	c.Count("growth_texts", 1)
	c.Nontrivial("grow " + src)
	if b > 24 || o > 0.2 {
		c.Violate("grows", "every evaluation keeps %.1f bytes in %.2f objects\ntext:\n%s", b, o, src)
	}
	n1 := gensymNo(env)
	evalStr(env, defaultBudget, src)
	n2 := gensymNo(env)
	if n1 >= 0 && n2 != n1+1 && !strings.Contains(src, "gensym") {
		c.Violate("symbols", "every evaluation adds %d symbols\ntext:\n%s", n2-n1-1, src)
	}
}

// c04unit: forms of one text are compiled before the first of them runs.
func c04unit(c *Ctx) {
	for _, k := range []struct{ name, a, b string }{
		{"macro-uses-function", "(defn gg [] 3)", "(defmac mm [] (gg))\n(mm)"},
	} {
		one := newFull()
		evalStr(one, defaultBudget, k.a)
		o1 := evalStr(one, defaultBudget, k.b)
		o2 := evalStr(newFull(), defaultBudget, k.a+"\n"+k.b)
		c.Eval()
		if o1.String() != o2.String() {
			c.Violate("unit-"+k.name, "one at a time: %s; together: %s\n%s\n%s", o1, o2, k.a, k.b)
		}
	}
}

func c04Case(c *Ctx, idx int) {
	ng := len(constructs)
	reps := tierN(c.Tier, 1, 6)
	switch {
	case idx == 0:
		c04unit(c)
	case idx <= ng*reps:
		c04grow(c, constructs[(idx-1)%ng])
	case idx%2 == 0:
		c04together(c)
	default:
		c04core(c)
	}
}

func init() {
	register(&Prop{
		ID:          "C04",
		Rule:        "random sequences of about 170 constructs of the language nested in each other and in 30 contexts are evaluated through eight combinations of entry points and groupings (values and effects must agree, VM stack depths must be at rest after every success); random core programs against the reference with depths and empty inputs checked between texts; repeating a text must not add symbols, main program code or live heap; non-trivial cases differ in text",
		N:           func(t string) int { return tierN(t, 14000, 500000) },
		Run:         c04Case,
		MinDistinct: func(t string) int { return 8000 },
		Assumptions: []string{"forms that fail are outside this property and are left out of a sequence", "live heap is judged over at least 3200 evaluations when it seems to grow: more than 24 bytes or 0.2 objects kept per evaluation is growth"},
	})
	probes["grow"] = func(a []string) {
		for _, s := range a {
			env := newFull()
			b, o := heapGrowth(env, s, 500, 3000)
			fmt.Printf("%-60s bytes/eval %.2f  objects/eval %.3f  err %v\n", s, b, o, evalStr(env, 100000, s))
		}
	}
}
