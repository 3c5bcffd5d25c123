package main

// C05: a failing evaluation returns an error, leaves the VM at rest and keeps
// what ran before it; later evaluations behave as if only that part had been
// evaluated.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

// c05core: core programs with planted errors against the reference, going on
// after every error.
func c05core(c *Ctx) {
	prof := gprofile{loops: true, ops: true, full: true, closures: c.chance(1, 3), lazies: c.chance(1, 3), maxDepth: 3 + c.intn(4), errs: 10 + c.intn(50)}
	g := newGen(c, prof, 40+c.intn(150))
	forms := g.program(3 + c.intn(8))
	texts := c02Texts(c, forms)
	for _, p := range g.probes() {
		texts = append(texts, []V{p})
	}
	p := newPair(c)
	failures := 0
	for i, t := range texts {
		src := joinSrc(c, t)
		if c.chance(1, 6) {
			if b := c05unreadable(c, p); b != "" {
				c.Violate("parse-error", "%s\nafter:\n%s", b, strings.Join(p.src, "\n--\n"))
				return
			}
			failures++
		}
		r := p.step(t, src)
		if r.unsure {
			c.Inconclusive(r.ref.tag)
			return
		}
		if r.bad != "" {
			reportDiff(c, "differs", texts[:i+1], false, r.bad)
			return
		}
		if b := atRest(p.env); b != "" {
			c.Violate("rest", "%s\nafter (%s):\n%s", b, r.ref, strings.Join(p.src, "\n--\n"))
			return
		}
		c.Count("evaluations_seen_at_rest", 1)
		if r.ref.kind == "error" {
			failures++
			c.Count("errors_compared", 1)
		} else if failures > 0 {
			c.Count("results_compared_after_an_error", 1)
		}
		c.Count("effects_compared", int64(len(p.rec.log)))
	}
	if failures > 0 {
		c.Nontrivial(strings.Join(p.src, "\n"))
	}
	p.observe()
	if c.Idx%2000 < 2 {
		c.Sample(strings.Join(p.src, "\n"))
	}
}

var unreadable = []string{"(", ")", "[", "]", "}", "{", "(emit 1", "(emit 1))", "\"abc", "`abc", "'a", "(emit 1) \"", "(emit 1) (emit [2)", "/* never closed", "(emit 1) @#$", "(emit [1 2)", "(emit {1)", "0x", "(emit 1) 08q", "(emit 1) '", "^", "~", "(~@)", "(emit (quote a", "(def v0 99) (def v1 98) ("}

// c05unreadable feeds text that cannot be read; nothing of it may run.
func c05unreadable(c *Ctx, p *pairRun) string {
	t := pick(c.Rng, unreadable)
	p.rec.log = nil
	c.Eval()
	o := evalStr(p.env, defaultBudget, t)
	p.src = append(p.src, t)
	if o.Kind != "error" {
		if o.Kind == "value" && !strings.ContainsAny(t, "([{\"`") {
			return ""
		}
		return fmt.Sprintf("unreadable text %q gives %s", t, cut(o.String()))
	}
	c.Count("unreadable_texts", 1)
	if len(p.rec.log) != 0 {
		return fmt.Sprintf("part of unreadable text %q was evaluated: %v", t, p.rec.log)
	}
	if b := atRest(p.env); b != "" {
		return fmt.Sprintf("after unreadable text %q: %s", t, b)
	}
	return ""
}

// failing expressions; $K is a number naming the boom.
var c05failures = []string{
	"(boom $K)", "(boom $K)", "(boom $K)", "(boom $K)", "(kaboom $K)", "(kaboom $K)",
	"noSuchName", "(noSuchFn 1)", "(f0)", "(f0 1 2)", "(+ 1 \"a\")", "(/ 1 0)", "(mod 1 0)", "(aget [1] 9)", "{arr0[77]}", "(hget (hash) a:)", "(first 3)", "(3 4)", "(assert false)",
	"(let [x] 1)", "(break)", "(continue nolabel:)", "(for [1 2] 3)", "(fn)", "(def a)", "(quote)", "(cond true)", "(and)", "(mdef q1 q2 (list 1))", "(mdef q1 q2 (list (boom $K) 2))",
	"(mac1)", "(macboom 1)", "(macbad 1)", "(macbad2 1)", "(mackaboom)", "(macexpand (macboom 1))", "(macnest 1)",
	"(eval (quote (boom $K)))", "(eval (list (quote boom) $K))", "(eval (read \"(let [x] 1)\"))", "(read \"(a\")", "(eval (quote (break)))", "(apply boom [$K])", "(apply f0 [])", "(map boom [$K])", "(map (fn [x] (cond (== x 2) (boom $K) x)) [1 2 3])", "(map (fn [x] (let [y x] (for [(def i 0) (< i 2) (set i (+ i 1))] (boom $K)))) (list 1 2))",
	"((fn [#z] (force #z)) (boom $K))", "((fn [#z] (let [a 1] (+ a (force #z)))) (let [b 2] (boom $K)))", "(f1 1 (boom $K))", "(+ (f1 1 (boom $K)) (boom 1))",
	"(struct Bad [3])", "(struct Bad2 [(field (boom $K): string)])", "(Truck Nope:3)", "(Truck Id:\"x\")", "{trk.Id = \"no\"}", "{trk.Nope = 3}", "(package \"pb\" (boom $K))", "(package \"pb\" {Aa := 1; (let [x 1] (boom $K))})", "hh.zz.q", "{hh.zz.q}", "{hh.a.q = 3}",
	"(expectError \"another\" (boom $K))", "(expectError \"x\" 3)", "(unjson (raw \"{\"))", "(str2sym 3)", "(sget \"abc\" 9)", "(append 3 4)", "(concat 1 2)", "(len 3)", "(slice [1 2] 1 9)", "(set nosuch 3)", "{nosuch2 += 1}", "(def g0 \"text\")",
	"(deepfail 30 $K)", "(letdeep 12 $K)", "(for [(def i 0) (< i 3) (set i (+ i 1))] (cond (== i 2) (boom $K) i))", "(for [(def i 0) (boom $K) (set i (+ i 1))] i)", "(for [(def i 0) (< i 3) (boom $K)] i)", "(for [(boom $K) (< i 3) (set i (+ i 1))] i)",
	"(for o1: [(def i 0) (< i 3) (set i (+ i 1))] (for o2: [(def j 0) (< j 3) (set j (+ j 1))] (let [q j] (newScope (boom $K)))))", "{for i := 0; i < 3; i++ { for j := range [1 2] { (boom $K) } }}", "(range k v (hash a:1) (boom $K))",
	"(let [a 1 b (boom $K)] a)", "(letseq [a 1 b (boom $K)] a)", "(newScope 1 (newScope (boom $K)))", "[1 (boom $K)]", "(list 1 2 (boom $K))", "(hash a:1 b:(boom $K))", "{1 + (boom $K) * 2}", "((boom $K) 1 2)", "(return (boom $K))", "(def bad$K (boom $K))", "{bad$K := (boom $K)}", "(begin (def x$K 1) (boom $K))",
	"(apply (fn [a & r] (map (fn [z] (apply boom [z])) r)) [1 $K 3])", "((fn [a] (a)) (fn [] (boom $K)))", "(include 3)", "(source \"nosuchfile.zy\")", "(togo 3)", "(_method (snoopy cry:\"x\") Nope:)", "(deref 3)", "(msgpack)", "^(a ~(boom $K))", "^(a ~@(boom $K))", "^[1 ~(boom $K)]", "(infixExpand {(})",
	"(mac2 (boom $K) 2)", "(mac3 v (boom $K))", "(macexpand (nosuchmac 1 (boom $K)))", "(interface Bad 3)", "(func bad [a:nosuchtype] [n:int64] 1)", "(method [p: 3] Foo [] [] 1)", "(var zz nosuchtype)", "(force (boom $K))", "(substitute (boom $K))", "(str2sym)", "(defined?)", "(makeArray -1)", "(getbad)", "(hset trk Nope: 3)", "(hset trk Id: \"s\")", "(infix [1 +])", "{1 +}", "{* 3}",
}

var c05prelude = []string{
	`(defmac macboom [x] (boom 77))`,
	`(defmac mackaboom [] (let [a 1] (for [(def i 0) (< i 2) (set i (+ i 1))] (kaboom 78))))`,
	`(defmac macbad [x] ^(let [~x] 1))`,
	`(defmac macbad2 [x] ^(for [1 2] (break nolabel:)))`,
	`(defmac macnest [x] ^(begin (emit 1) (let [y ~x] (macboom ~x))))`,
	`(defn deepfail [n k] (cond (<= n 0) (boom k) (let [m n] (+ 1 (deepfail (- m 1) k)))))`,
	`(defn letdeep [n k] (for [(def i 0) (< i 2) (set i (+ i 1))] (newScope (def z i) (cond (<= n 0) (boom k) (apply letdeep (list (- n 1) k))))))`,
	`(def trk (Truck Id:7 Name:"t"))`,
	`(def lateboom (fn [#z] (fn [] (force #z))))`, `(def getbad (lateboom (boom 55)))`,
}

// c05env is a construct interpreter in which booms are counted.
type c05env struct {
	env   *zygo.Zlisp
	rec   recorder
	booms []string
}

func newC05env() *c05env {
	e := &c05env{}
	e.env = newConstructEnv(&e.rec)
	boom := func(name string, args []zygo.Sexp) string {
		n := int64(0)
		if len(args) == 1 {
			if i, ok := args[0].(*zygo.SexpInt); ok {
				n = i.Val
			}
		}
		s := fmt.Sprintf("%s%d!", name, n)
		e.booms = append(e.booms, s)
		return s
	}
	e.env.AddFunction("boom", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		return zygo.SexpNull, fmt.Errorf("%s", boom("boom", args))
	})
	e.env.AddFunction("kaboom", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		panic(boom("kaboom", args))
	})
	for _, s := range c05prelude {
		if o := evalStr(e.env, defaultBudget, s); !o.ok() {
			panic(fmt.Sprintf("prelude %s: %v", s, o))
		}
	}
	e.rec.log, e.booms = nil, nil
	return e
}

// run evaluates text through one of the entry points.
func (e *c05env) run(c *Ctx, way int, text string, budget int64) Outcome {
	c.Eval()
	env := e.env
	switch way {
	case 1:
		return guard(budget, func() (zygo.Sexp, error) {
			if err := env.LoadString(text); err != nil {
				return nil, err
			}
			return env.Run()
		})
	case 2:
		xs, err := parseAll(env, text)
		if err != nil {
			return Outcome{Kind: "error", Err: err.Error()}
		}
		return guard(budget, func() (zygo.Sexp, error) { return env.EvalExpressions(xs) })
	case 3:
		return guard(budget, func() (zygo.Sexp, error) {
			if err := env.LoadStream(strings.NewReader(text)); err != nil {
				return nil, err
			}
			return env.Run()
		})
	case 4:
		f := filepath.Join(os.TempDir(), fmt.Sprintf("c05-%d.zy", os.Getpid()))
		os.WriteFile(f, []byte(text), 0600)
		defer os.Remove(f)
		return guard(budget, func() (zygo.Sexp, error) {
			fh, err := os.Open(f)
			if err != nil {
				return nil, err
			}
			defer fh.Close()
			if err := env.LoadFile(fh); err != nil {
				return nil, err
			}
			return env.Run()
		})
	case 5:
		// from inside a file that is sourced
		f := filepath.Join(os.TempDir(), fmt.Sprintf("c05-%d.zy", os.Getpid()))
		os.WriteFile(f, []byte(text), 0600)
		defer os.Remove(f)
		env.AddFunction("realsource", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
			return zygo.SourceFileFunction(env, name, args)
		})
		return evalStr(env, budget, fmt.Sprintf("(realsource %q)", f))
	case 6:
		// the host calls a function of the program
		o := evalStr(env, budget, "(fn [] "+text+")")
		if fn, ok := o.Val.(*zygo.SexpFunction); o.ok() && ok {
			return guard(budget, func() (zygo.Sexp, error) { return env.Apply(fn, nil) })
		}
		return o
	}
	return evalStr(env, budget, text)
}

var c05ways = []string{"EvalString", "LoadString, Run", "EvalExpressions", "LoadStream, Run", "LoadFile, Run", "source", "Apply"}

var genName = regexp.MustCompile(`__(gensym|anon|[a-zA-Z]+_gensym)[0-9]+`)

func normErr(s string) string {
	s = genName.ReplaceAllString(s, "__g")
	return s
}

// failText makes a text that should fail somewhere.
func c05failText(c *Ctx, g *congen, k int) (text, fail string) {
	fail = strings.ReplaceAll(pick(c.Rng, c05failures), "$K", fmt.Sprint(k))
	f := fail
	for d := c.intn(4); d > 0; d-- {
		switch c.intn(3) {
		case 0:
			// in a hole of a construct
			for try := 0; try < 8; try++ {
				t := pick(c.Rng, constructs)
				var holes []int
				for i := 0; i+1 < len(t); i++ {
					if t[i] == '$' && (t[i+1] == 'I' || t[i+1] == 'F' || t[i+1] == 'S') {
						holes = append(holes, i)
					}
				}
				if len(holes) == 0 {
					continue
				}
				h := pick(c.Rng, holes)
				g.big = 0
				t = g.expand(t[:h]+"\x00"+t[h+2:], c.intn(2))
				f = strings.ReplaceAll(t, "\x00", f)
				break
			}
		default:
			f = strings.ReplaceAll(pick(c.Rng, formContexts), "%s", f)
		}
	}
	return f, fail
}

// texts whose meaning would change if something were left behind
var c05sensitive = []string{
	"(break)", "(continue)", "(break outer:)", "(continue o1:)", "i", "j", "z", "a", "x", "#z", "(force #z)", "(begin)", "", "()", "(let [q 1] q)", "(return 5)", "(for [(def i 0) (< i 2) (set i (+ i 1))] (emit i))",
	"(eval (quote i))", "(defined? (quote i))", "(map f0 [1 2])", "(apply f0 [1])", "((fn [& r] r) 1 2)", "(letseq [a 1 b a] (list a b))", "(for o1: [(def i 0) (< i 3) (set i (+ i 1))] (cond (== i 1) (break o1:) (emit i)))",
	"{for i := 0; i < 3; i++ { if i == 1 { continue }; (emit i) }}", "(+ 1 2)", "(defn rr [n] (cond (<= n 0) 0 (rr (- n 1)))) (rr 50)", "(mac1 4)", "trk", "trk.Id", "hh", "hh.b.c", "arr0", "g0", "(f0 1)", "(f1 1 (emit 3))", "(snoopy cry:\"q\")",
	"(let [i 1 j 2] (set i 3) (list i j))", "(package \"ctx\" {A := 1})", "Aa", "bb", "(Truck Id:3)", "(getbad)", "(expectError \"Error calling 'boom': boom9!\" (boom 9))",
}

// c05twin: an interpreter that sees failing texts between the others must
// treat the others as one that does not.
func c05twin(c *Ctx) {
	g := &congen{c: c}
	a, b := newC05env(), newC05env()
	var hist []string
	n := 3 + c.intn(6)
	sig := ""
	complain := func(s, f string, args ...interface{}) {
		sig = s
		c.Violate(s, "%s\ntexts so far:\n%s", fmt.Sprintf(f, args...), strings.Join(hist, "\n--\n"))
	}
	fails := 0
	for i := 0; i < n && sig == ""; i++ {
		// failing texts, in a only
		for k := 0; k < 1+c.intn(2); k++ {
			text, fail := c05failText(c, g, i*10+k)
			way := 0
			if c.chance(1, 2) {
				way = c.intn(len(c05ways))
			}
			keep := ""
			if c.chance(1, 2) && way != 6 {
				keep = fmt.Sprintf("keep%d%d", i, k)
				text = fmt.Sprintf("(def %s %d) (defn fn%s [] (+ %s 1))\n%s\n(def %s -1)", keep, 700+i, keep, keep, text, keep)
			}
			budget := int64(defaultBudget)
			inject := c.chance(1, 4)
			if inject {
				// fail at an arbitrary instruction
				budget = int64(1 + c.intn(c.intn(400)+1))
			}
			a.rec.log, a.booms = nil, nil
			o := a.run(c, way, text, budget)
			if stepMon.exhausted && !inject {
				c.Inconclusive("budget")
				return
			}
			hist = append(hist, fmt.Sprintf("[%s, budget %d] %s\n   => %s", c05ways[way], budget, text, cut(normErr(o.String()))))
			switch o.Kind {
			case "panic":
				complain("panic-"+panicSite(o.Err), "a failing text panics: %s", cut(o.Err))
				return
			case "value":
				if len(a.booms) > 0 && !strings.Contains(text, "expectError") {
					complain("swallowed", "the error %s was raised, but the text gave a value: %s", a.booms[0], cut(o.String()))
					return
				}
				c.Count("failing_texts_that_did_not_fail", 1)
			case "budget":
				fails++
				c.Count("faults_injected_at_an_instruction", 1)
			case "error":
				fails++
				c.Count("errors_raised", 1)
				if len(a.booms) > 0 && !strings.Contains(text, "expectError") && !strings.Contains(o.Err, a.booms[0]) {
					complain("wrong-error", "the error %s was raised first, but the text failed with %s", a.booms[0], cut(o.Err))
					return
				}
			}
			if r := atRest(a.env); r != "" {
				complain("rest", "after the last text: %s", r)
				return
			}
			if keep != "" && o.Kind == "error" {
				// did the definitions before the failure run?
				want := fmt.Sprint(700 + i)
				v := evalStr(a.env, defaultBudget, keep)
				fv := evalStr(a.env, defaultBudget, "(fn"+keep+")")
				if len(a.booms) > 0 && !strings.Contains(text, "mac") {
					if v.String() != want || fv.String() != fmt.Sprint(701+i) {
						complain("definition-lost", "%s was defined before the failure, afterwards it is %s and (fn%s) is %s", keep, cut(v.String()), keep, cut(fv.String()))
						return
					}
					c.Count("definitions_checked", 2)
				} else if v.ok() && v.String() != want {
					complain("went-on", "%s, defined before the failure, is %s", keep, cut(v.String()))
					return
				}
			}
			_ = fail
		}
		// other texts, in both
		for k := 0; k < 1+c.intn(3); k++ {
			var text string
			if c.chance(1, 2) {
				text = pick(c.Rng, c05sensitive)
			} else {
				g.big = 0
				text = strings.ReplaceAll(pick(c.Rng, formContexts), "%s", g.form(c.intn(3)))
			}
			way := 0
			if c.chance(1, 3) {
				way = c.intn(len(c05ways))
			}
			a.rec.log, b.rec.log = nil, nil
			oa := a.run(c, way, text, defaultBudget)
			ob := b.run(c, way, text, defaultBudget)
			hist = append(hist, fmt.Sprintf("[%s] %s", c05ways[way], text))
			if oa.Kind == "panic" {
				complain("panic-"+panicSite(oa.Err), "%s", cut(oa.Err))
				return
			}
			sa, sb := normErr(oa.String()), normErr(ob.String())
			if sa != sb {
				complain("later", "after failures, the last text gives %s\nwithout them %s", cut(sa), cut(sb))
				return
			}
			if la, lb := strings.Join(a.rec.log, "\n"), strings.Join(b.rec.log, "\n"); la != lb {
				complain("later", "after failures, the last text has effects\n%s\nwithout them\n%s", cut(la), cut(lb))
				return
			}
			if r := atRest(a.env); r != "" {
				complain("rest", "after the last text: %s", r)
				return
			}
			c.Count("twin_results_compared", 1)
		}
	}
	if fails > 0 {
		c.Nontrivial(strings.Join(hist, "\n"))
	}
	if c.Idx%2000 < 2 {
		c.Sample(strings.Join(hist, "\n"))
	}
}

// c05inject stops one evaluation at every instruction in turn.
func c05inject(c *Ctx) {
	g := &congen{c: c}
	text := strings.ReplaceAll(pick(c.Rng, formContexts), "%s", g.form(1+c.intn(2)))
	probe := "(list g0 arr0 hh trk (f0 1) (f1 1 (emit 3)) (mac1 3) (let [x 1] (for [(def i 0) (< i 2) (set i (+ i 1))] (emit i)) x))"
	b := newC05env()
	whole := b.run(c, 0, text, defaultBudget)
	steps := stepMon.steps
	want := normErr(b.run(c, 0, probe, defaultBudget).String())
	if whole.Kind != "value" || steps > 3000 {
		c.Count("injection_texts_left_out", 1)
		return
	}
	a := newC05env()
	stride := 1 + steps/60
	for k := 1 + int64(c.intn(int(stride))); k < steps; k += stride {
		o := a.run(c, 0, text, k)
		if o.Kind == "panic" {
			c.Violate("panic-"+panicSite(o.Err), "stopped at instruction %d of %d: %s\n%s", k, steps, cut(o.Err), text)
			return
		}
		if o.Kind != "budget" {
			// compile-time evaluations may need fewer steps the second time
			c.Count("injections_without_effect", 1)
			continue
		}
		c.Count("faults_injected_at_an_instruction", 1)
		if r := atRest(a.env); r != "" {
			c.Violate("rest", "stopped at instruction %d of %d: %s\n%s", k, steps, r, text)
			return
		}
		if got := normErr(a.run(c, 0, probe, defaultBudget).String()); got != want {
			c.Violate("later", "stopped at instruction %d of %d, later %s\nwithout that %s\n%s", k, steps, cut(got), cut(want), text)
			return
		}
	}
	c.Nontrivial("inject " + text)
}

// c05repl: a session at the prompt with failing lines in between must show the
// same results as one without them.
func c05repl(c *Ctx, bin string) {
	g := &congen{c: c}
	var with, without bytes.Buffer
	var fails []string
	n := 12
	for i := 0; i < n; i++ {
		for k := 0; k < 1+c.intn(2); k++ {
			f := strings.ReplaceAll(pick(c.Rng, c05failures), "$K", "5")
			if strings.Contains(f, "//") || strings.Contains(f, "\n") {
				continue
			}
			if c.chance(1, 2) {
				f = strings.ReplaceAll(pick(c.Rng, formContexts), "%s", f)
			}
			if c.chance(1, 5) {
				f = pick(c.Rng, []string{")", "]", "}", "(a ]", "(emit 1))", "@#$"})
			}
			fails = append(fails, f)
			with.WriteString(strings.ReplaceAll(f, "\n", " ") + "\n")
		}
		t := "(f0 1)"
		if c.chance(1, 2) {
			t = pick(c.Rng, c05sensitive)
			if t == "" {
				t = "3"
			}
		} else {
			t = g.intExpr()
		}
		line := fmt.Sprintf("(printf \"%%s\\n\" (concat \"<<%d \" (str (quote begun)) \">>\"))\n%s\n(printf \"%%s\\n\" (concat \"<<%d ended>>\"))\n", i, strings.ReplaceAll(t, "\n", " "), i)
		with.WriteString(line)
		without.WriteString(line)
	}
	prelude := "(defn boom [k] (aget [1 2] 5000))\n(defn kaboom [k] (aget [1 2] 5000))\n(defn emit [& r] (begin (printf \"%v\\n\" (str r)) 1))\n" + strings.ReplaceAll(strings.Join(constructPrelude, "\n")+"\n"+strings.Join(c05prelude, "\n"), "(force #z)", "(force #z)") + "\n"
	session := func(in string) []string {
		c.Eval()
		cmd := exec.Command(bin, "-no-liner", "-quiet")
		cmd.Stdin = strings.NewReader(prelude + in)
		cmd.Dir = os.TempDir()
		var out bytes.Buffer
		cmd.Stdout = &out
		cmd.Stderr = &out
		t := time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
		cmd.Run()
		t.Stop()
		var got []string
		on := false
		for _, l := range strings.Split(out.String(), "\n") {
			i := strings.Index(l, "<<")
			if i >= 0 && strings.Contains(l, ">>") {
				on = strings.Contains(l, "begun")
				got = append(got, l[i:])
				continue
			}
			if on {
				got = append(got, normErr(l))
			}
		}
		return got
	}
	a, b := session(with.String()), session(without.String())
	c.Count("repl_sessions_compared", 1)
	c.Count("repl_lines_compared", int64(len(b)))
	c.Nontrivial(with.String())
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(nothing)", "(nothing)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			c.Violate("repl", "line %d after failures: %s\nwithout: %s\nfed:\n%s", i, cut(x), cut(y), prelude+with.String())
			return
		}
	}
	if len(b) < 2*n {
		c.Inconclusive("the session without failures ended early")
	}
}

func c05Case(c *Ctx, idx int) {
	switch {
	case idx < tierN(c.Tier, 24, 400) && os.Getenv("ZYGO_BIN") != "":
		c05repl(c, os.Getenv("ZYGO_BIN"))
	case idx%4 == 0:
		c05inject(c)
	case idx%2 == 0:
		c05core(c)
	default:
		c05twin(c)
	}
}

func init() {
	register(&Prop{
		ID:          "C05",
		Rule:        "failing texts and working texts alternate. Core programs with planted errors run against the reference evaluator, which carries on from what ran before each error; construct sequences run in an interpreter that also sees failing texts (errors, panicking builtins, compile, macro and read errors, faults injected by the monitor at an arbitrary VM instruction, through seven entry points) and in a twin that does not: values, error texts and effects of the working texts must agree, VM stacks must be at rest after every evaluation, raised errors must reach the caller, definitions made before the failure must hold; non-trivial sequences differ in text",
		N:           func(t string) int { return tierN(t, 16000, 600000) },
		Run:         c05Case,
		MinDistinct: func(t string) int { return 8000 },
		Assumptions: []string{"working texts of a twin sequence use names of their own, so they cannot see what a failing text defined before it failed", "generated symbol numbers are not compared"},
	})
}
