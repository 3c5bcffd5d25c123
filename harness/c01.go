package main

// C01: whatever text, bytes or data an interpreter is given, through whatever
// entry, the call comes back with a value or an error. Every library call here
// runs under a recover that reports the panic with its site; a worker that
// dies (fatal error, stack overflow, exit, signal) or stops counting steps is
// noticed by the supervisor, which names the text announced last.

import (
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

const c01budget = 20_000

// what can not come back for a reason of its own: channels and sleeping block,
// and an array of any size asked for is made.
var c01skip = map[string]bool{"send": true, "<!": true, "makeChan": true, "makeArray": true, "sleep": true, "timeit": true}

var c01 struct {
	names []string
	cur   *os.File
	null  *os.File
	dir   string
	deep  []c01deepShape
}

var c01alphabet = []string{
	"(", ")", "[", "]", "{", "}", "'", "\"", "`", "~", "~@", "^", "%", ";", ",", ".", ":", "=", ":=", "==", "+", "-", "*", "/", "**", "++", "+=", "->", "<-", "&", "!", "?", "#", "$", "@", "|", "\\", "//", "/*", "*/", "\n",
	"0", "1", "0x", "1e", "2.5", "'a'", "\"s\"", "x", "wa", "wh", "car1", "car1.Id", "a.b", ".x", "x.", "a:", "nil", "for", "if", "else", "def", "fn", "defn", "let", "cond", "and", "or", "not", "quote", "infix", "range", "break", "continue", "func", "return", "set", "struct", "package", "var", "import", "defmac", "macexpand", "wm", "map", "hash", "apply", "true", "mod", "begin", "assert", "eval",
}

// the shorter alphabet is for the longer sequences
var c01short = []string{"(", ")", "[", "]", "{", "}", "~", "^", "%", ",", ".", ":", ":=", "=", "+", "-", "*", "->", "&", "!", "1", "x", "a.b", "a:", "wa", "for", "if", "else", "fn", "def", "let", "func", "range", "not", "and", "\"s\"", "\n", "--", ";", "#x", "$y"}

// c01note leaves the text where the supervisor finds it should this process
// not survive it.
func c01note(s string) {
	if c01.cur == nil {
		return
	}
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	b := []byte(fmt.Sprintf("%08d\n%s", len(s), s))
	c01.cur.WriteAt(b, 0)
}

// quiet runs f with whatever it prints thrown away.
func quiet(f func()) {
	o := os.Stdout
	os.Stdout, zygo.OurStdout = c01.null, c01.null
	defer func() { os.Stdout, zygo.OurStdout = o, o }()
	f()
}

var errNothing = errors.New("zmon: neither value nor error")

// c01call runs one library call; it reports false if the interpreter is not
// to be used any more.
func c01call(c *Ctx, what, text string, budget int64, f func() (zygo.Sexp, error)) (v zygo.Sexp, err error, fine bool) {
	stepMon.steps, stepMon.budget, stepMon.exhausted = 0, budget, false
	defer func() {
		stepMon.budget = 0
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.Violate("panic:"+panicSite(st), "%s: a panic reached the caller: %v\ntext: %s\n%s", what, r, clip(text), clip(st))
			v, err, fine = nil, nil, false
		}
	}()
	v, err = f()
	return v, err, true
}

type c01entry struct {
	name string
	run  func(env *zygo.Zlisp, t string) (zygo.Sexp, error)
}

func c01parse(env *zygo.Zlisp, t string) ([]zygo.Sexp, error) {
	p := env.NewParser()
	p.ResetAddNewInput(bytes.NewBufferString(t))
	return p.ParseTokens()
}

// c01repl does with a line what the tool's prompt does.
func c01repl(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
	lines := strings.Split(t, "\n")
	p := env.NewParser()
	p.ResetAddNewInput(bytes.NewBufferString(lines[0] + "\n"))
	lines = lines[1:]
	var xs []zygo.Sexp
	for r := range p.ParsingIter() {
		xs = xs[:0]
		for _, x := range r.Expr {
			if x != zygo.SexpEnd {
				xs = append(xs, x)
			}
		}
		if r.Err == nil {
			break
		}
		if r.Err == zygo.ErrMoreInputNeeded || r.Err == zygo.UnexpectedEnd || r.Err == zygo.ResetRequested {
			if len(lines) == 0 {
				return nil, r.Err
			}
			p.NewInput(bytes.NewBufferString(lines[0] + "\n"))
			lines = lines[1:]
			continue
		}
		return nil, r.Err
	}
	if f := strings.TrimSpace(t); len(f) > 0 && (f[0] == '&' || f[0] == '*') {
		xs = []zygo.Sexp{zygo.MakeList(xs)}
	}
	if len(xs) == 0 {
		return env.EvalString(env.ReplLineInfixWrap(t) + " ")
	}
	v, err := env.EvalExpressions([]zygo.Sexp{zygo.MakeList([]zygo.Sexp{env.MakeSymbol("infix"), &zygo.SexpArray{Val: xs, Env: env}})})
	if err != nil {
		return v, err
	}
	if s, ok := v.(zygo.Selector); ok {
		return s.RHS(env)
	}
	return v, nil
}

var c01entries = []c01entry{
	{"EvalString", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) { return env.EvalString(t) }},
	{"LoadString+Run", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		if err := env.LoadString(t); err != nil {
			return nil, err
		}
		return env.Run()
	}},
	{"LoadFile+Run", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		if err := env.LoadFile(strings.NewReader(t)); err != nil {
			return nil, err
		}
		return env.Run()
	}},
	{"prompt", c01repl},
	{"infix prompt", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		return env.EvalString(env.ReplLineInfixWrap(t) + " ")
	}},
	{"ParseTokens+EvalExpressions", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		xs, err := c01parse(env, t)
		if err != nil {
			return nil, err
		}
		for _, x := range xs {
			if _, err := env.EvalExpressions([]zygo.Sexp{x}); err != nil {
				return nil, err
			}
		}
		return zygo.SexpNull, nil
	}},
	{"pieces", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		p := env.NewParser()
		k := 1 + len(t)/3
		p.ResetAddNewInput(bytes.NewBufferString(t[:min(k, len(t))]))
		t = t[min(k, len(t)):]
		n := 0
		for r := range p.ParsingIter() {
			for _, x := range r.Expr {
				x.SexpString(nil)
			}
			if n++; n > 50 {
				break
			}
			if t == "" {
				if r.Err == nil {
					return env.EvalExpressions(r.Expr)
				}
				return nil, r.Err
			}
			p.NewInput(bytes.NewBufferString(t[:min(k, len(t))]))
			t = t[min(k, len(t)):]
		}
		return zygo.SexpNull, nil
	}},
	{"eval of read", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		env.AddGlobal("srcText", &zygo.SexpStr{S: t})
		return env.EvalString("(eval (read srcText))")
	}},
	{"macexpand of read", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		env.AddGlobal("srcText", &zygo.SexpStr{S: t})
		return env.EvalString("(eval (list %macexpand (read srcText)))")
	}},
	{"SourceStream", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		return zygo.SexpNull, env.SourceStream(strings.NewReader(t))
	}},
	{"inside a string", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		env.AddGlobal("srcText", &zygo.SexpStr{S: t})
		return env.EvalString(`(list (str srcText) (json srcText) (unjson (raw srcText)) (str2sym srcText) (regexpCompile srcText) (sprintf srcText 1 2))`)
	}},
	{"unjson", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		env.AddGlobal("srcRaw", &zygo.SexpRaw{Val: []byte(t)})
		return env.EvalString(`(unjson srcRaw)`)
	}},
	{"unmsgpack", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		env.AddGlobal("srcRaw", &zygo.SexpRaw{Val: []byte(t)})
		return env.EvalString(`(unmsgpack srcRaw)`)
	}},
	{"word completion", func(env *zygo.Zlisp, t string) (zygo.Sexp, error) {
		for i := 0; i <= len(t) && i < 40; i++ {
			zygo.MyWordCompleter(t, i)
		}
		return zygo.SexpNull, nil
	}},
}

// c01try gives the text to an entry and looks at what came back in every way
// an embedder would.
func c01try(c *Ctx, env *zygo.Zlisp, e *c01entry, t string, after bool) bool {
	c01note(e.name + ": " + t)
	c.Eval()
	fine := false
	quiet(func() {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 2*time.Second && c.verbose {
				fmt.Fprintf(os.Stderr, "SLOW %v (%d steps) %s: %.200s\n", d, stepMon.steps, e.name, t)
			}
		}()
		v, err, ok := c01call(c, e.name, t, c01budget, func() (zygo.Sexp, error) { return e.run(env, t) })
		if !ok {
			return
		}
		switch {
		case stepMon.exhausted:
			c.Count("step budget used up", 1)
		case err != nil:
			c.Count("error", 1)
		case v == nil:
			c.Violate("nothing:"+e.name, "%s returned neither value nor error\ntext: %s", e.name, clip(t))
		default:
			c.Count("value", 1)
		}
		c.Nontrivial(e.name + "|" + t)
		if fine = c01after(c, env, e.name, t, v, err, after); !fine {
			return
		}
	})
	return fine
}

func c01after(c *Ctx, env *zygo.Zlisp, what, t string, v zygo.Sexp, err error, after bool) bool {
	if err != nil {
		_, _, ok := c01call(c, what+", then the error text", t, 0, func() (zygo.Sexp, error) {
			env.GetStackTrace(err)
			return nil, nil
		})
		if !ok {
			return false
		}
		if after {
			_, _, ok = c01call(c, what+", then the scopes shown", t, 0, func() (zygo.Sexp, error) {
				return nil, env.ShowStackStackAndScopeStack()
			})
			if !ok {
				return false
			}
		}
		if _, _, ok = c01call(c, what+", then Clear", t, 0, func() (zygo.Sexp, error) { env.Clear(); return nil, nil }); !ok {
			return false
		}
	} else if v != nil {
		_, _, ok := c01call(c, what+", then the value shown", t, 200000, func() (zygo.Sexp, error) {
			v.SexpString(nil)
			if after {
				v.SexpString(zygo.NewPrintStateWithIndent(4))
			}
			v.Type()
			if s, is := v.(zygo.Selector); is {
				if r, err := s.RHS(env); err == nil && r != nil {
					r.SexpString(nil)
				}
			}
			return nil, nil
		})
		if !ok {
			return false
		}
	}
	if after {
		_, _, ok := c01call(c, what+", then the environment shown", t, 0, func() (zygo.Sexp, error) {
			env.DumpEnvironment()
			return nil, env.ShowGlobalStack()
		})
		if !ok {
			return false
		}
		_, _, ok = c01call(c, what+", then (+ 1 2)", t, 1000, func() (zygo.Sexp, error) { return env.EvalString("(+ 1 2)") })
		if !ok {
			return false
		}
		env.Clear()
	}
	return true
}

// c01files gives back the functions that read and write files: as a user who
// owns nothing but its scratch directory they can do no harm.
func c01files(env *zygo.Zlisp) {
	if os.Getuid() == 0 {
		return
	}
	fs := zygo.SystemFunctions()
	for _, n := range []string{"source", "slurpf", "bload", "writef", "owritef", "save", "bsave", "getenv"} {
		if f, ok := fs[n]; ok {
			env.AddFunction(n, f)
		}
	}
	env.AddBuilder("import", zygo.ImportPackageBuilder)
}

type c01env struct {
	env  *zygo.Zlisp
	uses int
	rec  recorder
}

func (e *c01env) get(c *Ctx) *zygo.Zlisp {
	if e.env == nil || e.uses > 300 {
		quiet(func() { e.env = newWildEnv(&e.rec); c01files(e.env) })
		e.uses = 0
		e.rec.log = nil
	}
	e.uses++
	return e.env
}

func c01text(c *Ctx, e *c01env, en *c01entry, t string, after bool) {
	if !c01try(c, e.get(c), en, t, after) {
		e.env = nil
	}
}

// ---- exhaustive parts ----

const c01block = 512

var c01joins = []struct{ sep, pre, post string }{{" ", "", ""}, {"", "", ""}, {" ", "(", ")"}, {" ", "{", "}"}, {" ", "[", "]"}}

func pow(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

func c01seqs() int { a := len(c01alphabet); return 1 + a + a*a + a*a*a }

func c01seq(alpha []string, i int) []string {
	var out []string
	a := len(alpha)
	for n := 0; ; n++ {
		if p := pow(a, n); i >= p {
			i -= p
			continue
		}
		for ; n > 0; n-- {
			out = append(out, alpha[i%a])
			i /= a
		}
		return out
	}
}

func c01bytes(i int) string {
	if i < 256 {
		return string([]byte{byte(i)})
	}
	i -= 256
	return string([]byte{byte(i >> 8), byte(i)})
}

// ---- every name with every few values ----

var c01pool = []string{
	"", "0", "-1", "3", "9223372036854775807", "-9223372036854775808", "2.5", "NaN", "5ULL", `""`, `"s"`, `"é日\n"`, "'a'", "true", "nil", "%x", "%a.b", "k:", "[]", "[1 2 3]", "[nil [1]]", "(list)", "(list 1 2)", "(cons 1 2)", "(list %x [1])", "{}", "wh", "wa", "car1", "sn", "Car", "snoopy", "int64", "pkA", "re", "mk", "+", "(fn [#a] 1)", "wm", "(raw \"ab\")", "(raw64 \"YWI=\")", "(arrayidx wa [1])", "(hashidx wh [k:])", "wh.d.f", "nosuch", "nosuch.x", "(& car1)", "(now)", "(quote (fn [x] x))", "(quote ())", "^(a ~ctr)", "[[x y] 3]", "[x 3]", "{x 3}", "#z", "$s", "?q", "cyc", "cych", "cycp", "()", "\"a,b\"", "1000", "-0.0",
}

var c01cyc = []string{
	`(def cyc [1 2])`, `(aset cyc 0 cyc)`, `(def cych (hash a:1))`, `(hset cych b: cych)`, `(def cycp (Car Id:1))`, `(set cycp.Next (& cycp))`,
}

func c01call2(n string, a ...string) string {
	var p []string
	for _, x := range a {
		if x != "" {
			p = append(p, x)
		}
	}
	return "(" + n + " " + strings.Join(p, " ") + ")"
}

func c01nameCase(c *Ctx, e *c01env, n string) {
	en := &c01entries[0]
	do := func(t string) {
		if e.env == nil || e.uses > 300 {
			e.get(c)
			for _, s := range c01cyc {
				c01text(c, e, en, s, false)
			}
		}
		c01text(c, e, en, t, c.chance(1, 200))
	}
	e.env = nil
	pool := c01pool
	for _, a := range pool {
		for _, b := range pool {
			if b == "" && a != "" {
				continue
			}
			do(c01call2(n, b, a))
		}
	}
	pk := func() string { return pick(c.Rng, pool) }
	for k := 0; k < 400; k++ {
		do(c01call2(n, pk(), pk(), pk()))
		do(c01call2(n, pk(), pk(), pk(), pk(), pk()))
	}
	for _, a := range pool {
		do("{" + a + " " + n + " " + pk() + "}")
		do("{" + n + " " + a + "}")
		do("{" + n + "[" + a + "]}")
		do("{" + n + " = " + a + "}")
		do("(map " + n + " (list " + a + "))")
		do("(apply " + n + " (list " + a + " " + pk() + "))")
		do("(" + a + " " + n + ")")
		do("(let [" + n + " " + a + "] (" + n + " " + pk() + "))")
	}
}

// ---- data nested deeper than any text ----

type c01deepShape struct {
	name string
	make func(env *zygo.Zlisp, n int) zygo.Sexp
}

func c01str(s string) *zygo.SexpStr { return &zygo.SexpStr{S: s} }

// the scripts that build the same by a loop
var c01shapes = []struct{ name, seed, step string }{
	{"lists in lists", "(list 1)", "(list X)"},
	{"lists in tails", "(list 1)", "(list 1 X)"},
	{"a long list", "(list 1)", "(cons 1 X)"},
	{"a long improper list", "2", "(cons 1 X)"},
	{"pairs to the left", "2", "(cons X 1)"},
	{"arrays", "[1]", "[X]"},
	{"arrays of two", "[1]", "[1 X]"},
	{"hashes", "(hash a:1)", "(hash a:X)"},
	{"records", "(Car Id:1)", "(Car Id:2 Next:(& X))"},
	{"pointers", "(& 3)", "(& X)"},
	{"array in hash", "[1]", "(hash k:[X])"},
	{"quoted calls", "(quote x)", "(list %not X)"},
	{"template", "3", "^(a ~X)"},
	{"closures", "(fn [] 1)", "(let [z X] (fn [] z))"},
	{"begin", "3", "(list %begin X)"},
	{"fn", "3", "(list %fn [] X)"},
	{"let", "3", "(list %let [%q 1] X)"},
	{"let rhs", "3", "(list %let [%q X] 1)"},
	{"cond", "3", "(list %cond true X 1)"},
	{"infix", "[3]", "[(list %infix X)]"},
	{"infix op", "3", "(list %infix [X %+ 1])"},
	{"def", "3", "(list %def %q X)"},
	{"quote", "3", "(list %quote X)"},
	{"syntaxQuote", "3", "(list %syntaxQuote X)"},
	{"package", "3", "(list %package \"q\" X)"},
	{"and", "true", "(list %and true X)"},
	{"for", "3", "(list %for [1 false 1] X)"},
	{"macexpand", "3", "(list %macexpand X)"},
	{"macro", "3", "(list %wm 1 X)"},
	{"assert", "true", "(list %assert X)"},
	{"newScope", "3", "(list %newScope X)"},
	{"return", "3", "(list %return X)"},
	{"set", "3", "(list %set %q X)"},
	{"defmac", "3", "(list %defmac %q [] X)"},
	{"expectError", "3", "(list %expectError \"e\" X)"},
	{"array call", "3", "[(list %+ X)]"},
	{"strings", `"a"`, "(list X \"b\")"},
	{"snoopy", "(snoopy)", "(snoopy friends:[X])"},
	{"selector", "wa", "(arrayidx X [0])"},
	{"hash keys", "[1]", "[X 2]"},
}

var c01deepUses = []string{
	"(N dp)", "(N dp dp)", "(N 1 dp)", "(N dp 1)", "(N + dp)", "(N dp (fn [x y & r] 1))", "(N [dp] 0)", "(N wh k: dp)", "(N (& dp))", "(N dp.a.b)",
	"(N (fn [x] x) dp)", "(N dp 0 1)", "(N wa 0 dp)", "(N \"x\" dp)", "(N (quote x) dp)",
}

var c01deepAlone = []string{"dp", "(eval dp)", "{dp}", "(str dp)", "(println dp)", "(== dp dp)", "(begin (def dp2 dp) (== dp2 (list dp)))", "(dp)", "(dp 1)", "(macexpand dp)", "^(~dp)", "^(~@dp)", "(hash dp 1)", "{dp[0]}", "{dp + 1}", "(hget (hash dp 1) dp)", "(apply + dp)", "(map str dp)", "(assert dp)", "(def v:int64 dp)", "(expectError \"a\" (+ dp 1))", "(+ 1 dp)", "(fn [] dp)", "(raw2str (msgpack dp))", "(unmsgpack (msgpack dp))", "(unjson (json dp))", "(read (str dp))", "(eval (read (str dp)))", "(eval (list %include dp))", "(source dp)", "(eval (list %comma dp))", "(flatten dp)", "(eval (list %import %zz dp))", "(eval (list %syntaxQuote dp))", "(eval (list %var %q dp))", "(eval (list %struct %Q dp))", "(eval (list %func %q dp [] 1))", "(eval (list %infixExpand dp))", "(eval (list %fn dp 1))", "(eval (list %let dp 1))", "(eval (list %set dp 1))", "(eval (list %def dp 1))", "(eval (list %for dp 1))", "(eval (list %cond dp dp dp))"}

func c01deep(c *Ctx, e *c01env, sh int, depth int, names []string) {
	s := c01shapes[sh%len(c01shapes)]
	setup := fmt.Sprintf("(def dp %s) (for [(def i 0) (< i %d) (set i (+ i 1))] (set dp %s)) 1", s.seed, depth, strings.ReplaceAll(s.step, "X", "dp"))
	fresh := func() bool {
		e.env = nil
		env := e.get(c)
		c01note(setup)
		ok := true
		quiet(func() {
			_, err, fine := c01call(c, "building", setup, 30_000_000, func() (zygo.Sexp, error) { return env.EvalString(setup) })
			if err != nil {
				env.Clear()
				c.Count("deep data not built", 1)
				c.Sample(s.name + ": " + err.Error())
			}
			ok = fine && err == nil
		})
		return ok
	}
	if !fresh() {
		return
	}
	c.Count("deep data built", 1)
	c.Max("nesting of data", int64(depth))
	t0 := time.Now()
	late := func() bool {
		if time.Since(t0) < 12*time.Second {
			return false
		}
		c.Count("uses of deep data left out", 1)
		return true
	}
	for _, n := range names {
		for _, u := range c01deepUses {
			if !c.chance(1, 3) || late() {
				continue
			}
			t := strings.ReplaceAll(u, "N", n)
			if e.env == nil {
				if !fresh() {
					return
				}
			}
			c01text(c, e, &c01entries[0], t, false)
		}
	}
	for _, t := range c01deepAlone {
		if late() || (depth > 5000 && s.step != "(list X)" && strings.Contains(t, "(eval")) {
			continue
		}
		if e.env == nil && !fresh() {
			return
		}
		c01text(c, e, &c01entries[0], t, depth < 2000 && c.chance(1, 4))
	}
}

// ---- data nested deeper than the stack of the process could follow ----

var c01abysses = []struct {
	name string
	grow func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp
}{
	{"lists in lists", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp { return zygo.Cons(x, zygo.SexpNull) }},
	{"a long list", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp { return zygo.Cons(zygo.SexpNull, x) }},
	{"pairs to the left", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp { return zygo.Cons(x, &zygo.SexpInt{Val: 1}) }},
	{"arrays", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp { return &zygo.SexpArray{Val: []zygo.Sexp{x}, Env: env} }},
	{"calls", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp {
		return zygo.Cons(env.MakeSymbol("not"), zygo.Cons(x, zygo.SexpNull))
	}},
	{"quotes", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp {
		return zygo.Cons(env.MakeSymbol("quote"), zygo.Cons(x, zygo.SexpNull))
	}},
	{"templates", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp {
		return zygo.Cons(env.MakeSymbol("syntaxQuote"), zygo.Cons(x, zygo.SexpNull))
	}},
	{"commas", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp {
		return zygo.Cons(env.MakeSymbol("comma"), zygo.Cons(x, zygo.SexpNull))
	}},
	{"unquotes", func(env *zygo.Zlisp, x zygo.Sexp) zygo.Sexp {
		return zygo.Cons(env.MakeSymbol("unquote"), zygo.Cons(x, zygo.SexpNull))
	}},
}

const c01abyssDepth = 4_000_000

func c01abyss(c *Ctx, e *c01env, sh int, names []string) {
	s := c01abysses[sh%len(c01abysses)]
	c.Max("nesting of data", c01abyssDepth)
	thorough := c.Tier == "thorough"
	build := func() {
		e.env, e.rec.log = nil, nil
		env := e.get(c)
		e.uses = -1000
		c01note("building " + s.name)
		var x zygo.Sexp = zygo.SexpNull
		for i := 0; i < c01abyssDepth; i++ {
			x = s.grow(env, x)
		}
		env.AddGlobal("dp", x)
		c.Count("very deep data built", 1)
	}
	try := func(t string) {
		if e.env == nil {
			build()
		}
		c01text(c, e, &c01entries[0], t, false)
	}
	for _, n := range names {
		if n == "emit" {
			continue
		}
		if thorough || c.chance(2, 3) {
			try("(" + n + " dp)")
		}
		for k := 0; k < 2; k++ {
			if !thorough && !c.chance(1, 6) {
				continue
			}
			try(strings.ReplaceAll(pick(c.Rng, c01deepUses), "N", n))
		}
	}
	for _, t := range c01deepAlone {
		if c.chance(1, tierN(c.Tier, 14, 6)) {
			try(t)
		}
	}
}

// ---- texts nested deep ----

var c01nests = []struct{ open, mid, close string }{
	{"(", "1", ")"}, {"[", "1", "]"}, {"{", "1", "}"}, {"(+ 1 ", "1", ")"}, {"(quote ", "x", ")"}, {"(begin ", "x", ")"}, {"(fn [] ", "1", ")"}, {"((fn [] ", "1", "))"}, {"(let [x 1] ", "1", ")"}, {"(let [x ", "1", "] x)"}, {"(cond true ", "1", " 2)"},
	{"(and ", "1", ")"}, {"(or false ", "1", ")"}, {"(list ", "1", ")"}, {"(hash a:", "1", ")"}, {"(def x ", "1", ")"}, {"(set x ", "1", ")"}, {"(newScope ", "1", ")"}, {"(package \"a\" ", "1", ")"}, {"(macexpand ", "(wm 1)", ")"}, {"(eval ", "1", ")"}, {"(eval (quote ", "1", "))"},
	{"(wm ", "1", ")"}, {"(defmac zm [] ", "1", ")"}, {"(assert ", "true", ")"}, {"(for [1 false 1] ", "1", ")"}, {"^", "x", ""}, {"~", "x", ""}, {"~@", "x", ""}, {"%", "x", ""}, {"^(", "1", ")"}, {"^(a ~(b ", "1", "))"}, {"(~", "x", ")"},
	{"-", "1", ""}, {"{-", "1", "}"}, {"{- ", "1", ""}, {"{not ", "1", ""}, {"{!", "1", ""}, {"{*", "x", ""}, {"{&", "x", ""}, {"{1 + ", "1", "}"}, {"{1 ** ", "1", ""}, {"{x = ", "1", ""}, {"{x := ", "1", ""}, {"{x += ", "1", ""}, {"{x -> ", "1", ""}, {"{x[", "1", "]"}, {"x[", "1", "]"}, {"{x.", "y", ""}, {"x.", "y", ""},
	{"{if 1 {", "1", "}"}, {"{if 1 {1} else ", "{1}", ""}, {"{if true {} else if true {} else ", "{1}", "}"}, {"{for {", "1", "}"}, {"{for i := 0; i < 1; i++ {", "1", "}"}, {"{for range [1] {", "1", "}"}, {"{(", "1", ")"}, {"{[", "1", "]"}, {"{{", "1", "}}"}, {"{a;", "1", ""}, {"{a,", "1", ""}, {"{f(", "1", ")"}, {"{func f() {", "1", "}"}, {"{return ", "1", ""},
	{"(func f [] [] ", "1", ")"}, {"(struct A [(field B:", "int64", ")])"}, {"(var x ", "int64", ")"}, {"(* ", "Car", ")"}, {"(sliceOf ", "int64", ")"}, {"([]", "int64", ""}, {"(var x ([]", "int64", "))"}, {"(expectError \"a\" ", "1", ")"}, {"(infix [", "1", "])"}, {"/*", "a", "*/"}, {"// a\n", "1", ""}, {";a\n", "1", ""}, {"`", "a", ""}, {"\"", "a", "\""}, {"'", "a", "'"}, {"\n", "1", ""}, {" ", "1", ""},
	{"a ", "1", ""}, {"1 ", "1", ""}, {"a:", "1", ""}, {":", "a", ""}, {".", "a", ""}, {"#", "a", ""}, {"$", "a", ""}, {"?", "a", ""}, {"&", "a", ""}, {"!", "a", ""}, {"0", "1", ""}, {"9", "9", "9"}, {"1e", "1", ""}, {"0x", "f", ""}, {"f", "f", "f"}, {"\\", "a", ""}, {"\x00", "a", ""}, {"\xff", "a", ""}, {"日", "a", ""}, {"(a ", "1", "b"}, {"(1 ", ".", " 2)"}, {"(1 . ", "2", ")"}, {"(+= x ", "1", ")"}, {"(map list ", "[1]", ")"}, {"(apply + ", "[1]", ")"}, {"(syntaxQuote ", "a", ")"}, {"(syntaxQuote (unquote ", "1", "))"},
	{"(cond ", "1", ""}, {"(cond 1 2 ", "3", ""}, {"[x:", "1", "]"}, {"{a: ", "1", "}"}, {"(: ", "a", " wh)"}, {"(letseq [x ", "1", "] x)"}, {"(defn zf [x] ", "1", ")"}, {"(include \"", "a", "\")"}, {"(method [p: (* Car)] Q [] [] ", "1", ")"}, {"(return ", "1", ")"}, {"(break ", "1", ")"}, {"(comma ", "1", ")"}, {"(dotcall ", "1", ")"}, {"(interface I [(func a [x:", "int64", "] [])])"}, {"(_method sn ", "Fly:", ")"}, {"(-> wa ", "1", ")"},
	{"[a b ", "c", ""}, {"{a b c ", "d", "}"}, {"{1 2 ", "3", "}"}, {"{x = 1; ", "3", "}"}, {"{a.b.", "c", " = 1}"}, {"(set wh.d", ".f", " 1)"}, {"{x, ", "y", " = 1, 2}"}, {"(fn [a ", "b", "] 1)"}, {"(let [a 1 ", "b", " 2] 1)"}, {"(", ")", ""}, {"[", "]", ""}, {"{", "}", ""}, {")", "1", ""}, {"]", "1", ""}, {"}", "1", ""},
}

var c01flat = map[string]bool{"\n": true, " ": true, "a ": true, "1 ": true, "// a\n": true, ";a\n": true}

func c01nest(c *Ctx, e *c01env, i int) {
	n := c01nests[i%len(c01nests)]
	big := []int{2, 30, 700, 5000, 60000, 300000}
	if c.Tier == "thorough" {
		big = append(big, 1000000, 3000000)
	}
	var took time.Duration
	last := 1
	for _, k := range big {
		// some of what happens to a nest takes time in the square of its depth,
		// up to the depth that the parser accepts
		r := time.Duration(k / last)
		if last < 20000 {
			r = time.Duration(min(k, 20000) / last)
		}
		if len(n.open)*k > 8<<20 || (took > 5*time.Millisecond && took*r*r > 6*time.Second) {
			c.Count("nests not tried deeper", 1)
			continue
		}
		t0 := time.Now()
		for v := 0; v < 4; v++ {
			t := strings.Repeat(n.open, k) + n.mid + strings.Repeat(n.close, k)
			switch v {
			case 1:
				t = strings.Repeat(n.open, k) + n.mid
			case 2:
				t = "{" + t + "}"
			case 3:
				t = "(begin " + t + ")"
			}
			c.Max("bytes of text", int64(len(t)))
			en := &c01entries[0]
			if c.chance(1, 2) {
				en = &c01entries[c.intn(len(c01entries))]
			}
			if k > 6000 && (en.name == "pieces" || en.name == "word completion") {
				en = &c01entries[0]
			}
			e.uses += 20
			c01text(c, e, en, t, c.chance(1, 10))
		}
		took, last = time.Since(t0), k
	}
}

// ---- the prompt of the tool ----

// c01tool runs the tool's main function in a process that counts steps:
// arguments are those of the tool.
func c01toolMain(a []string) {
	cfg := zygo.NewZlispConfig("zygo")
	cfg.Flags = flag.NewFlagSet("zygo", flag.ContinueOnError)
	cfg.DefineFlags()
	if cfg.Flags.Parse(a) != nil {
		os.Exit(3)
	}
	stepMon.budget = 300_000
	zygo.ReplMain(cfg)
}

var c01unsafe = []string{"system", "exit", "writef", "owritef", "save", "bsave", "setenv", "chdir", "sys", "readline", "sleep", "makeArray", "send", "<!", "makeChan", "timeit", "random", "greenpack", "slurpf", "bload", "source", "req", "include", "import", "stop"}

func c01session(c *Ctx) {
	names := c01.names
	w := &wild{c: c, names: names, cyclic: true, deep: 20}
	var lines []string
	cor := corpus()
	for k := 3 + c.intn(25); k > 0; k-- {
		var l string
		switch c.intn(12) {
		case 0:
			l = pick(c.Rng, []string{".ls", ".gls", ".dump", ".dump ", ".dump wm", ".dump f0", ".dump mk", ".dump nosuch", ".dump pkA.Get", ".dump +", ".verb", ".debug", ".undebug", ".cd", ".cd /nosuch", ".cd .", ".", "..", ".x", ".ls x", " .ls", ". ls", ".dump  ", ".dump 3", ".dump Car", ".gls \t"})
		case 1:
			l = pick(c.Rng, []string{"&", "*", "& car1", "* car1", "&car1", "*car1", "* (& car1)", "& 3", "* 3", "& nosuch", "& a b c", "* a b c", "&&", "**", "& &", "& (", "* [", "&{", "*)", "& wh.a", "* wh.a", "& car1.Next", "* car1.Next"})
		case 2:
			l = w.value(2)
		case 3:
			l = w.call(3)
		case 4:
			l = w.damage(pick(c.Rng, wildPrelude), 1+c.intn(3))
		case 5:
			s := strings.Split(pick(c.Rng, cor), "\n")
			i := c.intn(len(s))
			l = strings.Join(s[i:min(len(s), i+1+c.intn(4))], "\n")
			if c.chance(1, 2) {
				l = w.damage(l, 1+c.intn(2))
			}
		case 6:
			l = strings.Join(c01seq(c01alphabet, c.intn(c01seqs())), pick(c.Rng, []string{" ", ""}))
		case 7:
			b := make([]byte, c.intn(12))
			for i := range b {
				b[i] = byte(c.intn(256))
			}
			l = string(b)
		case 8:
			l = pick(c.Rng, []string{"", " ", "\t", "//", "// c", "/*", "*/", "/* a */", "\"", "`", "'", "(", ")", "{", "}", "[", "]", "())", "{}}", "; ", "wh.d.f", "car1.Nope", "pkA.priv", "wa[99]", "wh[zz:]", "a:", "%a.b", "(arrayidx wa [99])", "(hashidx wh [zz:])", "(arrayidx 3 [1])", "nil", "()", "begin", "infix", "x = ", "= 3", "x, y = 1", "if", "for", "fn", "++", "x++", "x ++ 1", "(echo false)", "(infixExpand {a})", "\"a\"", "`b`", "'c'", "a.", ".a", "a..b"})
		case 9:
			l = pick(c.Rng, wildPrelude)
		case 10:
			g := &congen{c: c, n: 100 * k}
			l = g.expand(pick(c.Rng, constructs), 1)
		case 11:
			l = strings.Repeat(pick(c.Rng, wildJunk), 1+c.intn(30))
		}
		bad := false
		for _, u := range c01unsafe {
			if strings.Contains(l, u) {
				bad = true
			}
		}
		if !bad {
			lines = append(lines, l)
		}
	}
	text := strings.Join(append(append([]string{}, wildPrelude...), lines...), "\n") + "\n"
	args := []string{"-demo"}
	mode := c.intn(8)
	if c.chance(1, 8) {
		args = nil
	}
	if c.chance(1, 8) {
		args = append(args, "-trace")
	}
	if c.chance(1, 8) {
		args = append(args, "-countcalls")
	}
	if c.chance(1, 5) {
		args = append(args, "-sandbox")
	}
	stdin := text
	switch mode {
	case 0:
		f := filepath.Join(c01.dir, "s.zy")
		os.WriteFile(f, []byte(text), 0600)
		if c.chance(1, 2) {
			args = append(args, "-exitonfail")
		}
		if c.chance(1, 3) {
			args = append(args, "-i", "-no-liner", "-quiet")
		}
		args = append(args, f)
		stdin = ".ls\n.dump\nwh\n"
	case 1:
		args = append(args, "-c", strings.ReplaceAll(pick(c.Rng, lines), "\x00", ""))
	default:
		args = append(args, "-no-liner", "-quiet")
	}
	bin := os.Getenv("ZYGO_BIN")
	how := "the tool"
	if bin == "" || c.chance(9, 10) {
		exe, err := os.Executable()
		if err != nil {
			return
		}
		bin = exe
		args = append([]string{"probe", "c01tool"}, args...)
		how = "the tool's main function"
	}
	ctx, cancel := context.WithTimeout(context.Background(), 40*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = c01.dir
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb tailBuf
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	c.Eval()
	if ctx.Err() != nil {
		if how == "the tool" || !hookAvailable {
			c.Count("tool session stopped after 40 s", 1)
			return
		}
		c.Violate("tool-hang", "%s did not come back within 40 s\nargs %q\n%s", how, args, clip(text))
		return
	}
	se := string(errb.buf)
	code, sig := -1, ""
	if cmd.ProcessState != nil {
		code = cmd.ProcessState.ExitCode()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			sig = ws.Signal().String()
		}
	}
	if sig != "" || (code == 2 && strings.Contains(se, "goroutine ")) || strings.HasPrefix(se, "panic:") || strings.HasPrefix(se, "fatal error:") {
		site := panicSite(se)
		c.Violate("tool:"+site, "%s died (%v)\nargs %q\ninput %s\nstderr %s", how, err, args, clip(text), clip(se))
		return
	}
	c.Count("tool sessions survived", 1)
	c.Nontrivial(fmt.Sprint(args) + text)
}

// ---- memory ----

// c01memory: a program of few steps must not be able to take the process down
// by the memory it asks for. Run in a process with a limit of its own.
var c01hungry = []struct{ sig, src string }{
	{"huge-array", "(makeArray 20000000000)"},
	{"doubled-string", "(def s \"0123456789\") (for [(def i 0) (< i 60) (set i (+ i 1))] (set s (concat s s)))"},
}

func c01memoryMain(a []string) {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	env := newFull()
	_, err := env.EvalString(a[0])
	fmt.Println("came back", err != nil)
}

func c01memory(c *Ctx, k int) {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	h := c01hungry[k]
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "probe", "c01memory", h.src)
	var out, errb tailBuf
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.Run()
	c.Eval()
	c.Nontrivial(h.src)
	if !strings.Contains(string(out.buf), "came back") {
		c.Violate("memory:"+h.sig, "the process did not survive %s\n%s", h.src, clip(string(errb.buf)))
	}
}

func init() {
	probes["c01tool"] = c01toolMain
	probes["c01memory"] = c01memoryMain
	register(&Prop{
		ID:    "C01",
		Level: "tested",
		Rule: "a text given to any entry point of the library or the tool is an observation when the call came back and the value, the error, " +
			"the stack trace and the scopes could be shown; panics are reported with their site, deaths and hangs of the process with the text announced last",
		Exhaustive: "all token sequences up to length 3 over the alphabet, bare, joined, and inside each bracket; all strings of one or two bytes; every name of the interpreter with every pair of the values of the pool",
		Assumptions: []string{
			"blocking on a channel, sleeping and reading the terminal are waiting, not crashing: send, <!, makeChan, sleep, readline are not called",
			"the step budget of the hook tells a program that runs for ever from a call that does not return",
			"asking for more memory than there is is judged only in the targeted cases",
		},
		CPULimit:    90,
		MinDistinct: func(t string) int { return tierN(t, 300000, 1000000) },
		Init:        c01init,
		N:           func(t string) int { return c01plan(t).total },
		Run:         c01run,
	})
}

func c01init(c *Ctx) {
	var err error
	c01.null, err = os.OpenFile("/dev/null", os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	c01.dir, err = os.MkdirTemp("", "c01-")
	if err != nil {
		panic(err)
	}
	c01.cur, _ = os.OpenFile("current.txt", os.O_RDWR|os.O_CREATE, 0600)
	var rec recorder
	quiet(func() { c01.names = wildNames(newWildEnv(&rec), c01skip) })
}

type c01kinds struct {
	memory, abyss, seqs, short, bytes, names, deep, nests, sessions, rnd, total int
}

func c01plan(t string) (k c01kinds) {
	k.memory = len(c01hungry)
	k.seqs = (c01seqs() + c01block - 1) / c01block
	k.short = tierN(t, 600, (pow(len(c01short), 4)+c01block-1)/c01block)
	k.bytes = (256 + 65536 + c01block - 1) / c01block
	k.names = 700 // more than there are
	k.deep = len(c01shapes) * tierN(t, 3, 60)
	k.abyss = 20 * tierN(t, 2, len(c01abysses))
	k.nests = len(c01nests) * tierN(t, 1, 10)
	k.sessions = tierN(t, 500, 6000)
	k.rnd = tierN(t, 6000, 100000)
	k.total = k.memory + k.abyss + k.seqs + k.short + k.bytes + k.names + k.deep + k.nests + k.sessions + k.rnd
	return
}

func c01run(c *Ctx, idx int) {
	k := c01plan(c.Tier)
	e := &c01env{}
	take := func(n int) bool {
		if idx < n {
			return true
		}
		idx -= n
		return false
	}
	switch {
	case take(k.memory):
		c01memory(c, idx)
	case take(k.deep):
		depth := []int{700, 3000, 7000}[(idx/len(c01shapes))%3]
		var names []string
		per := []int{60, 25, 6}[(idx/len(c01shapes))%3]
		for j := 0; j < per; j++ {
			if n := pick(c.Rng, c01.names); n != "emit" {
				names = append(names, n)
			}
		}
		c01deep(c, e, idx, depth, names)
	case take(k.abyss):
		const chunks = 20
		per := (len(c01.names) + chunks - 1) / chunks
		a := idx % chunks * per
		sh := idx / chunks
		if c.Tier != "thorough" {
			sh = c.intn(len(c01abysses))
		}
		if a < len(c01.names) {
			c01abyss(c, e, sh, c01.names[a:min(a+per, len(c01.names))])
		}
	case take(k.nests):
		c01nest(c, e, idx)
	case take(k.sessions):
		c01session(c)
	case take(k.names):
		if idx < len(c01.names) {
			c01nameCase(c, e, c01.names[idx])
			c.Count("names tried", 1)
		}
	case take(k.seqs):
		for j := idx * c01block; j < (idx+1)*c01block && j < c01seqs(); j++ {
			s := c01seq(c01alphabet, j)
			for _, w := range c01joins {
				c01text(c, e, &c01entries[0], w.pre+strings.Join(s, w.sep)+w.post, c.chance(1, 500))
			}
			if c.chance(1, 6) {
				w := pick(c.Rng, c01joins)
				c01text(c, e, &c01entries[c.intn(len(c01entries))], w.pre+strings.Join(s, w.sep)+w.post, false)
			}
		}
	case take(k.short):
		for j := 0; j < c01block; j++ {
			i := idx*c01block + j
			if c.Tier != "thorough" {
				i = c.intn(pow(len(c01short), 4))
			}
			var s []string
			for n := 0; n < 4; n++ {
				s = append(s, c01short[i%len(c01short)])
				i /= len(c01short)
			}
			w := pick(c.Rng, c01joins)
			en := &c01entries[0]
			if c.chance(1, 4) {
				en = &c01entries[c.intn(len(c01entries))]
			}
			c01text(c, e, en, w.pre+strings.Join(s, w.sep)+w.post, c.chance(1, 500))
		}
	case take(k.bytes):
		for j := idx * c01block; j < (idx+1)*c01block && j < 256+65536; j++ {
			s := c01bytes(j)
			for i := range c01entries {
				if i == 0 || c.chance(1, 3) {
					c01text(c, e, &c01entries[i], s, false)
				}
			}
			c01text(c, e, &c01entries[0], "("+s+")", false)
			c01text(c, e, &c01entries[0], "{x"+s+"}", false)
			c01text(c, e, &c01entries[0], "\""+s+"\"", false)
			c01text(c, e, &c01entries[0], "'"+s+"'", false)
			c01text(c, e, &c01entries[0], "(1"+s+"1)", false)
		}
	default:
		c01random(c, e)
	}
}

func c01random(c *Ctx, e *c01env) {
	w := &wild{c: c, names: c01.names, cyclic: true, deep: 30}
	cor := corpus()
	for k := 0; k < 12; k++ {
		w.big = 0
		var t string
		switch c.intn(11) {
		case 0, 1:
			t = w.call(2 + c.intn(3))
		case 2:
			t = w.value(3)
		case 3:
			t = w.damage(w.call(3), 1+c.intn(4))
		case 4, 5:
			s := pick(c.Rng, cor)
			if len(s) > 1500 {
				l := strings.Split(s, "\n")
				i := c.intn(len(l))
				s = strings.Join(l[i:min(len(l), i+1+c.intn(30))], "\n")
			}
			t = w.damage(s, 1+c.intn(5))
		case 6:
			g := &congen{c: c, n: 5000}
			t = w.damage(g.expand(pick(c.Rng, constructs), 2), c.intn(4))
		case 7:
			b := make([]byte, c.intn(40))
			for i := range b {
				b[i] = byte(c.intn(256))
			}
			t = string(b)
		case 8:
			n := 4 + c.intn(14)
			var s []string
			for ; n > 0; n-- {
				s = append(s, pick(c.Rng, c01alphabet))
			}
			t = strings.Join(s, pick(c.Rng, []string{" ", ""}))
		case 9:
			n := 4 + c.intn(20)
			var s []string
			for ; n > 0; n-- {
				s = append(s, pick(c.Rng, wildJunk))
			}
			t = strings.Join(s, pick(c.Rng, []string{" ", "", " "}))
		case 10:
			x := w.call(2)
			t = pick(c.Rng, []string{"{" + x + "}", "(defmac zz [] " + x + ") (zz)", "(eval (quote " + x + "))", "(fn [x] " + x + ")", "(def zf (fn [& r] " + x + ")) (zf 1 2)", "^(" + x + " ~" + x + ")", "(package \"zp\" " + x + ")", "(expectError \"\" " + x + ")", "(for [(def i 0) (< i 3) (set i (+ i 1))] " + x + ")", "{for k, v := range " + x + " { k }}", "(let [a " + x + " b a] " + x + ")", "(apply (fn [#l] (force #l)) (list " + x + "))", "(infixExpand {" + x + "})"})
		}
		bad := false
		for _, u := range []string{"makeArray", "makeChan", "(send", "<!", "timeit", "sleep"} {
			if strings.Contains(t, u) {
				bad = true
			}
		}
		if bad {
			continue
		}
		en := &c01entries[0]
		if c.chance(1, 2) {
			en = &c01entries[c.intn(len(c01entries))]
		}
		if k == 0 {
			c.Sample(en.name + ": " + t)
		}
		c01text(c, e, en, t, c.chance(1, 6))
	}
}

func init() {
	// the names the checks use
	probes["c01names"] = func(a []string) {
		c01.null, _ = os.OpenFile("/dev/null", os.O_RDWR, 0)
		var rec recorder
		var env *zygo.Zlisp
		quiet(func() { env = newWildEnv(&rec) })
		for _, n := range wildNames(env, c01skip) {
			fmt.Println(n)
		}
	}
}
