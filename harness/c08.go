package main

// C08: a sandboxed interpreter is offered every name it knows, and every name
// that occurs in the library's own sources, with arguments that point at
// canaries: files, file names not in use, commands, an environment variable,
// exit codes. Each text is evaluated twice, in a world where the canaries
// exist and in one where they do not. Watching are: inotify on the directory
// of the canaries (any open, read, create, write or delete by this process or
// a child), the resource usage of waited-for children and the list of children
// that were not, a snapshot of the environment and of the working directory,
// the death of the worker, and the comparison of value, error text and printed
// output between the two worlds.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

const (
	c08secret = "k3yT0ken77"
	c08env    = "C08SECRET"
)

var c08 struct {
	base, dir, cwd string
	out            *outCapture
	ino            int
	names          []string
	defined        map[string]bool
	environ        string
	inA            bool
}

// outCapture keeps what is printed in a file.
type outCapture struct {
	f   *os.File
	old *os.File
}

func newOutCapture(path string) *outCapture {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		panic(err)
	}
	return &outCapture{f: f}
}

func (o *outCapture) start() {
	o.f.Truncate(0)
	o.f.Seek(0, 0)
	o.old = os.Stdout
	os.Stdout = o.f
	zygo.OurStdout = o.f
}

func (o *outCapture) stop() string {
	os.Stdout = o.old
	zygo.OurStdout = o.old
	st, err := o.f.Stat()
	if err != nil || st.Size() == 0 {
		return ""
	}
	n := st.Size()
	if n > 1<<20 {
		n = 1 << 20
	}
	b := make([]byte, n)
	o.f.ReadAt(b, 0)
	return string(b)
}

var c08special = []string{"and", "or", "cond", "quote", "def", "mdef", "fn", "defn", "begin", "let", "letseq", "assert", "defmac", "macexpand", "syntaxQuote", "include", "for", "set", "break", "continue", "newScope", "package", "return", "_ls",
	"source", "req", "import", "sys", "system", "load", "exec", "open", "slurpf", "slurp", "writef", "save", "owritef", "bload", "bsave", "greenpack", "exit", "quit", "setenv", "getenv", "environ", "chdir", "cd", "pwd", "rm", "run", "spawn", "shell", "read", "readline", "readFile", "writeFile", "eval", "evalFile", "sourceFile", "dump", "togo", "fromgo", "_method", "methodls", "registerDemoFunctions", "_closdump", "rmsym", "typelist", ".", ":", "use", "require", "glob", "ls", "exists", "exists?", "file?", "stat", "remove", "mkdir", "kill", "stop", "halt", "abort", "panic", "die", "defbuild", "builder", "go"}

// names that block for ever on the values the cases have
var c08skip = map[string]bool{"send": true, "<!": true, "makeArray": true}

func c08Dictionary() []string {
	re := regexp.MustCompile(`"([A-Za-z_?!.*&+<>=:-][A-Za-z0-9_?!.*&+<>=:-]{0,24})"`)
	seen := map[string]bool{}
	files, _ := filepath.Glob("/repo/zygo/*.go")
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			seen[m[1]] = true
		}
	}
	for _, s := range c08special {
		seen[s] = true
	}
	for k := range zygo.AllBuiltinFunctions() {
		seen[k] = true
	}
	for _, env := range []*zygo.Zlisp{c08New(0), c08New(1), c08New(2)} {
		for k := range c19Names(env) {
			seen[k] = true
			c08.defined[k] = true
		}
	}
	for _, s := range c08special {
		c08.defined[s] = true
	}
	for k := range zygo.AllBuiltinFunctions() {
		c08.defined[k] = true
	}
	var out []string
	for k := range seen {
		if c08skip[k] || strings.HasPrefix(k, "__anon") {
			continue
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

const c08configs = 7

// c08New makes a sandboxed interpreter in one of several ways.
func c08New(cfg int) *zygo.Zlisp {
	env := zygo.NewZlispSandbox()
	switch cfg % c08configs {
	case 1:
		env.StandardSetup()
	case 2:
		zygo.RegisterDemoStructs()
		env.StandardSetup()
		env.ImportDemoData()
	case 3:
		env.ImportEval()
	case 4:
		env.StandardSetup()
		return env.Duplicate()
	case 5:
		env.StandardSetup()
		return env.Clone()
	case 6:
		env = env.Duplicate()
		env.StandardSetup()
	}
	return env
}

func c08Init(c *Ctx) {
	base, err := os.MkdirTemp("", "c08-")
	if err != nil {
		panic(err)
	}
	c08.base = base
	c08.dir = filepath.Join(base, "w")
	os.Mkdir(c08.dir, 0700)
	c08.out = newOutCapture(filepath.Join(base, "stdout"))
	if err := os.Chdir(c08.dir); err != nil {
		panic(err)
	}
	c08.cwd, _ = os.Getwd()
	os.Unsetenv(c08env)
	c08.ino, err = syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic(err)
	}
	if _, err := syscall.InotifyAddWatch(c08.ino, c08.dir, syscall.IN_OPEN|syscall.IN_ACCESS|syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_ATTRIB|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO); err != nil {
		panic(err)
	}
	c08.defined = map[string]bool{}
	c08.names = c08Dictionary()
	c08.inA = true
	c08World(false)
}

// c08World makes the canaries exist or not.
func c08World(a bool) {
	if a == c08.inA {
		c08Events()
		c08.environ = strings.Join(os.Environ(), "\x00")
		return
	}
	c08.inA = a
	files := map[string]string{
		"modx":     "(def c08leak \"" + c08secret + "\")\n(package \"modx\" (def Val \"" + c08secret + "\"))\n",
		"in.zy":    "(def c08leak \"" + c08secret + "\")\n(println c08leak)\n(package \"inzy\" (def Val c08leak))\n",
		"data.txt": c08secret + "\nline two\n",
		"leak.zy":  "`" + c08secret + "`\n",
	}
	if es, err := os.ReadDir(c08.dir); err == nil {
		for _, e := range es {
			if files[e.Name()] == "" || !a {
				os.RemoveAll(filepath.Join(c08.dir, e.Name()))
			}
		}
	}
	if a {
		for n, s := range files {
			if err := os.WriteFile(filepath.Join(c08.dir, n), []byte(s), 0600); err != nil {
				panic(err)
			}
		}
		os.Setenv(c08env, c08secret)
	} else {
		os.Unsetenv(c08env)
	}
	c08Events()
	c08.environ = strings.Join(os.Environ(), "\x00")
}

// c08Events drains the watch.
func c08Events() (out []string) {
	var buf [8192]byte
	for {
		n, err := syscall.Read(c08.ino, buf[:])
		if err != nil || n <= 0 {
			return out
		}
		for o := 0; o+16 <= n; {
			mask := uint32(buf[o+4]) | uint32(buf[o+5])<<8 | uint32(buf[o+6])<<16 | uint32(buf[o+7])<<24
			l := int(uint32(buf[o+12]) | uint32(buf[o+13])<<8)
			name := strings.TrimRight(string(buf[o+16:o+16+l]), "\x00")
			what := ""
			for m, s := range map[uint32]string{syscall.IN_OPEN: "open", syscall.IN_ACCESS: "read", syscall.IN_MODIFY: "write", syscall.IN_CREATE: "create", syscall.IN_DELETE: "delete", syscall.IN_ATTRIB: "attrib", syscall.IN_MOVED_FROM: "move", syscall.IN_MOVED_TO: "move"} {
				if mask&m != 0 {
					what = s
				}
			}
			out = append(out, what+" "+name)
			o += 16 + l
		}
	}
}

func c08Kids() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &ru)
	return ru.Minflt + ru.Majflt
}

// c08LiveKid tells whether a child was left running.
func c08LiveKid() bool {
	_, err := syscall.Wait4(-1, nil, syscall.WNOHANG, nil)
	return err != syscall.ECHILD
}

type c08gen struct {
	c *Ctx
	n int
}

func (g *c08gen) path() string {
	d := c08.dir + "/"
	return pick(g.c.Rng, []string{d + "data.txt", d + "in.zy", d + "modx", "modx", "data.txt", "in.zy", "leak.zy", d + "leak.zy", d + "new1", "new2", "./in.zy", "../w/data.txt", d})
}

func (g *c08gen) cmd() string {
	return pick(g.c.Rng, []string{"touch " + c08.dir + "/pwn", "touch pwn", "cat data.txt", "cat " + c08.dir + "/data.txt", "echo $" + c08env, "printenv " + c08env, "rm -f modx", "cp modx copy"})
}

// arg is one argument; every kind of canary in every kind of dress.
func (g *c08gen) arg() string {
	c := g.c
	q := func(s string) string { return `"` + s + `"` }
	p := g.path()
	if c.chance(1, 4) {
		p = g.cmd()
	}
	switch c.intn(22) {
	case 0, 1, 2, 3, 4, 5, 6:
		return q(p)
	case 7:
		return "[" + q(p) + "]"
	case 8:
		return "(list " + q(p) + ")"
	case 9:
		return "`" + p + "`"
	case 10:
		return pick(c.Rng, []string{"modx", "touch pwn", "cat modx", "rm modx", c08env, "ls"})
	case 11:
		return pick(c.Rng, []string{"%modx", "(quote modx)", "%" + c08env, "(quote touch)", "%leak"})
	case 12:
		return q(c08env)
	case 13:
		return pick(c.Rng, []string{"0", "3", "1", "7", "42"})
	case 14:
		return pick(c.Rng, []string{"(hash a:1)", "(hash path:" + q(p) + ")", "(list 1 2)", "[1 2]", "nil", "true", "3.5", "'a'", "(fn [] 1)", "a:"})
	case 15:
		return "(raw " + q(p) + ")"
	case 16:
		return "(str2sym " + q(p) + ")"
	case 17:
		return "(list (quote touch) " + q(c08.dir+"/pwn") + ")"
	case 18:
		return "[" + q(p) + " " + q(c08secret) + "]"
	case 19:
		return "(quote (" + strings.ReplaceAll(g.cmd(), c08.dir, "") + "))"
	case 20:
		return "(let [v " + q(p) + "] v)"
	}
	return q(c08secret)
}

// args is an argument list; the first kinds are those of the known functions.
func (g *c08gen) args(kind int) string {
	q := func(s string) string { return `"` + s + `"` }
	d := c08.dir + "/"
	switch kind {
	case 0:
		return ""
	case 1:
		return q(d + "in.zy")
	case 2:
		return q("touch " + d + "pwn")
	case 3:
		return q(d+"out1") + " " + q("text")
	case 4:
		return q("text") + " " + q(d+"out2")
	case 5:
		return "3"
	case 6:
		return "0"
	case 7:
		return q(c08env)
	case 8:
		return q(c08env) + " " + q("changed")
	case 9:
		return "modx"
	case 10:
		return "al " + q(d+"modx")
	case 11:
		return "[" + q(d+"data.txt") + "]"
	case 12:
		return "touch pwn"
	case 13:
		return "(list " + q("touch") + " " + q(d+"pwn") + ")"
	case 14:
		return q(d + "data.txt")
	case 15:
		return c08env
	case 16:
		return "(hash a:1) " + q(d+"out3")
	case 17:
		return "[" + q("l1") + " " + q("l2") + "] " + q(d+"out4")
	case 18:
		return q("data.txt")
	case 19:
		return q("echo hello")
	}
	var a []string
	for k := g.c.intn(4); k >= 0; k-- {
		a = append(a, g.arg())
	}
	return strings.Join(a, " ")
}

const c08kinds = 20

var c08routes = []string{
	"($f $a)", "($f $a)", "($f $a)",
	"{($f $a)}",
	"{x := ($f $a); x}",
	"(apply $f (list $a))",
	"(apply $f [$a])",
	"(map $f [$a])",
	"((fn [h] (h $a)) $f)",
	"(let [h $f] (h $a))",
	"(begin (def h $f) (h $a))",
	"(begin (def h $f) (def h2 h) (apply h2 (list $a)))",
	"(eval (quote ($f $a)))",
	"(eval (list (quote $f) $a))",
	"(eval (list $f $a))",
	"(eval (read \"($f $A)\"))",
	"(eval (cons (quote $f) (quote ($a))))",
	"(begin (defmac mm [] ^($f $a)) (mm))",
	"(begin (defmac mm [] ($f $a)) (mm))",
	"(begin (defmac mm [& r] (cons (quote $f) r)) (mm $a))",
	"(begin (defmac mm [g] ^(~g $a)) (mm $f))",
	"(begin (defmac mm [] ($f $a)) (macexpand (mm)))",
	"((aget [$f] 0) $a)",
	"((hget (hash k:$f) k:) $a)",
	"(begin (def hh (hash k:$f)) (hh.k $a))",
	"(begin (def pp (package \"pp\" (def X $f) (defn Go [] ($f $a)) (def V ($f $a)))) (pp.Go) (pp.X $a))",
	"(begin (def pp (package \"pp\" (defn Go [] ($f $a)))) (pp.Go))",
	"(eval (list (str2sym \"$f\") $a))",
	"^(1 ~($f $a))",
	"^(1 ~@($f $a))",
	"((fn [#z] (force #z)) ($f $a))",
	"((fn [#z] (eval (substitute #z))) ($f $a))",
	"(for [(def i 0) (< i 1) (set i (+ i 1))] ($f $a))",
	"(expectError \"x\" ($f $a))",
	"(begin (defn q [] ($f $a)) (q))",
	"(begin (defn q [g] (g $a)) (q $f))",
	"(begin (func qf [a:int64] [r:int64] ($f $a)) (qf 1))",
	"(cond ($f $a) 1 2)",
	"(and ($f $a) 1)",
	"(let [v ($f $a)] v)",
	"(newScope ($f $a))",
	"(str ($f $a))",
	"(-> (hash k:1) ($f $a))",
	"(infix [($f $a)])",
	"(infixExpand {($f $a)})",
	"{if true {($f $a)}}",
	"(var vv $f)",
	"(begin (set h $f) (h $a))",
	"(struct Sx [(field a: int64 e:0)] ($f $a))",
	"(assert ($f $a))",
	"(package \"q\" ($f $a))",
	"$f",
	"(& $f)",
	"((deref (& $f)) $a)",
	"(eval (list (joinsym (quote $g) (quote $h)) $a))",
	"(begin (def v (quote $f)) (eval ^(~v $a)))",
	"{$f}",
	"(include $a)", "(req $a)", "(source $a)", "(import $a)", "(sys $a)",
	"(begin ($f $a) ($f $a))",
	"(let [$f $f] ($f $a))",
	"(defn $f [] 1)",
	"(. $f $a)",
	"(_method $f $a)",
	"(comma $f ($f $a))",
	"(quote ($f $a))",
}

func (g *c08gen) text(route, name string, kind int) string {
	a := g.args(kind)
	half := len(name) / 2
	for half > 0 && half < len(name) && name[half]&0xc0 == 0x80 {
		half--
	}
	esc := strings.ReplaceAll(strings.ReplaceAll(a, `\`, `\\`), `"`, `\"`)
	return strings.NewReplacer("$f", name, "$A", esc, "$a", a, "$g", name[:half], "$h", name[half:]).Replace(route)
}

type c08obs struct {
	res, out string
}

// c08Eval evaluates a text through one of the entry points and watches.
func c08Eval(c *Ctx, env *zygo.Zlisp, entry int, src string, what string) (r c08obs, bad bool) {
	kids := c08Kids()
	c08.out.start()
	o := guard(30000, func() (zygo.Sexp, error) {
		switch entry % 4 {
		case 1:
			if err := env.LoadString(src); err != nil {
				return nil, err
			}
			return env.Run()
		case 2:
			return zygo.SexpNull, env.SourceStream(bytes.NewReader([]byte(src)))
		case 3:
			p := env.NewParser()
			p.ResetAddNewInput(strings.NewReader(src))
			x, err := p.ParseTokens()
			if err != nil {
				return nil, err
			}
			return env.EvalExpressions(x)
		}
		return env.EvalString(src)
	})
	r.out = c08.out.stop()
	r.res = o.String()
	if o.Kind == "panic" {
		r.res = "panic"
	}
	if o.Kind != "value" {
		env.Clear()
	}
	c.Eval()
	report := func(sig, how string) {
		bad = true
		c.Violate(sig, "%s\n%s\ntext: %s\nresult: %s\nprinted: %s", how, what, src, clip(r.res), clip(r.out))
	}
	if ev := c08Events(); len(ev) > 0 {
		report("file-touched", fmt.Sprintf("the evaluation touched files: %q", ev))
		c08.inA = !c08.inA
		c08World(!c08.inA)
	}
	if k := c08Kids(); k != kids {
		report("process-started", "the evaluation ran a process")
	}
	if e := strings.Join(os.Environ(), "\x00"); e != c08.environ {
		report("environment-changed", "the evaluation changed the environment")
		os.Setenv(c08env, c08secret)
		if !c08.inA {
			os.Unsetenv(c08env)
		}
		c08.environ = strings.Join(os.Environ(), "\x00")
	}
	if strings.Contains(r.res, c08secret) && !strings.Contains(src, c08secret) || strings.Contains(r.out, c08secret) && !strings.Contains(src, c08secret) {
		report("secret-read", "the result holds the canary's content")
	}
	return r, bad
}

func c08Case(c *Ctx, idx int) {
	if idx%40 == 39 {
		c08Tool(c, idx)
		return
	}
	g := &c08gen{c: c}
	cfg := c.intn(c08configs)
	entry := 0
	if c.chance(1, 3) {
		entry = c.intn(4)
	}
	var texts []string
	seq := idx - idx/40
	name := c08.names[seq%len(c08.names)]
	round := seq / len(c08.names)
	if round == 0 || c.chance(1, 8) {
		// every shape of arguments, called directly; the three plain
		// configurations take turns
		cfg = (seq + round) % 3
		for k := 0; k < c08kinds; k++ {
			texts = append(texts, g.text("($f $a)", name, k))
		}
	} else {
		if !c08.defined[name] {
			name = pick(c.Rng, c08.names)
		}
		for k := 0; k < 14; k++ {
			if c.chance(1, 6) {
				name = pick(c.Rng, c08.names)
			}
			r := pick(c.Rng, c08routes)
			if c.chance(1, 8) {
				// one inside the other
				r = strings.ReplaceAll(pick(c.Rng, c08routes), "($f $a)", r)
			}
			texts = append(texts, g.text(r, name, c.intn(c08kinds+10)))
		}
	}
	what := fmt.Sprintf("name %s, configuration %d, entry %d", name, cfg, entry)
	run := func(world bool) (obs []c08obs, bad bool) {
		c08World(world)
		env := c08New(cfg)
		for _, t := range texts {
			r, b := c08Eval(c, env, entry, t, what)
			obs = append(obs, r)
			bad = bad || b
		}
		if wd, _ := os.Getwd(); wd != c08.cwd {
			c.Violate("directory-changed", "the working directory became %s\n%s\n%s", wd, what, strings.Join(texts, "\n"))
			os.Chdir(c08.dir)
			bad = true
		}
		if c08LiveKid() {
			c.Violate("process-started", "a process was left running\n%s\n%s", what, strings.Join(texts, "\n"))
			bad = true
		}
		return
	}
	a, bad := run(true)
	if bad {
		return
	}
	b, bad := run(false)
	if bad {
		return
	}
	c.Count("texts_compared_between_worlds", int64(len(texts)))
	var again []c08obs
	for i := range texts {
		if strings.HasPrefix(a[i].res, "error") {
			c.Count("refused", 1)
		} else {
			c.Count("gave_a_value", 1)
			c.Nontrivial(texts[i])
		}
		if a[i] == b[i] {
			continue
		}
		if again == nil {
			if again, bad = run(true); bad {
				return
			}
		}
		if again[i] != a[i] {
			c.Count("differs_by_itself", 1)
			continue
		}
		c.Violate("depends-on-world", "the result depends on files or environment\n%s\ntext: %s\nwith:    %s\nprinted: %s\nwithout: %s\nprinted: %s", what, texts[i], clip(a[i].res), clip(a[i].out), clip(b[i].res), clip(b[i].out))
		return
	}
	if idx%997 == 0 {
		c.Sample(texts[len(texts)-1])
	}
}

// c08Tool runs the command-line tool with -sandbox.
func c08Tool(c *Ctx, idx int) {
	bin := os.Getenv("ZYGO_BIN")
	if bin == "" {
		return
	}
	g := &c08gen{c: c}
	var texts []string
	n := 25
	mode := c.intn(3)
	if mode != 0 {
		n = 1
	}
	for k := 0; k < n; k++ {
		name := pick(c.Rng, c08.names)
		if !c08.defined[name] || c.chance(1, 2) {
			name = pick(c.Rng, c08special)
		}
		if c08skip[name] {
			continue
		}
		t := g.text(pick(c.Rng, c08routes), name, c.intn(c08kinds+6))
		if mode == 0 && c.chance(1, 8) {
			t = pick(c.Rng, []string{".cd /", ".quit", ".dump", ".ls", ".gls", ".debug", "!touch pwn", "& 3", "* 3", "exit(0)", "sys touch pwn", "req modx", "include(\"modx\")", "source \"modx\""})
		}
		texts = append(texts, strings.ReplaceAll(t, "\n", " "))
	}
	run := func(world bool) string {
		c08World(world)
		args := []string{"-sandbox", "-quiet"}
		if c.chance(1, 4) {
			args = append(args, "-demo")
		}
		script := filepath.Join(c08.base, "script.zy")
		var in string
		switch mode {
		case 0:
			args = append(args, "-no-liner")
			in = strings.Join(texts, "\n") + "\n(+ 7700 77)\n"
		case 1:
			os.WriteFile(script, []byte(strings.Join(texts, "\n")+"\n(println (+ 7700 77))\n"), 0600)
			args = append(args, script)
		case 2:
			args = append(args, "-c", strings.Join(texts, "\n")+"\n(println (+ 7700 77))\n")
		}
		cmd := exec.Command(bin, args...)
		cmd.Dir = c08.dir
		cmd.Stdin = strings.NewReader(in)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Start(); err != nil {
			c.Inconclusive("tool did not start")
			return ""
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
			c.Inconclusive("tool timed out")
			return ""
		}
		c.Eval()
		code := cmd.ProcessState.ExitCode()
		what := fmt.Sprintf("zygo %s\ntexts:\n%s\noutput:\n%s", strings.Join(args, " "), strings.Join(texts, "\n"), clip(out.String()))
		if ev := c08Events(); len(ev) > 0 {
			c.Violate("file-touched", "the sandboxed tool touched files: %q\n%s", ev, what)
			c08.inA = !c08.inA
			c08World(!c08.inA)
			return ""
		}
		if code != 0 && code != 1 && code != 255 {
			// a crash of the tool is another matter
			if !strings.Contains(out.String(), "goroutine ") {
				c.Violate("exit", "the sandboxed tool ended with code %d\n%s", code, what)
				return ""
			}
		}
		if !strings.Contains(out.String(), "7777") && code == 0 && (mode == 0 || !strings.Contains(strings.ToLower(out.String()), "error")) {
			c.Violate("exit", "the sandboxed tool ended before its last line\n%s", what)
			return ""
		}
		if strings.Contains(out.String(), c08secret) && !strings.Contains(strings.Join(texts, ""), c08secret) {
			c.Violate("secret-read", "the output holds the canary's content\n%s", what)
			return ""
		}
		return out.String()
	}
	a := run(true)
	if a == "" {
		return
	}
	c.Count("tool_runs", 1)
	c.Nontrivial(strings.Join(texts, "\n"))
}

func init() {
	register(&Prop{
		ID:    "C08",
		Rule:  "sandboxed interpreters (seven ways of making one, four entry points, and the tool with -sandbox by script, -c and REPL) evaluate calls of every name they know and of every word in the library's sources, by some 65 routes, with arguments that point at canary files, unused file names, commands, an environment variable and exit codes; monitors: inotify on the canary directory, resource usage and presence of child processes, snapshots of environment and working directory, death of the process, and comparison of every result between a world with the canaries and one without; non-trivial texts gave a value",
		Level: "bounded",
		Assumptions: []string{
			"a call that blocks for ever on a channel is not judged here",
			"the Go library's own reading of time-zone data at start-up is not the script's doing",
		},
		Init:        c08Init,
		N:           func(t string) int { return tierN(t, 14000, 250000) },
		Run:         c08Case,
		MinDistinct: func(t string) int { return 8000 },
	})
}
