package main

// C20: the same texts are evaluated in several fresh interpreters of this
// process, with other interpreters at work in between, and in fresh processes;
// every value, printed text, error text and stack trace must come out the same.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

var c20 struct {
	dir   string
	out   *outCapture
	names []string
	done  int // cases since the helper was started
	cmd   *exec.Cmd
	in    io.WriteCloser
	rd    *bufio.Reader
}

// The explicit random, time and pointer functions, and what blocks or eats
// all memory.
var c20skip = map[string]bool{"random": true, "now": true, "timeit": true, "millis": true, "send": true, "<!": true, "makeArray": true, "_closdump": true, "stop": true, "makeChan": true, "dump": true}

var c20addr = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// Pointers print as addresses, which the statement sets aside, wherever they
// are printed; the innards of Go values have no business in an error text.
func c20maskErr(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		if !strings.Contains(l[i], "&{") && !strings.Contains(l[i], "map[") && !strings.Contains(l[i], "{0x") {
			l[i] = c20mask(l[i])
		}
	}
	return strings.Join(l, "\n")
}

func c20mask(s string) string { return c20addr.ReplaceAllString(s, "0xADDR") }

type c20job struct {
	Mode  int
	Texts []string
}

// c20eval runs the texts in a fresh interpreter and gives what can be seen,
// one entry a text.
func c20eval(j c20job, out *outCapture) []string {
	var rec recorder
	var env *zygo.Zlisp
	out.start()
	switch j.Mode {
	case 0:
		env = newConstructEnv(&rec)
		for _, s := range wildPrelude {
			evalStr(env, 100000, s)
		}
	case 1:
		env = newFull()
		rec.install(env)
	case 2:
		env = newCore()
		rec.install(env)
	case 3:
		env = zygo.NewZlispSandbox()
		defang(env)
		rec.install(env)
	case 4:
		env = newFull()
		rec.install(env)
		env.ImportDemoData()
	}
	res := []string{}
	if s := out.stop(); s != "" {
		res = append(res, "setup printed: "+c20mask(s))
	}
	for _, t := range j.Texts {
		rec.log = nil
		out.start()
		var val, shown string
		o := guard(300_000, func() (zygo.Sexp, error) {
			v, err := env.EvalString(t)
			if err == nil {
				val = dump(v)
				shown = v.SexpString(nil)
			}
			return v, err
		})
		printed := out.stop()
		var sb strings.Builder
		sb.WriteString(o.Kind + "\n")
		switch o.Kind {
		case "value":
			fmt.Fprintf(&sb, "value %s\nshown %s\n", c20mask(val), c20mask(shown))
		case "error":
			fmt.Fprintf(&sb, "error %s\n", c20maskErr(o.Err))
		case "panic":
			fmt.Fprintf(&sb, "panic %s\n", c20mask(strings.SplitN(o.Err, "\n", 2)[0]))
		}
		fmt.Fprintf(&sb, "printed %s\nemitted %q\n", c20mask(printed), rec.log)
		if o.Kind != "value" {
			if o.Kind == "error" {
				func() {
					defer func() { recover() }()
					fmt.Fprintf(&sb, "trace %s\n", c20mask(env.GetStackTrace(fmt.Errorf("E"))))
				}()
			}
			res = append(res, sb.String())
			if o.Kind != "error" {
				break
			}
			env.Clear()
			continue
		}
		res = append(res, sb.String())
	}
	return res
}

func c20serve() {
	dir, err := os.MkdirTemp("", "c20s")
	if err != nil {
		os.Exit(3)
	}
	defer os.RemoveAll(dir)
	real := os.Stdout
	out := newOutCapture(filepath.Join(dir, "out"))
	rd := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if err != nil {
			return
		}
		var j c20job
		if json.Unmarshal(line, &j) != nil {
			os.Exit(3)
		}
		res := c20eval(j, out)
		os.Stdout = real
		b, _ := json.Marshal(res)
		real.Write(append(b, '\n'))
	}
}

func c20stop() {
	if c20.cmd != nil {
		c20.in.Close()
		c20.cmd.Process.Kill()
		c20.cmd.Wait()
		c20.cmd = nil
	}
}

// c20other runs the job in another process.
func c20other(j c20job) ([]string, error) {
	if c20.cmd == nil {
		exe, err := os.Executable()
		if err != nil {
			return nil, err
		}
		cmd := exec.Command(exe, "probe", "c20serve")
		cmd.Dir = c20.dir
		in, _ := cmd.StdinPipe()
		out, _ := cmd.StdoutPipe()
		cmd.Stderr = nil
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		c20.cmd, c20.in, c20.rd = cmd, in, bufio.NewReaderSize(out, 1<<20)
		c20.done = 0
	}
	b, _ := json.Marshal(j)
	c20.in.Write(append(b, '\n'))
	type ans struct {
		l   []byte
		err error
	}
	ch := make(chan ans, 1)
	rd := c20.rd
	go func() {
		l, err := rd.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			c20stop()
			return nil, a.err
		}
		var r []string
		err := json.Unmarshal(a.l, &r)
		return r, err
	case <-time.After(60 * time.Second):
		c20stop()
		return nil, fmt.Errorf("the other process gave no answer")
	}
}

// c20noise lets other interpreters of the process work.
func c20noise(c *Ctx, w *wild) {
	c20.out.start()
	defer c20.out.stop()
	defer func() { recover() }()
	env := newFull()
	if c.chance(1, 2) {
		env = newCore()
	}
	for _, s := range []string{
		fmt.Sprintf("(struct Car [(field Id: string) (field Z%d: int64)])", c.intn(1000)), "(registerDemoFunctions)", "(struct snoopy [(field X: int64)])",
		fmt.Sprintf("(defmap rec%d)", c.intn(1000)), "(interface Car)", "(sliceOf int64)", "(ptr string)", "(hash a:1)", "(Car Id:3)", "(rec A:1)", "(togo (snoopy cry:\"x\"))",
		"(gensym)", "(def pkA 4)", "(defn f0 [x] (+ x 1))", "(1 2 3", "(nosuch)", "(pretty true)", "(json (rec7 a:1))", "(msgmap \"newrec\" (list a:1))", "(var v ([]float64))",
		fmt.Sprintf("(def sym%d (str2sym \"other%d\"))", c.intn(1000), c.intn(1000)), "(symnum %qq)", "(rmsym %car1)", "(interface I [(func a [x:int64] [])])",
		"(setPrettyPrint true)", "(fieldls snoopy)", "(methodls (snoopy))", "(regexpCompile \"a\")",
	} {
		if c.chance(1, 3) {
			evalStr(env, 20000, s)
		}
	}
	w2 := &wild{c: c, names: w.names}
	for k := c.intn(3); k > 0; k-- {
		evalStr(env, 20000, w2.call(2))
	}
	if c.chance(1, 3) {
		d := env.Duplicate()
		evalStr(d, 20000, "(def other 1)")
	}
}

// c20gob: (gob r) writes the numbers Go's gob package gives to types in the
// order it meets them in the process.
func c20gob(c *Ctx) {
	j := c20job{Mode: 1, Texts: []string{"(registerDemoFunctions)", "(defmap snoopy)", `(gob (snoopy cry:"a"))`}}
	k := c20job{Mode: 1, Texts: []string{"(registerDemoFunctions)", "(defmap weather)", `(gob (weather size:3))`}}
	a, err := c20other(j)
	c20stop()
	if err == nil {
		_, err = c20other(k)
	}
	var b []string
	if err == nil {
		b, err = c20other(j)
	}
	c20stop()
	if err != nil {
		c.Inconclusive("other process: " + err.Error())
		return
	}
	c.Eval()
	for i := range a {
		if a[i] != b[i] {
			c.Violate("gob-type-numbers", "(gob r) gave other bytes after an earlier interpreter had encoded another record\nfirst: %s\nthen: %s", clip(a[i]), clip(b[i]))
			return
		}
	}
}

var c20targets = []string{
	"", // the case for gob
	`(togo (snoopy cry:"x" nope1:1 nope2:2 nope3:3))`, `(togo (snoopy nope3:3 nope2:1 nope1:2 speed:"bad" cry:4))`, `(togo (snoopy cry:4 speed:"z" id:"q"))`, `(togo (snoopy speed:"z" cry:4 chld:3))`,
	`(togo (hornet speed:"a" mass:"b" nickname:3))`, `(togo (weather time:3 size:"a" type:4))`, `(togo (eventdemo id:"a" user:3 flight:4 pilot:5))`,
	`(togo (snoopy chld:(hellcat speed:"q" zz:1) cry:5))`, `(togo (setOfPlanes flyers:[(snoopy zz:1) (hornet yy:2)]))`,
	`(_method (snoopy cry:3 qq:1) Sideeffect:)`, `(_method (snoopy) Nope:)`, `(_method (snoopy cry:"a") Fly: (weather time:3 size:"z"))`, `(methodls (snoopy))`, `(fieldls (snoopy))`, `(fieldls (hornet))`,
	`(togo (nestouter inner:(nestinner zz:1 yy:2)))`, `(togo (hash a:1))`, `(togo 3)`, `(str (snoopy cry:"a"))`,
	`(Car Id:"x" Name:3 Zzz:4 Yyy:5)`, `(Car Zzz:1 Yyy:2 Xxx:3)`, `(Car Name:3 Id:"x")`, `(Car Tags:3 Next:4 Id:"q")`, `(set car1.Nope 3)`, `(hset car1 Nope: 3)`, `(hset car1 Next: 3)`, `(hset car1 Next: wh)`, `(hset car1 Tags: (hash a:1))`,
	`(struct T1 [(field A: int64) (field A: string)])`, `(struct T2 [(field A: nosuch) (field B: nosuch2)])`, `(struct T3 [(field x: int64)])`, `(struct T4 3)`, `(interface I1 [(func f [a:int64] [n:int64]) (func g [] [])])`,
	`(typelist)`, `(begin (struct Za [(field A: int64)]) (struct Zb [(field B: int64)]) (defmap zc) (sliceOf Za) (ptr Zb) (typelist))`,
	`(< (quote map) (quote apply))`, `(< (quote hset) (quote hget))`, `(symnum (quote map))`, `(symnum (quote car1))`, `(symnum (quote newone))`, `(list (symnum (quote int64)) (symnum (quote string)) (symnum (quote snoopy)))`,
	`(gensym)`, `(gensym "a")`, `(list (gensym) (gensym) (str2sym "zz"))`, `(fn [x] x)`, `(str (fn [x] x))`, `(defn g [a] (h a))`, `(map (fn [s] (symnum s)) (list %a %map %+ %== %int64 %zz %apply))`,
	`(_ls)`, `(_ls "x")`, `(package "zz" (def a 1) (def B 2) (def cc (hash x:1)) (def Dd (fn [x] x)))`, `(begin (def p (package "zz" (def a 1) (def B 2) (def cc 3))) (str p))`, `(begin pkA)`, `(println pkA)`, `(printf "%v\n" wh)`,
	`(json wh)`, `(json (hash zz:1 aa:2 mm:3 bb:[1 2 (hash q:1 p:2 o:3)]))`, `(json car1)`, `(unjson (raw "{\"z\":1,\"a\":2,\"m\":{\"y\":1,\"b\":2,\"c\":3}}"))`, `(str (unjson (raw "{\"z\":1,\"a\":2,\"m\":{\"y\":1,\"b\":2,\"c\":3},\"Atype\":\"foo\"}")))`,
	`(keys (unjson (raw "{\"z\":1,\"a\":2,\"k\":3,\"b\":4,\"y\":5,\"c\":6,\"x\":7,\"d\":8,\"w\":9}")))`, `(unmsgpack (msgpack (hash z:1 a:2 m:3 b:4 c:5 d:6 e:7 f:8 g:9 h:10)))`, `(raw2str (msgpack (hash z:1 a:2 m:3)))`, `(msgpack (hash z:1 a:2 m:(hash q:1 b:2 c:3)))`,
	`(json2 wh)`, `(json2 (unjson (raw "{\"z\":1,\"a\":2,\"m\":3}")))`, `(msgmap "Zt" (list z:1 a:2 m:3))`,
	`(keys (hash 1 2 "a" 3 'c' 4 x:5 [1 2] 6))`, `(for [(def i 0) (< i 9) (set i (+ i 1))] (hset wh i (* i i))) wh`, `{for k, v := range wh { println k v }}`, `(range k v wh (println k v))`, `(range k v (hash 97 1 'a' 2 98 3 'b' 4 "x" 5 y: 6) (emit k v))`,
	`(begin (def h (hash 97 1 'a' 2 98 3 'b' 4)) (hdel h 97) (hset h 97 9) h)`, `(str (hash 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20))`,
	`(nosuchfn 1 2)`, `nosuchvar`, `(+ 1 "a")`, `(+ wh 1)`, `(map 3 wa)`, `(hget wh zz:)`, `(aget wa 99)`, `(wa 3)`, `(wh 3)`, `(car1 3)`, `(pkA 3)`, `(pkA.priv)`, `pkA.priv`, `pkA.Nope`, `(let [a 1 b] a)`, `(def)`, `(fn)`, `(break)`, `(for 3)`, `(cond)`, `(macexpand (wm 1 2 3))`, `(wm)`,
	`(assert false)`, `(expectError "zz" (nosuch))`, `(begin (defn rr [n] (cond (== n 0) (nosuch) (+ 1 (rr (- n 1))))) (rr 5))`, `(apply nosuch [1])`, `(eval (quote (nosuch)))`, `(let [x (fn [] (boom 3))] (x))`,
	`(str (& car1))`, `(& car1)`, `(json (& car1))`, `(* (& car1))`, `(def (* Car) 3)`, `(set car1.Id (& car1))`, `(+ (& car1) 1)`, `(aget wa (& car1))`, `(hget (& car1) a:)`, `(split (& car1) ",")`, `(raw (& car1))`, `(nth 3 (& car1))`, `(aset wa 0 (& car1)) (str wa)`, `(arrayidx (& car1) [0])`, `(hashidx (& car1) k:)`, `(def v3:int64 (& car1))`, `(Car Id:(& car1))`,
	`(split wh ",")`, `(split (snoopy) ",")`, `(raw (snoopy))`, `(raw pkA)`, `(fieldls pkA)`, `(fieldls wh)`, `(read pkA)`, `(hget pkA a:)`, `(sget pkA 0)`, `(len pkA)`, `(first pkA)`, `(aget pkA 0)`, `(not pkA)`, `(concat pkA pkA)`, `(append pkA 1)`, `(symnum pkA)`, `(+ pkA 1)`, `(slice pkA 0 1)`, `(keys pkA)`, `(json pkA)`, `(msgpack pkA)`, `(str re)`, `(json re)`, `(togo (& car1))`, `(+ re 1)`, `(raw re)`,
	`(split mk ",")`, `(raw mk)`, `(json mk)`, `(msgpack mk)`, `(+ mk 1)`, `(read mk)`, `(hset mk a: 1)`, `(regexpFind mk "a")`, `(aset mk 0 1)`, `(sget "abc" mk)`, `(type? mk)`, `(type? re)`, `(type? (& car1))`, `(type? Car)`, `(str Car)`, `(str snoopy)`, `(str int64)`, `(json int64)`, `(json Car)`, `(msgpack Car)`, `(+ int64 1)`, `(+ Car 1)`, `(snoopy cry:Car)`, `(togo (snoopy cry:Car))`, `(togo (snoopy cry:(& car1)))`, `(togo (snoopy chld:(& car1)))`, `(togo (snoopy carrying:[(hornet) (hellcat) 3 "a"]))`,
	`(date)`, `(astm "2020-01-02T03:04:05Z")`, `(dur 3)`, `(nextBusinessDay "2020-01-03")`, `(defined? zz)`, `(methodls 3)`, `(registerDemoFunctions)`, `(snoopy zzz:1 yyy:2)`, `(fieldls (setOfPlanes))`, `(var v Car)`, `(var v (* Car))`, `(begin (var v ([]Car)) v)`, `(symbols)`, `(quote (a b . c))`, `(_closdump mk)`, `(str (mk 1))`, `(println mk car1 wh pkA re)`, `(printf "%v %T %p\n" mk)`, `(sprintf "%v" wh)`,
}

func c20case(c *Ctx, idx int) {
	w := &wild{c: c, names: c20.names, cyclic: c.chance(1, 4), deep: 6}
	j := c20job{}
	kind := ""
	cor := corpus()
	switch {
	case idx == 0:
		c20gob(c)
		return
	case idx < len(c20targets):
		kind = "target"
		j.Texts = []string{c20targets[idx], "(list wh wa car1)", "(str (list (gensym) (typelist)))"}
	case idx < len(c20targets)+len(cor):
		c20tool(c, cor[idx-len(c20targets)])
		return
	default:
		switch k := c.intn(12); {
		case k >= 10:
			kind = "shared"
			j.Texts = c20shared(c)
		case k < 4:
			kind = "wild"
			for n := 1 + c.intn(5); n > 0; n-- {
				w.big = 0
				j.Texts = append(j.Texts, w.call(3))
			}
		case k < 5:
			kind = "targets"
			for n := 1 + c.intn(5); n > 0; n-- {
				j.Texts = append(j.Texts, pick(c.Rng, c20targets[1:]))
			}
		case k < 7:
			kind = "constructs"
			g := &congen{c: c}
			for n := 1 + c.intn(4); n > 0; n-- {
				j.Texts = append(j.Texts, fmt.Sprintf(pick(c.Rng, formContexts), g.form(c.intn(3))))
			}
		case k < 8:
			kind = "damaged"
			s := pick(c.Rng, c20targets[1:])
			if c.chance(1, 2) {
				s = pick(c.Rng, cor)
				if len(s) > 3000 {
					s = s[:3000]
				}
			}
			j.Texts = append(j.Texts, w.damage(s, 1+c.intn(3)))
		default:
			kind = "program"
			g := newGen(c, gprofile{errs: 12, lazies: true, closures: true, loops: true, ops: true, maxDepth: 6, full: true, names: 5}, 60+c.intn(120))
			p := g.program(3 + c.intn(5))
			for _, f := range p {
				j.Texts = append(j.Texts, srcOf(f))
			}
		}
		if c.chance(1, 3) {
			j.Mode = 1 + c.intn(4)
		}
		j.Texts = append(j.Texts, "(list (gensym) (symnum (quote newsym)))")
	}
	for _, t := range j.Texts {
		if c20explicit(t) {
			c.Count("set_aside", 1)
			return
		}
	}
	c.Sample(strings.Join(j.Texts, "\n"))
	c.Count("kind_"+kind, 1)
	first := c20eval(j, c20.out)
	for k := 0; k < 3; k++ {
		if k < 2 {
			c20noise(c, w)
		}
		r := c20eval(j, c20.out)
		c.Eval()
		if c20differ(c, j, first, r, "another interpreter of the process") {
			return
		}
	}
	r, err := c20other(j)
	if err != nil {
		c.Inconclusive("other process: " + err.Error())
	} else {
		c.Eval()
		c.Count("other_process_runs", 1)
		if c20differ(c, j, first, r, "another process") {
			return
		}
	}
	if c20.done++; c20.done >= 12 {
		c20stop()
		c.Count("processes", 1)
	}
	nt := false
	for _, s := range first {
		if strings.HasPrefix(s, "error") {
			c.Count("errors_compared", 1)
			nt = true
		} else if strings.HasPrefix(s, "value") {
			c.Count("values_compared", 1)
			nt = true
		}
		if !strings.Contains(s, "\nprinted \n") {
			c.Count("printed_compared", 1)
		}
	}
	if nt {
		c.Nontrivial(strings.Join(j.Texts, "\n"))
	}
}

var c20word = regexp.MustCompile(`[A-Za-z_]+`)

func c20explicit(t string) bool {
	for _, wd := range c20word.FindAllString(t, -1) {
		if c20skip[wd] || wd == "gob" || wd == "system" || wd == "sys" || wd == "sleep" {
			return true
		}
	}
	if strings.Contains(t, "(& ") && (strings.Contains(t, "json") || strings.Contains(t, "msgpack") || strings.Contains(t, "gob")) {
		return true // an address encoded
	}
	return strings.Contains(t, "<!") || strings.Contains(t, "%p") // a pointer printed on request
}

func c20differ(c *Ctx, j c20job, a, b []string, where string) bool {
	for i := 0; i < len(a) || i < len(b); i++ {
		var x, y string
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x == y {
			continue
		}
		what := "value"
		for _, l := range strings.Split(x, "\n") {
			if !strings.Contains(y, l) {
				if f := strings.Fields(l); len(f) > 0 {
					switch f[0] {
					case "error", "printed", "emitted", "trace", "value", "shown":
						what = f[0]
					}
				}
				break
			}
		}
		if what == "error" {
			what += ":" + c20sig(x)
		}
		c.Violate("differs-"+what, "the same texts gave something else in %s\ntexts:\n%s\nfirst run:\n%s\nother run:\n%s", where, strings.Join(j.Texts, "\n"), clip(c20around(x, y)), clip(c20around(y, x)))
		return true
	}
	return false
}

// c20sig is what an error text says, without the data in it.
func c20sig(x string) string {
	for _, l := range strings.Split(x, "\n") {
		if strings.HasPrefix(l, "error ") {
			l = regexp.MustCompile(`'[^']*'|"[^"]*"|[0-9][0-9a-fx]*|\(.*\)|\{.*\}|\[.*\]`).ReplaceAllString(l[6:], "_")
			l = strings.Join(strings.Fields(l), "-")
			if len(l) > 50 {
				l = l[:50]
			}
			return l
		}
	}
	return ""
}

// c20around cuts away what two texts begin with in common.
func c20around(x, y string) string {
	if len(x) < 600 {
		return x
	}
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	if i < 200 {
		return x
	}
	return "..." + x[i-200:]
}

// c20tool runs the tool on a text in processes of its own.
func c20tool(c *Ctx, text string) {
	bin := os.Getenv("ZYGO_BIN")
	if bin == "" {
		bin = filepath.Join(verifDir(), "build", "zygo")
	}
	if c20explicit(text) {
		c.Count("set_aside", 1)
		return
	}
	c.Sample(text)
	script := filepath.Join(c20.dir, "script.zy")
	os.WriteFile(script, []byte(text), 0600)
	var first string
	for k := 0; k < 3; k++ {
		args := []string{"-quiet", "-exitonfail", script}
		if k == 2 && c.chance(1, 2) {
			args = []string{"-quiet", "-exitonfail", script}
		}
		cmd := exec.Command(bin, args...)
		cmd.Dir = c20.dir
		var out, er bytes.Buffer
		cmd.Stdin = strings.NewReader("")
		cmd.Stdout, cmd.Stderr = &out, &er
		if err := cmd.Start(); err != nil {
			c.Inconclusive("tool did not start")
			return
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
			c.Inconclusive("tool timed out")
			return
		}
		c.Eval()
		s := fmt.Sprintf("exit %d\n%s\n%s", cmd.ProcessState.ExitCode(), c20mask(out.String()), er.String())
		if strings.Contains(s, "goroutine ") {
			c.Count("tool_crashes", 1)
			return
		}
		if k == 0 {
			first = s
		} else if s != first {
			c.Violate("tool-differs", "the tool gave something else in another run\nscript:\n%s\nfirst run:\n%s\nother run:\n%s", clip(text), clip(c20around(first, s)), clip(c20around(s, first)))
			return
		}
	}
	c.Count("tool_scripts", 1)
	c.Nontrivial(text)
}

func init() {
	probes["c20serve"] = func(a []string) { c20serve() }
	register(&Prop{
		ID:    "C20",
		Rule:  "each program (targeted at every Go map the library walks, wild calls of every name, construct templates, generated programs, damaged texts; the corpus through the tool) is evaluated in four fresh interpreters of one process with other interpreters declaring, failing and interning in between, and once in another process; the typed value, the shown text, everything printed, the error text and the stack trace of every text must be equal; addresses are masked in values and printed text only",
		Level: "bounded",
		Assumptions: []string{
			"texts that name the random, time, channel and system functions or print with %p are set aside",
			"a Go map walked in the same order in all five runs by chance is not noticed in that case",
		},
		Init: func(c *Ctx) {
			dir, err := os.MkdirTemp("", "c20")
			if err != nil {
				panic(err)
			}
			c20.dir = dir
			os.Chdir(dir)
			c20.out = newOutCapture(filepath.Join(dir, "out"))
			env := newFull()
			evalStr(env, 100000, "(registerDemoFunctions)")
			c20.names = wildNames(env, c20skip)
		},
		N:           func(t string) int { return len(c20targets) + len(corpus()) + tierN(t, 15000, 200000) },
		Run:         c20case,
		MinDistinct: func(t string) int { return 9000 },
	})
}
