package main

// Wild programs: calls of every name the interpreter knows with arguments of
// every kind, well typed only by accident, and texts damaged at random.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

type wild struct {
	c      *Ctx
	names  []string
	cyclic bool // data that contains itself
	deep   int  // nesting of deep data, 0 for none
	n      int
	big    int
}

var wildSpecial = []string{"and", "or", "cond", "quote", "def", "mdef", "fn", "defn", "begin", "let", "letseq", "assert", "defmac", "macexpand", "syntaxQuote", "for", "set", "break", "continue", "newScope", "package", "return", "_ls", "unquote", "unquote-splicing"}

// wildNames lists the names of the interpreter but for those given.
func wildNames(env *zygo.Zlisp, skip map[string]bool) []string {
	seen := map[string]bool{}
	for k := range c19Names(env) {
		seen[k] = true
	}
	for _, k := range wildSpecial {
		seen[k] = true
	}
	for k := range zygo.AllBuiltinFunctions() {
		seen[k] = true
	}
	var out []string
	for k := range seen {
		if skip[k] || strings.HasPrefix(k, "__anon") || strings.ContainsAny(k, " ()[]{}\"`';,") {
			continue
		}
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var wildPrelude = []string{
	`(struct Car [(field Id: int64 e:0) (field Name: string e:1) (field Tags: ([]string) e:2) (field Next: (* Car) e:3)])`,
	`(def car1 (Car Id:3 Name:"beetle"))`,
	`(def pkA (package "pkA" { Pub := 1; priv := 2; (defn Get [x] (+ x priv)) (def In (package "In" (def Deep 5) (def H (hash k:1)))) }))`,
	`(def wh (hash a:1 b:"two" c:[1 2 3] d:(hash e:nil f:2.5)))`,
	`(def wa [1 "two" 'c' nil [4 5] (hash k:1)])`,
	`(def wl (list 1 "two" 'c' nil (list 4 5)))`,
	`(def sn (snoopy cry:"yeah" id:[1 2]))`,
	`(def re (regexpCompile "a(b)+"))`,
	`(defmac wm [x & r] ^(list ~x ~@r))`,
	`(def mk (fn [x] (fn [y] (+ x y))))`,
	`(def ctr 0)`,
}

func (w *wild) atom() string {
	c := w.c
	return pick(c.Rng, []string{
		"0", "1", "-1", "2", "7", "9223372036854775807", "-9223372036854775808", "1e300", "-0.0", "2.5", "NaN", "nan", "+Inf", "-Inf", "5ULL", "18446744073709551615ULL", "0x1F", "1_000",
		`""`, `"s"`, `"a,b\nc"`, `"é日"`, `"%d %s %v"`, "`raw \"q\"`", `"a(b"`, `"2006-01-02"`, "'a'", `'\n'`, "'日'", "true", "false", "nil", "null",
		"%x", "(quote y)", "%a.b", "(quote car1.Id)", "a:", "k:", "?q", "#z", "%#z", "$s",
		"wh", "wa", "wl", "car1", "sn", "pkA", "re", "mk", "ctr", "f0", "f1", "Car", "snoopy", "int64", "string", "wm", "wh.a", "wh.d.f", "wh.zz", "car1.Id", "car1.Nope", "pkA.Pub", "pkA.priv", "pkA.In.Deep", "pkA.In.H.k", "nosuch", "nosuch.x", "hh.b.c",
		"[]", "()", "(hash)", "[nil]", "(list)", "{}",
		"+", "map", "apply", "(fn [] 1)", "(fn [a] a)", "(fn [a & r] r)", "(fn [#a] (force #a))", "(mk 1)",
	})
}

func (w *wild) value(d int) string {
	c := w.c
	w.big++
	if d <= 0 || w.big > 60 || c.chance(1, 3) {
		return w.atom()
	}
	v := func() string { return w.value(d - 1) }
	list := func(n int) string {
		var p []string
		for k := c.intn(n); k > 0; k-- {
			p = append(p, v())
		}
		return strings.Join(p, " ")
	}
	switch c.intn(30) {
	case 0:
		return "[" + list(5) + "]"
	case 1:
		return "(list " + list(5) + ")"
	case 2:
		return "(cons " + v() + " " + v() + ")"
	case 3:
		return "(hash " + pick(c.Rng, []string{"a:", "k:", `"s"`, "3", "'c'", "[1 2]", v()}) + " " + v() + " b:" + v() + ")"
	case 4:
		return "(hash a:" + v() + " b:" + v() + " c:" + v() + ")"
	case 5:
		return "(Car Id:" + v() + " Name:" + v() + ")"
	case 6:
		return "(snoopy " + pick(c.Rng, []string{"cry:", "id:", "chld:", "speed:", "nope:", "pack:", "carrying:"}) + v() + " " + pick(c.Rng, []string{"cry:", "id:", "friends:", "nope2:"}) + v() + ")"
	case 7:
		return "(& " + v() + ")"
	case 8:
		return "(quote (" + list(5) + "))"
	case 9:
		return "^(" + list(3) + " ~" + v() + " ~@" + v() + ")"
	case 10:
		return "(fn [" + pick(c.Rng, []string{"", "x", "x y", "& r", "x & r", "#x", "x:int64", "3", "x x", "&", "& &"}) + "] " + v() + ")"
	case 11:
		return "(raw " + v() + ")"
	case 12:
		return pick(c.Rng, []string{"(json ", "(msgpack ", "(unjson ", "(unmsgpack ", "(str ", "(gob ", "(togo ", "(json2 "}) + v() + ")"
	case 13:
		return "(package \"q\" (def X " + v() + "))"
	case 14:
		return "(let [x " + v() + "] " + v() + ")"
	case 15:
		return "{" + v() + pick(c.Rng, []string{" + ", " - ", " * ", " / ", " mod ", " ** ", " == ", " < ", " and ", " or ", " = ", " := ", "; ", " , ", " += ", " >= ", "."}) + v() + "}"
	case 16:
		return pick(c.Rng, []string{"{wa[" + v() + "]}", "{wh[" + v() + "]}", "{wa[" + v() + ":" + v() + "]}", "{\"abc\"[" + v() + "]}", "(arrayidx wa [" + v() + "])", "(hashidx wh [" + v() + "])"})
	case 17:
		if w.cyclic {
			w.n++
			return pick(c.Rng, []string{
				fmt.Sprintf("(begin (def cy%d [1 2]) (aset cy%d 0 cy%d) cy%d)", w.n, w.n, w.n, w.n),
				fmt.Sprintf("(begin (def cy%d (hash a:1)) (hset cy%d b: cy%d) cy%d)", w.n, w.n, w.n, w.n),
				fmt.Sprintf("(begin (def cy%d (hash a:[1])) (aset cy%d.a 0 cy%d) cy%d)", w.n, w.n, w.n, w.n),
				fmt.Sprintf("(begin (def cy%d (list 1 [2] 3)) (aset (second cy%d) 0 cy%d) cy%d)", w.n, w.n, w.n, w.n),
				fmt.Sprintf("(begin (def cy%d (Car Id:1)) (set cy%d.Next (& cy%d)) cy%d)", w.n, w.n, w.n, w.n),
			})
		}
	case 18:
		if w.deep > 0 {
			w.n++
			k := 10 + c.intn(w.deep)
			return fmt.Sprintf("(begin (def dp%d %s) (for [(def i 0) (< i %d) (set i (+ i 1))] (set dp%d %s)) dp%d)", w.n, v(), k, w.n,
				strings.ReplaceAll(pick(c.Rng, []string{"[X]", "(list X)", "(hash a:X)", "(cons 1 X)", "(cons X 1)", "(list (quote quote) X)", "[1 X 2]", "(& X)", "(fn [] X)"}), "X", fmt.Sprintf("dp%d", w.n)), w.n)
		}
	case 19:
		return "(apply " + v() + " " + v() + ")"
	case 20:
		return "(map " + v() + " " + v() + ")"
	case 21:
		return "(eval " + v() + ")"
	case 22:
		return "(read " + v() + ")"
	case 23:
		g := &congen{c: c, n: 1000 + w.n*10}
		w.n++
		return g.expand(pick(c.Rng, constructs), 0)
	}
	return w.call(d)
}

// call calls any name with any arguments.
func (w *wild) call(d int) string {
	c := w.c
	w.big++
	var sb strings.Builder
	h := pick(c.Rng, w.names)
	if c.chance(1, 25) {
		h = w.value(d - 1)
	}
	sb.WriteString("(" + h)
	n := c.intn(4)
	if c.chance(1, 12) {
		n = c.intn(8)
	}
	for k := 0; k < n; k++ {
		sb.WriteString(" " + w.value(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

// wildTokens splits a text so that the pieces joined give it back.
func wildTokens(s string) []string {
	var out []string
	i := 0
	cls := func(b byte) int {
		switch {
		case b == ' ' || b == '\n' || b == '\t':
			return 0
		case strings.IndexByte("()[]{}", b) >= 0:
			return -1
		case strings.IndexByte("\"'`~@^%;:,.#&*+-=<>!/", b) >= 0:
			return -2
		}
		return 1
	}
	for i < len(s) {
		j := i + 1
		k := cls(s[i])
		for j < len(s) && k >= 0 && cls(s[j]) == k {
			j++
		}
		out = append(out, s[i:j])
		i = j
	}
	return out
}

var wildJunk = []string{"(", ")", "[", "]", "{", "}", "\"", "'", "`", "~", "~@", "^", "%", ";", ":", ",", ".", "#", "&", "*", "+", "-", "=", ":=", "->", "/*", "*/", "//", "\n", "\\", "nil", "1", "x", "$", "?", "!", "|", "@", "\x00", "\xff", "日", "'", "''", "()", "[]", "{}", "for", "fn", "def", "if", "else", "quote", "let", "infix", "0x", "1e", "1.", ".5", "--", "++", "+=", "<-", "<!", "break", "range", "func", "package", "a.b.c", "..", ".a.", "a:", "::", ":a"}

// damage changes a few tokens of a text.
func (w *wild) damage(s string, n int) string {
	c := w.c
	t := wildTokens(s)
	for ; n > 0 && len(t) > 0; n-- {
		i := c.intn(len(t))
		switch c.intn(8) {
		case 0, 1:
			t = append(t[:i:i], t[i+1:]...)
		case 2:
			t = append(t[:i:i], append([]string{t[i], t[i]}, t[i+1:]...)...)
		case 3:
			j := c.intn(len(t))
			t[i], t[j] = t[j], t[i]
		case 4:
			t[i] = pick(c.Rng, wildJunk)
		case 5:
			t = append(t[:i:i], append([]string{pick(c.Rng, wildJunk)}, t[i:]...)...)
		case 6:
			t[i] = t[c.intn(len(t))]
		case 7:
			if c.chance(1, 3) {
				t = t[:i]
			} else {
				t[i] = w.atom()
			}
		}
	}
	return strings.Join(t, "")
}

var corpusTexts []string

// corpus gives the sources of the scripts in the repository's tests.
func corpus() []string {
	if corpusTexts == nil {
		dir := os.Getenv("ZMON_CORPUS")
		if dir == "" {
			dir = "/repo/tests"
		}
		fs, _ := filepath.Glob(filepath.Join(dir, "*.zy"))
		sort.Strings(fs)
		for _, f := range fs {
			if b, err := os.ReadFile(f); err == nil && len(b) < 20000 {
				corpusTexts = append(corpusTexts, string(b))
			}
		}
		if corpusTexts == nil {
			corpusTexts = []string{"(+ 1 2)"}
		}
	}
	return corpusTexts
}

func newWildEnv(rec *recorder) *zygo.Zlisp {
	env := newConstructEnv(rec)
	for _, s := range wildPrelude {
		if o := evalStr(env, 100000, s); !o.ok() {
			panic(fmt.Sprintf("prelude %s: %s", s, o))
		}
	}
	return env
}
