package main

// C18: package members are private unless capitalised.
//
// Random trees of packages are built in a real interpreter and, beside it, as
// a model that knows each member's visibility and value. Members are read,
// called and assigned through dot paths by many routes; each access must give
// what the model says, and after each access a function defined inside every
// package reports the members' values to the monitor.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	"github.com/glycerine/zygomys/v9/zygo"
)

func init() {
	register(&Prop{
		ID:    "C18",
		Rule:  "every access to a package member through a dot path succeeds with the member's value, or is refused without effect, as a model of the packages' members says",
		Level: "bounded",
		Assumptions: []string{
			"a name is capitalised if its first character is an upper-case letter; every other first character makes it private",
			"keys of a hash that may be reached are accessible whatever their case; naming a nested package as the target of an assignment needs a capital",
			"paths that name nothing in the package but something in the scopes around it are not judged",
		},
		N:           func(t string) int { return tierN(t, 24000, 600000) },
		Run:         c18Case,
		MinDistinct: func(t string) int { return tierN(t, 40000, 200000) },
	})
}

// c18m is a member of a package or hash.
type c18m struct {
	name string
	kind byte // i int, a array of ints, f function, h hash, p package
	val  int64
	id   int64 // what a function emits when it runs
	arr  []int64
	h    *c18h
	p    *c18p
	in   *c18in // f: what it does with members of its package
	own  bool   // not among what the kept function lists
}

type c18h struct{ ms []*c18m }

type c18p struct {
	name   string
	ms     []*c18m
	parent *c18p
	snap   int64 // key of the kept function that reports the members
	maker  bool  // made by a function: values are offset by its argument
}

// c18in is the body of a function defined inside a package.
type c18in struct {
	home *c18p
	path string // as written inside
	set  bool
	mk   bool // returns a function that does it
}

func upper(s string) bool { return unicode.IsUpper([]rune(s)[0]) }

func (p *c18p) find(n string) *c18m {
	for _, m := range p.ms {
		if m.name == n {
			return m
		}
	}
	return nil
}

func (h *c18h) find(n string) *c18m {
	for _, m := range h.ms {
		if m.name == n {
			return m
		}
	}
	return nil
}

// the outcome of following a path
const (
	c18ok     = "ok"
	c18denied = "denied"
	c18bad    = "bad"    // a hop that is neither package nor hash, or a missing key
	c18absent = "absent" // not judged
)

type c18loc struct {
	st  string
	m   *c18m
	inP *c18p
	inH *c18h
	why string
}

// walk follows hops from a package or hash.
func c18walk(p *c18p, h *c18h, hops []string, assign bool) c18loc {
	for i, hop := range hops {
		last := i == len(hops)-1
		var m *c18m
		if p != nil {
			m = p.find(hop)
			if m == nil {
				return c18loc{st: c18absent}
			}
			up := upper(hop)
			if last {
				if !up && (assign || m.kind != 'p') {
					return c18loc{st: c18denied, m: m, inP: p, why: fmt.Sprintf("%s is private in package %s", hop, p.name)}
				}
				return c18loc{st: c18ok, m: m, inP: p}
			}
			if !up && m.kind == 'h' {
				return c18loc{st: c18denied, m: m, inP: p, why: fmt.Sprintf("hash %s is private in package %s", hop, p.name)}
			}
		} else {
			m = h.find(hop)
			if last {
				if m == nil && !assign {
					return c18loc{st: c18bad}
				}
				return c18loc{st: c18ok, m: m, inH: h}
			}
			if m == nil {
				return c18loc{st: c18bad}
			}
		}
		switch m.kind {
		case 'p':
			p, h = m.p, nil
		case 'h':
			p, h = nil, m.h
		default:
			return c18loc{st: c18bad}
		}
	}
	return c18loc{st: c18bad}
}

// c18root is a name bound outside.
type c18root struct {
	name string
	p    *c18p
	h    *c18h
	desc string
}

type c18 struct {
	c      *Ctx
	env    *zygo.Zlisp
	rec    recorder
	kept   map[int64]zygo.Sexp
	next   int64
	nextID int64
	npkg   int
	nname  int
	pkgs   []*c18p
	roots  []c18root
	texts  []string
	files  []string
	inside []*c18in
}

func (x *c18) secret() int64 {
	x.next += int64(1 + x.c.intn(9))
	return 600000000 + x.next*1000
}

var c18lower = []string{"a", "b", "c", "aB", "ab2", "_d", "é", "ñandu", "日", "ǅx", "$d", "_A", "a?", "æ"}
var c18upper = []string{"A", "B", "C", "Ab", "AB2", "É", "Ω", "Ñandu", "A?", "Æ", "Ж"}

func (x *c18) memberName(p *c18p) string {
	for try := 0; ; try++ {
		var n string
		if x.c.chance(1, 2) {
			n = pick(x.c.Rng, c18lower)
		} else {
			n = pick(x.c.Rng, c18upper)
		}
		if x.c.chance(1, 2) {
			n = n[:1]
			if n[0] >= 0x80 || n == "?" || n == "$" {
				n = pick(x.c.Rng, []string{"a", "A", "b", "B", "c", "C"})
			}
		}
		if try > 20 {
			x.nname++
			n = fmt.Sprintf("%s%d", n, x.nname)
		}
		if p.find(n) == nil {
			return n
		}
	}
}

var c18keys = []string{"k", "K", "z", "Z", "a", "A", "sub", "Sub", "_k", "é"}

func (x *c18) genHash(depth int, p *c18p) *c18h {
	h := &c18h{}
	n := 1 + x.c.intn(3)
	for i := 0; i < n; i++ {
		k := pick(x.c.Rng, c18keys)
		if h.find(k) != nil {
			continue
		}
		m := &c18m{name: k, kind: 'i', val: x.secret()}
		switch {
		case depth > 0 && x.c.chance(1, 3):
			m.kind, m.h = 'h', x.genHash(depth-1, p)
		case p != nil && x.c.chance(1, 3):
			// a nested package defined before
			var ps []*c18m
			for _, q := range p.ms {
				if q.kind == 'p' {
					ps = append(ps, q)
				}
			}
			if len(ps) > 0 {
				q := pick(x.c.Rng, ps)
				m.kind, m.p, m.in = 'p', q.p, &c18in{path: q.name}
			}
		case x.c.chance(1, 8):
			m.kind, m.arr = 'a', []int64{x.secret(), x.secret()}
		case x.c.chance(1, 6):
			x.nextID++
			m.kind, m.id = 'f', x.nextID
		}
		h.ms = append(h.ms, m)
	}
	return h
}

func (x *c18) num(p *c18p, v int64) string {
	if p.maker {
		return fmt.Sprintf("(+ %d n)", v)
	}
	return fmt.Sprint(v)
}

func (x *c18) hashText(h *c18h, p *c18p) string {
	var sb strings.Builder
	sb.WriteString("(hash")
	for _, m := range h.ms {
		fmt.Fprintf(&sb, " %s: ", m.name)
		switch m.kind {
		case 'i':
			sb.WriteString(x.num(p, m.val))
		case 'a':
			fmt.Fprintf(&sb, "[%s %s]", x.num(p, m.arr[0]), x.num(p, m.arr[1]))
		case 'h':
			sb.WriteString(x.hashText(m.h, p))
		case 'p':
			sb.WriteString(m.in.path)
		case 'f':
			fmt.Fprintf(&sb, "(fn [] (begin (emit %s) %s))", x.num(p, m.id), x.num(p, m.val))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// genPkg makes a package and the text that builds it.
func (x *c18) genPkg(depth int, parent *c18p, maker bool) (*c18p, string) {
	x.npkg++
	p := &c18p{name: fmt.Sprintf("pk%d", x.npkg), parent: parent, maker: maker}
	if x.c.chance(1, 4) {
		p.name = fmt.Sprintf("Pk%d", x.npkg)
	}
	x.pkgs = append(x.pkgs, p)
	x.nextID++
	p.snap = x.nextID
	var sb strings.Builder
	fmt.Fprintf(&sb, "(package %q", p.name)
	n := 2 + x.c.intn(5)
	for i := 0; i < n; i++ {
		m := &c18m{name: x.memberName(p), kind: 'i'}
		m.val = x.secret()
		sb.WriteString(" ")
		switch {
		case depth > 0 && x.c.chance(2, 5):
			m.kind = 'p'
			if x.c.chance(1, 6) && len(x.roots) > 0 && !maker {
				// a package from elsewhere under a new name
				ro := pick(x.c.Rng, x.roots)
				if ro.p != nil {
					m.p = ro.p
					fmt.Fprintf(&sb, "(def %s %s)", m.name, ro.name)
					break
				}
			}
			q, t := x.genPkg(depth-1, p, maker)
			m.p = q
			fmt.Fprintf(&sb, "(def %s %s)", m.name, t)
		case x.c.chance(1, 3):
			m.kind, m.h = 'h', x.genHash(2, p)
			fmt.Fprintf(&sb, "(def %s %s)", m.name, x.hashText(m.h, p))
		case x.c.chance(1, 3):
			x.nextID++
			m.kind, m.id = 'f', x.nextID
			body := fmt.Sprintf("(emit %s) %s", x.num(p, m.id), x.num(p, m.val))
			switch x.c.intn(3) {
			case 0:
				fmt.Fprintf(&sb, "(defn %s [] %s)", m.name, body)
			case 1:
				fmt.Fprintf(&sb, "(def %s (fn [] %s))", m.name, body)
			default:
				fmt.Fprintf(&sb, "(func %s [] [r:int64] (begin %s))", m.name, body)
			}
		case x.c.chance(1, 5):
			m.kind, m.arr = 'a', []int64{x.secret(), x.secret()}
			fmt.Fprintf(&sb, "(def %s [%s %s])", m.name, x.num(p, m.arr[0]), x.num(p, m.arr[1]))
		default:
			fmt.Fprintf(&sb, "(def %s %s)", m.name, x.num(p, m.val))
		}
		p.ms = append(p.ms, m)
	}
	own := append([]*c18m{}, p.ms...)
	// functions that use members from inside
	for i := x.c.intn(4); i > 0; i-- {
		in := &c18in{home: p, set: x.c.chance(1, 2), mk: x.c.chance(1, 3)}
		in.path = x.insidePath(p)
		if in.path == "" {
			continue
		}
		x.nname++
		nm := fmt.Sprintf("In%d", x.nname)
		if x.c.chance(1, 8) {
			nm = fmt.Sprintf("in%d", x.nname)
		}
		x.inside = append(x.inside, in)
		m := &c18m{name: nm, kind: 'f', in: in, own: true}
		x.nextID++
		m.id = x.nextID
		body := fmt.Sprintf("(let [q %s] q)", in.path)
		if !strings.Contains(in.path, ".") && x.c.chance(1, 2) {
			body = in.path
		}
		par := ""
		if in.set {
			par = "v"
			switch x.c.intn(2) {
			case 0:
				body = fmt.Sprintf("(set %s v)", in.path)
			default:
				body = fmt.Sprintf("{%s = v}", in.path)
			}
		}
		switch {
		case in.mk && x.c.chance(1, 2):
			fmt.Fprintf(&sb, " (defn %s [] (fn [%s] %s))", nm, par, body)
		case in.mk:
			fmt.Fprintf(&sb, " (defn %s [] (let [q2 0] (fn [%s] (begin q2 %s))))", nm, par, body)
		default:
			fmt.Fprintf(&sb, " (defn %s [%s] %s)", nm, par, body)
		}
		p.ms = append(p.ms, m)
	}
	fmt.Fprintf(&sb, " (keep %s (fn [] (list", x.num(p, p.snap))
	for _, m := range own {
		sb.WriteString(" " + m.name)
	}
	sb.WriteString(")))")
	if x.c.chance(1, 5) {
		// something else may come last
		sb.WriteString(" 77")
	}
	sb.WriteString(")")
	return p, sb.String()
}

// insidePath is a path as code in p may write it: it starts with a member
// of p or of a package around p.
func (x *c18) insidePath(p *c18p) string {
	q := p
	for q.parent != nil && x.c.chance(1, 4) {
		q = q.parent
	}
	if len(q.ms) == 0 {
		return ""
	}
	m := pick(x.c.Rng, q.ms)
	if p.lex(m.name) != m {
		return "" // hidden
	}
	if m.in != nil {
		return ""
	}
	hops := []string{m.name}
	return strings.Join(x.extend(hops, m), ".")
}

// lex finds a name the way code inside p does.
func (p *c18p) lex(name string) *c18m {
	for q := p; q != nil; q = q.parent {
		if m := q.find(name); m != nil {
			return m
		}
	}
	return nil
}

// extend follows members at random.
func (x *c18) extend(hops []string, m *c18m) []string {
	for m != nil && (m.kind == 'p' || m.kind == 'h') && x.c.chance(7, 8) {
		ms := []*c18m(nil)
		if m.kind == 'p' {
			ms = m.p.ms
		} else {
			ms = m.h.ms
		}
		if len(ms) == 0 {
			return hops
		}
		m = pick(x.c.Rng, ms)
		hops = append(hops, m.name)
	}
	return hops
}

func (x *c18) addRoot(name string, p *c18p, h *c18h, desc string) {
	x.roots = append(x.roots, c18root{name, p, h, desc})
}

// run evaluates a text and records it for the report.
func (x *c18) run(text string) Outcome {
	x.texts = append(x.texts, text)
	x.rec.log = nil
	return evalStr(x.env, defaultBudget, text)
}

func (x *c18) history() string {
	return strings.Join(x.texts, "\n  ")
}

// offset gives the second instance of a package its own values.
func (x *c18) offset(p *c18p, n int64, parent *c18p, same map[*c18p]*c18p) *c18p {
	q := &c18p{name: p.name, parent: parent, snap: p.snap + n, maker: true}
	same[p] = q
	var cm func(m *c18m) *c18m
	cm = func(m *c18m) *c18m {
		k := *m
		k.val += n
		if m.id != 0 {
			k.id += n
		}
		if m.arr != nil {
			k.arr = []int64{m.arr[0] + n, m.arr[1] + n}
		}
		if m.in != nil && m.in.home != nil {
			in := *m.in
			in.home = q
			k.in = &in
		}
		if m.h != nil {
			k.h = &c18h{}
			for _, e := range m.h.ms {
				k.h.ms = append(k.h.ms, cm(e))
			}
		}
		if m.p != nil {
			if s := same[m.p]; s != nil {
				k.p = s
			} else {
				k.p = x.offset(m.p, n, q, same)
			}
		}
		return &k
	}
	for _, m := range p.ms {
		q.ms = append(q.ms, cm(m))
	}
	return q
}

func (x *c18) tempFile(text string) string {
	f := filepath.Join(os.TempDir(), fmt.Sprintf("c18-%d-%d.zy", os.Getpid(), len(x.files)))
	os.Remove(f)
	if err := os.WriteFile(f, []byte(text+"\n"), 0644); err != nil {
		return ""
	}
	x.files = append(x.files, f)
	return f
}

// build makes the packages.
func (x *c18) build() bool {
	n := 1 + x.c.intn(2)
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("g%d", i)
		depth := x.c.intn(4)
		how := x.c.intn(9)
		mark := len(x.pkgs)
		imark := len(x.inside)
		p, t := x.genPkg(depth, nil, how == 0)
		desc := "def"
		var text string
		switch how {
		case 0: // made by a function, twice
			desc = "maker"
			text = fmt.Sprintf("(defn mk%d [n] %s) (def %s (mk%d 0)) (def %sx (mk%d 300000000))", i, t, name, i, name, i)
			q := x.offset(p, 300000000, nil, map[*c18p]*c18p{})
			var all func(p *c18p)
			all = func(p *c18p) {
				for _, m := range p.ms {
					if m.kind == 'p' {
						all(m.p)
					}
				}
				for _, o := range x.pkgs {
					if o == p {
						return
					}
				}
				x.pkgs = append(x.pkgs, p)
			}
			all(q)
			x.addRoot(name+"x", q, nil, desc)
		case 1:
			desc = "let"
			text = fmt.Sprintf("(def %s (let [zz 5] %s))", name, t)
		case 2:
			desc = "infix"
			text = fmt.Sprintf("{%s = %s}", name, t)
		case 3:
			desc = "closure"
			text = fmt.Sprintf("(def %s ((fn [zz] %s) 1))", name, t)
		case 4:
			if f := x.tempFile(t); f != "" {
				desc = "source"
				text = fmt.Sprintf("(def %s (source %q))", name, f)
			}
		case 5:
			if f := x.tempFile(t); f != "" {
				desc = "import"
				text = fmt.Sprintf("(import %s %q)", name, f)
				if x.c.chance(1, 2) {
					name = p.name
					text = fmt.Sprintf("(import %q)", f)
				}
			}
		case 6:
			desc = "eval"
			text = fmt.Sprintf("(def %s (eval (quote %s)))", name, t)
		}
		if text == "" {
			text = fmt.Sprintf("(def %s %s)", name, t)
		}
		_, _ = mark, imark
		x.texts = append(x.texts, text)
		if o := evalStr(x.env, defaultBudget, text); !o.ok() {
			x.c.Violate("build", "building packages failed: %s\n  %s", o.String(), x.history())
			return false
		}
		x.addRoot(name, p, nil, desc)
		x.c.Count("built_"+desc, 1)
	}
	x.texts = append(x.texts, c18prelude)
	if o := evalStr(x.env, defaultBudget, c18prelude); !o.ok() {
		x.c.Violate("build", "prelude failed: %s", o.String())
		return false
	}
	return true
}

const c18prelude = `(defmac rdm [e] ^(+ 0 ~e)) (defmac stm [e v] ^(set ~e ~v))
(defn ident [e] e) (defn lazyplus [#e] (+ 0 (force #e))) (func typed [x:int64] [r:int64] (+ 0 x)) (defn call0 [f] (f)) (defn first0 [e] (aget e 0)) (def tmpa [1 2])`

// path is a random path: a root and hops.
func (x *c18) path() (c18root, []string) {
	ro := pick(x.c.Rng, x.roots)
	m := &c18m{kind: 'p', p: ro.p}
	if ro.p == nil {
		m = &c18m{kind: 'h', h: ro.h}
	}
	var hops []string
	for len(hops) == 0 {
		hops = x.extend(nil, m)
		if (ro.p != nil && len(ro.p.ms) == 0) || (ro.h != nil && len(ro.h.ms) == 0) {
			break
		}
	}
	return ro, hops
}

type c18tmpl struct {
	text  string
	kinds string
	what  string // expected value: v value, e first element, l length, b truth
}

var c18reads = []c18tmpl{
	{"(+ 0 %)", "i", "v"}, {"{% + 0}", "i", "v"}, {"{0 + %}", "i", "v"}, {"(* 1 %)", "i", "v"}, {"(- % 0)", "i", "v"},
	{"(let [t %] t)", "i", "v"}, {"(letseq [t % u t] u)", "i", "v"}, {"(newScope (def t %) t)", "i", "v"},
	{"(newScope {t = %} t)", "i", "v"}, {"(newScope {t := %} t)", "i", "v"}, {"(newScope (set t %) t)", "i", "v"},
	{"((fn [e] e) %)", "i", "v"}, {"((fn [e] (+ 0 e)) %)", "i", "v"}, {"(ident %)", "i", "v"}, {"(rdm %)", "i", "v"},
	{"(eval (quote (+ 0 %)))", "i", "v"}, {"(let [g (fn [] (+ 0 %))] (g))", "i", "v"}, {"(typed %)", "i", "v"},
	{"(typed x: %)", "i", "v"}, {"(newScope (+ 0 %))", "i", "v"}, {"(cond (== % $V) $V 0)", "i", "v"}, {"(cond true (+ 0 %) 0)", "i", "v"},
	{"(lazyplus %)", "i", "v"}, {"(lazyplus (+ % 0))", "i", "v"}, {"(newScope {t = % + 1})", "i", "+"}, {"(+ % % (- 0 $V))", "i", "v"},
	{"(bitAnd % -1)", "i", "v"}, {"{3 * % - 2 * %}", "i", "v"}, {"(let [t 0] (for [(def i 0) (< i 1) (++ i)] (set t %)) t)", "i", "v"},
	{"(aget [5 6] (- % (- $V 1)))", "i", "6"}, {"(== % $V)", "i", "b"}, {"(> % 0)", "i", "b"}, {"(not (== 0 %))", "i", "b"},
	{"(+ 0 (eval (quote %)))", "i", "v"}, {"(+ 0 (begin 1 %))", "i", "v"}, {"((fn [] (+ %)))", "i", "v"},
	{"{%[0] + 0}", "a", "e"}, {"(first0 %)", "a", "e"}, {"(len %)", "a", "l"},
	{"(let [t %] (aget t 0))", "a", "e"}, {"(newScope (def t %) (aget t 0))", "a", "e"}, {"(newScope {t = %} (aget t 0))", "a", "e"},
	{"(%)", "f", "v"}, {"(+ 0 (%))", "f", "v"}, {"(let [g %] (g))", "f", "v"}, {"(newScope (def g %) (g))", "f", "v"}, {"(newScope {g = %} (g))", "f", "v"},
	{"((fn [g] (g)) %)", "f", "v"}, {"(call0 %)", "f", "v"}, {"(cond true (%) 0)", "f", "v"}, {"(eval (quote (%)))", "f", "v"}, {"(ident (%))", "f", "v"},
	{"(rdm (%))", "f", "v"}, {"(let [g (fn [] (%))] (g))", "f", "v"}, {"{(%)}", "f", "v"}, {"(apply (ident %) [])", "f", "v"}, {"(lazyplus (%))", "f", "v"},
	{"(+ 0 (hget % %%$K))", "h", "e"}, {"(let [t %] (+ 0 t.$K))", "h", "e"}, {"(newScope (def t %) (+ 0 t.$K))", "h", "e"}, {"((fn [t] (+ 0 t.$K)) %)", "h", "e"},
	{"(newScope {t = %} {t.$K + 0})", "h", "e"}, {"(len %)", "h", "l"},
}

// reads whose value is not judged where the member may be read.
var c18laxReads = []string{
	"%", "(list %)", "[%]", "(hash k: %)", "(begin %)", "(quote %)", "(str %)", "(return %)", "(apply + (list % 0))", "(apply + [% 0])",
	"(map (fn [e] e) [%])", "(map (fn [e] (+ 0 e)) [%])", "(& %)", "(* (& %))", "(json %)", "(cons % nil)", "(type? %)", "(eval (quote %))", "(apply % [])",
	"(map % [1])", "(append [] %)", "(concat [%] [%])", "(hget (hash k: %) k:)", "((fn [#e] (force #e)) %)", "(force %)", "(+ 0 (aget [%] 0))",
	"(+ 0 (first (list %)))", "(let [t (list %)] (+ 0 (first t)))", "(+ 0 (hget (hash k: %) k:))", "(and % %)", "(or % %)", "(cond % % %)", "(cond true % 0)",
	"((fn [& r] (+ 0 (first r))) %)", "(let [t (hash k: %)] (+ 0 t.k))", "(let [t (& %)] (+ 0 (* t)))", "(% 1 2)", "(sprintf \"%v\" %)", "{%}", "{% + %}", "(map call0 [%])",
	"(flatten [[%]])", "(:k (hash k: %))", "(aget % 0)", "(hget % %%k)", "(keys %)", "(raw64 \"\" %)", "(.%)", "(+ 0 .%)", "(hpair % 0)", "(copy %)", "(symnum (quote %))",
	"(unjson (raw (json [%])))", "(newScope {t = %; t})", "(defmap %)", "(sort < [% 1])", "(substr (str %) 0 3)", "(let [% 1] %)", "((fn [%] %) 1)", "(stop %)", "(-> %)",
}

var c18writes = []c18tmpl{
	{"(set % $N)", "*", "n"}, {"{% = $N}", "*", "n"}, {"(set % (+ 0 $N))", "*", "n"}, {"{% = 0 + $N}", "*", "n"}, {"(stm % $N)", "*", "n"},
	{"(let [z $N] (set % z))", "*", "n"}, {"((fn [v] {% = v}) $N)", "*", "n"}, {"(eval (quote (set % $N)))", "*", "n"}, {"(for [(def i 0) (< i 1) (++ i)] (set % $N))", "*", "n"},
	{"(newScope {% = $N})", "*", "n"}, {"(cond true {% = $N} 0)", "*", "n"}, {"(let [g (fn [] (set % $N))] (g))", "*", "n"},
	{"{% += 5}", "i", "5"}, {"(++ %)", "i", "1"}, {"{% -= 5}", "i", "-"}, {"(-- %)", "i", "_"}, {"(+= % 5)", "i", "5"},
	{"(let [t %] (aset t 0 $N))", "a", "E"}, {"{%[0] = $N}", "a", "e"}, {"(hset % %%$K $N)", "h", "k"}, {"{%.$K = $N}", "h", "k"},
}

// assignments judged only where they must be refused.
var c18laxWrites = []string{
	"(def % $N)", "(mdef % zz (list $N $N))", "(mdef zz % (list $N $N))", "(derefSet (& %) $N)", "(aset % 0 $N)", "{%[0] = $N}", "(hset % %%k $N)", "(hdel % %%k)", "(defn % [] $N)",
	"(let [% $N] 0)", "(for [(def % $N) false 1] 1)", "{%.zz = $N}", "{%.k = $N}", "{% := $N}", "(func % [] [r:int64] $N)", "((fn [%] 1) $N)", "(let [t (& %)] (derefSet t $N))",
	"((fn [e] (set e $N)) %)", "(append % $N)", "(defmac % [] $N)", "(derefSet (& (list %)) $N)", "(var % int64)", "(range k % {a:$N} k)", "{zz, % = $N, $N}", "{%, zz = $N, $N}",
	"(rmsym (quote %))", "(del % k:)", "(first (map (fn [v] (set % v)) [$N]))", "(defmac m2 [] ^(set % $N)) (m2)", "(set (quote %) $N)", "(eval (list (quote set) (quote %) $N))",
}

func (m *c18m) first() (string, *c18m) {
	for _, e := range m.h.ms {
		if e.kind == 'i' {
			return e.name, e
		}
	}
	return "", nil
}

// fill puts the path and numbers into a template.
func c18fill(t, path string, n int64, m *c18m) (string, bool) {
	t = strings.ReplaceAll(t, "%%", "\x00")
	t = strings.ReplaceAll(t, "\"%v\"", "\x01")
	t = strings.ReplaceAll(t, "%", path)
	t = strings.ReplaceAll(t, "\x00", "%")
	t = strings.ReplaceAll(t, "\x01", "\"%v\"")
	t = strings.ReplaceAll(t, "$N", fmt.Sprint(n))
	if m != nil {
		t = strings.ReplaceAll(t, "$V", fmt.Sprint(m.val))
		if strings.Contains(t, "$K") {
			if m.kind != 'h' {
				return t, false
			}
			k, _ := m.first()
			if k == "" {
				return t, false
			}
			t = strings.ReplaceAll(t, "$K", k)
		}
	}
	return t, !strings.Contains(t, "$K") && !strings.Contains(t, "$V")
}

// secrets are the numbers that reading m would show.
func (m *c18m) secrets() []string {
	switch m.kind {
	case 'i', 'f':
		if m.in != nil && m.kind == 'f' {
			return nil
		}
		return []string{fmt.Sprint(m.val)}
	case 'a':
		return []string{fmt.Sprint(m.arr[0]), fmt.Sprint(m.arr[1])}
	case 'h':
		var out []string
		for _, e := range m.h.ms {
			if e.kind != 'p' {
				out = append(out, e.secrets()...)
			}
		}
		return out
	}
	return nil
}

// dumpMatches compares a value with a member.
func (m *c18m) matches(v zygo.Sexp) string {
	switch m.kind {
	case 'i':
		if dump(v) == fmt.Sprint(m.val) {
			return ""
		}
		return fmt.Sprintf("%s is %s, not %d", m.name, clip(dump(v)), m.val)
	case 'a':
		want := fmt.Sprintf("[%d %d]", m.arr[0], m.arr[1])
		if dump(v) == want {
			return ""
		}
		return fmt.Sprintf("%s is %s, not %s", m.name, clip(dump(v)), want)
	case 'f':
		if _, ok := v.(*zygo.SexpFunction); ok {
			return ""
		}
		return fmt.Sprintf("%s is %s, not a function", m.name, clip(dump(v)))
	case 'p':
		if s, ok := v.(*zygo.Stack); ok && s.IsPackage && s.PackageName == m.p.name {
			return ""
		}
		return fmt.Sprintf("%s is %s, not package %s", m.name, clip(dump(v)), m.p.name)
	case 'h':
		h, ok := v.(*zygo.SexpHash)
		if !ok {
			return fmt.Sprintf("%s is %s, not a hash", m.name, clip(dump(v)))
		}
		live := 0
		for _, k := range h.KeyOrder {
			if _, ok := hashLookup(h, k); ok {
				live++
			}
		}
		if live != len(m.h.ms) {
			return fmt.Sprintf("hash %s has %d keys, not %d: %s", m.name, live, len(m.h.ms), clip(dump(v)))
		}
		for _, e := range m.h.ms {
			found := false
			for _, k := range h.KeyOrder {
				if s, ok := k.(*zygo.SexpSymbol); ok && s.Name() == e.name {
					ev, _ := hashLookup(h, k)
					found = true
					if d := e.matches(ev); d != "" {
						return m.name + "." + d
					}
				}
			}
			if !found {
				return fmt.Sprintf("hash %s has lost %s", m.name, e.name)
			}
		}
		return ""
	}
	return "?"
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// audit asks every package for its members, from inside.
func (x *c18) audit() string {
	for _, p := range x.pkgs {
		f, ok := x.kept[p.snap].(*zygo.SexpFunction)
		if !ok {
			return fmt.Sprintf("package %s kept no function", p.name)
		}
		o := guard(defaultBudget, func() (zygo.Sexp, error) { return x.env.Apply(f, nil) })
		if !o.ok() {
			return fmt.Sprintf("a function inside package %s cannot read its members: %s", p.name, o.String())
		}
		l, err := zygo.ListToArray(o.Val)
		if err != nil {
			return "the members are not a list"
		}
		i := 0
		for _, m := range p.ms {
			if m.own {
				continue
			}
			if i >= len(l) {
				return "too few members"
			}
			if d := m.matches(l[i]); d != "" {
				return fmt.Sprintf("in package %s, %s", p.name, d)
			}
			i++
		}
		x.c.Count("audited_members", int64(i))
	}
	return ""
}

func c18Case(c *Ctx, idx int) {
	x := &c18{c: c, kept: map[int64]zygo.Sexp{}}
	x.env = zygo.NewZlisp()
	x.env.StandardSetup()
	x.rec.install(x.env)
	x.env.AddFunction("keep", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		if len(args) == 2 {
			if i, ok := args[0].(*zygo.SexpInt); ok {
				x.kept[i.Val] = args[1]
			}
		}
		return zygo.SexpNull, nil
	})
	defer func() {
		for _, f := range x.files {
			os.Remove(f)
		}
	}()
	if !x.build() {
		return
	}
	if d := x.audit(); d != "" {
		c.Violate("inside", "%s\n  %s", d, x.history())
		return
	}
	steps := 10 + c.intn(12)
	for i := 0; i < steps; i++ {
		ok := true
		switch {
		case c.chance(1, 7):
			ok = x.alias()
		case c.chance(1, 5):
			ok = x.callInside()
		case c.chance(2, 5):
			ok = x.write()
		default:
			ok = x.read()
		}
		if !ok {
			return
		}
	}
	c.Max("packages", int64(len(x.pkgs)))
	if idx%97 == 0 {
		c.Sample(clip(x.texts[0]) + " ... " + x.texts[len(x.texts)-1])
	}
}

// reach turns a root into an expression and gives the text around the access.
func (x *c18) reach(ro c18root) (root string, wrap func(string) string) {
	id := func(s string) string { return s }
	switch x.c.intn(12) {
	case 0:
		return "al", func(s string) string { return fmt.Sprintf("(let [al %s] %s)", ro.name, s) }
	case 1:
		return "al", func(s string) string { return fmt.Sprintf("((fn [al] %s) %s)", s, ro.name) }
	case 2:
		return "al.k", func(s string) string { return fmt.Sprintf("(let [al (hash k: %s)] %s)", ro.name, s) }
	case 3:
		return "." + ro.name, id
	case 4:
		return "al.K.z", func(s string) string {
			return fmt.Sprintf("(let [al (hash K: (hash z: %s))] %s)", ro.name, s)
		}
	case 5:
		return "al", func(s string) string {
			return fmt.Sprintf("(let [al (aget [%s] 0)] %s)", ro.name, s)
		}
	case 6:
		return ro.name, func(s string) string { return fmt.Sprintf("(newScope %s)", s) }
	case 7:
		return ro.name, func(s string) string { return fmt.Sprintf("((fn [] %s))", s) }
	}
	return ro.name, id
}

func (x *c18) kindOf(l c18loc) byte {
	if l.m == nil {
		return 0
	}
	return l.m.kind
}

// fail reports.
func (x *c18) fail(sig, path string, l c18loc, what string) bool {
	x.c.Violate(sig, "%s\n  path %s is %s %s\n  %s", what, path, l.st, l.why, x.history())
	return false
}

func (x *c18) settle(path string, l c18loc) bool {
	if d := x.audit(); d != "" {
		return x.fail("state", path, l, "after the last text, "+d)
	}
	return true
}

func (x *c18) read() bool {
	ro, hops := x.path()
	if len(hops) == 0 {
		return true
	}
	l := c18walk(ro.p, ro.h, hops, false)
	if l.st == c18absent {
		return true
	}
	root, wrap := x.reach(ro)
	path := root + "." + strings.Join(hops, ".")
	if strings.Contains(root, "al") && strings.Contains(ro.name, "al.") {
		return true
	}
	x.c.Eval()
	x.c.Count("read_"+l.st, 1)
	k := x.kindOf(l)
	if l.m != nil && l.m.in != nil && k == 'f' {
		if l.st == c18ok {
			return true
		}
	}
	if x.c.chance(1, 4) {
		// routes that need not look at the value
		t := pick(x.c.Rng, c18laxReads)
		text, okT := c18fill(t, path, 1, l.m)
		if !okT {
			return true
		}
		text = wrap(text)
		if l.st != c18denied {
			return true
		}
		o := x.run(text)
		if o.Kind == "panic" {
			return x.fail("panic", path, l, "panic: "+clip(o.Err))
		}
		if len(x.rec.log) > 0 {
			return x.fail("ran", path, l, "a private function ran: "+strings.Join(x.rec.log, " "))
		}
		if o.ok() {
			d := dump(o.Val)
			for _, s := range l.m.secrets() {
				if strings.Contains(d, s) {
					return x.fail("leak", path, l, "the value shows a private member: "+clip(d))
				}
			}
		}
		x.c.Nontrivial("lax|" + t + "|" + string(k) + "|" + fmt.Sprint(len(hops)))
		return x.settle(path, l)
	}
	var cand []c18tmpl
	for _, t := range c18reads {
		if k != 0 && strings.IndexByte(t.kinds, k) >= 0 {
			cand = append(cand, t)
		}
	}
	if l.st == c18bad || k == 'p' || k == 0 {
		cand = c18reads[:12]
	}
	if len(cand) == 0 {
		return true
	}
	t := pick(x.c.Rng, cand)
	m := l.m
	if m == nil {
		m = &c18m{val: 3}
	}
	text, okT := c18fill(t.text, path, 1, m)
	if !okT {
		return true
	}
	text = wrap(text)
	if l.st == c18ok && (k == 'p') {
		// a nested package may be looked at
		text = wrap(fmt.Sprintf("(let [t %s] t)", path))
		o := x.run(text)
		if !o.ok() {
			return x.fail("refused", path, l, "a nested package could not be reached: "+clip(o.String()))
		}
		if d := l.m.matches(o.Val); d != "" {
			return x.fail("value", path, l, d)
		}
		x.c.Nontrivial("pkg|" + strings.Join(hops, "."))
		return true
	}
	o := x.run(text)
	if o.Kind == "panic" {
		return x.fail("panic", path, l, "panic: "+clip(o.Err))
	}
	x.c.Nontrivial(l.st + "|" + t.text + "|" + strings.Join(hops, ".") + "|" + root)
	if l.st != c18ok {
		if o.Kind != "error" {
			return x.fail("allowed", path, l, "the access gave "+clip(o.String()))
		}
		if len(x.rec.log) > 0 {
			return x.fail("ran", path, l, "a private function ran: "+strings.Join(x.rec.log, " "))
		}
		return x.settle(path, l)
	}
	want := ""
	switch t.what {
	case "v":
		want = fmt.Sprint(l.m.val)
	case "+":
		want = fmt.Sprint(l.m.val + 1)
	case "6":
		want = "6"
	case "b":
		want = "true"
	case "e":
		if k == 'a' {
			want = fmt.Sprint(l.m.arr[0])
		} else {
			_, e := l.m.first()
			want = fmt.Sprint(e.val)
		}
	case "l":
		want = fmt.Sprint(len(l.m.arr))
		if k == 'h' {
			want = fmt.Sprint(len(l.m.h.ms))
		}
	}
	if o.Kind != "value" || dump(o.Val) != want {
		sig := "value"
		if o.Kind == "error" {
			sig = "refused"
		}
		return x.fail(sig, path, l, "the access gave "+clip(o.String())+", not "+want)
	}
	if k == 'f' {
		if len(x.rec.log) != 1 || x.rec.log[0] != fmt.Sprint(l.m.id) {
			return x.fail("call", path, l, fmt.Sprintf("the call ran %v, not %d", x.rec.log, l.m.id))
		}
	} else if len(x.rec.log) > 0 {
		return x.fail("call", path, l, fmt.Sprintf("a function ran: %v", x.rec.log))
	}
	return x.settle(path, l)
}

func (x *c18) write() bool {
	ro, hops := x.path()
	if len(hops) == 0 {
		return true
	}
	l := c18walk(ro.p, ro.h, hops, true)
	if l.st == c18absent {
		return true
	}
	root, wrap := x.reach(ro)
	path := root + "." + strings.Join(hops, ".")
	k := x.kindOf(l)
	n := x.secret()
	x.c.Eval()
	x.c.Count("write_"+l.st, 1)
	if l.m != nil && l.m.in != nil && k == 'f' {
		return true
	}
	if l.st == c18denied && x.c.chance(1, 3) {
		t := pick(x.c.Rng, c18laxWrites)
		text, okT := c18fill(t, path, n, l.m)
		if !okT {
			return true
		}
		o := x.run(wrap(text))
		if o.Kind == "panic" {
			return x.fail("panic", path, l, "panic: "+clip(o.Err))
		}
		x.c.Nontrivial("laxw|" + t + "|" + string(k) + "|" + fmt.Sprint(len(hops)))
		return x.settle(path, l)
	}
	var t c18tmpl
	for try := 0; ; try++ {
		t = pick(x.c.Rng, c18writes)
		if t.kinds == "*" || (k != 0 && strings.IndexByte(t.kinds, k) >= 0) {
			break
		}
	}
	if t.kinds != "*" && l.st == c18ok {
		// these read the member, too
		if r := c18walk(ro.p, ro.h, hops, false); r.st != c18ok {
			return true
		}
	}
	if t.kinds == "*" && l.st == c18ok && (k == 'p' || k == 'h') && !x.c.chance(1, 6) {
		return true // keep most of the structure
	}
	text, okT := c18fill(t.text, path, n, l.m)
	if !okT {
		return true
	}
	if strings.Contains("eEk", t.what) && l.st != c18ok && l.m == nil {
		return true
	}
	st := l.st
	if strings.Contains("eEk", t.what) {
		// the member is read and what it holds is changed
		st = c18walk(ro.p, ro.h, hops, false).st
	}
	o := x.run(wrap(text))
	if o.Kind == "panic" {
		return x.fail("panic", path, l, "panic: "+clip(o.Err))
	}
	x.c.Nontrivial("w" + st + "|" + t.text + "|" + strings.Join(hops, ".") + "|" + root)
	if st != c18ok {
		if o.Kind != "error" {
			return x.fail("assigned", path, l, "the assignment gave "+clip(o.String()))
		}
		return x.settle(path, l)
	}
	if o.Kind != "value" {
		return x.fail("refused", path, l, "the assignment gave "+clip(o.String()))
	}
	switch t.what {
	case "n":
		if l.m == nil {
			l.m = &c18m{name: hops[len(hops)-1]}
			l.inH.ms = append(l.inH.ms, l.m)
		}
		*l.m = c18m{name: l.m.name, kind: 'i', val: n, own: l.m.own}
	case "5":
		l.m.val += 5
	case "1":
		l.m.val++
	case "-":
		l.m.val -= 5
	case "_":
		l.m.val--
	case "e", "E":
		l.m.arr[0] = n
	case "k":
		_, e := l.m.first()
		e.val = n
	}
	return x.settle(path, l)
}

// alias binds another name to a package or hash, read through a path.
func (x *c18) alias() bool {
	ro, hops := x.path()
	// stop at a container
	for n := len(hops); n > 0; n-- {
		l := c18walk(ro.p, ro.h, hops[:n], false)
		if l.st != c18ok || l.m.kind != 'p' && l.m.kind != 'h' {
			continue
		}
		x.nname++
		name := fmt.Sprintf("w%d", x.nname)
		path := ro.name + "." + strings.Join(hops[:n], ".")
		nr := c18root{name: name, p: l.m.p, h: l.m.h, desc: "alias"}
		if l.m.kind == 'p' {
			nr.h = nil
		} else {
			nr.p = nil
		}
		var text string
		switch x.c.intn(6) {
		case 0:
			text = fmt.Sprintf("(def %s %s)", name, path)
		case 1:
			text = fmt.Sprintf("{%s = %s}", name, path)
		case 2:
			text = fmt.Sprintf("(set %s %s)", name, path)
		case 3:
			text = fmt.Sprintf("(def %s (let [t %s] t))", name, path)
		case 4:
			text = fmt.Sprintf("(def %s (let [t %s] (hash q: t)))", name, path)
			h := &c18h{ms: []*c18m{{name: "q", kind: l.m.kind, p: nr.p, h: nr.h}}}
			nr.p, nr.h = nil, h
		default:
			// a member of another package
			text = fmt.Sprintf("(def %s (package \"al%s\" (def Q %s) (def q Q)))", name, name, path)
			q := &c18p{name: "al" + name, ms: []*c18m{{name: "Q", kind: l.m.kind, p: nr.p, h: nr.h}, {name: "q", kind: l.m.kind, p: nr.p, h: nr.h}}}
			nr.p, nr.h = q, nil
		}
		o := x.run(text)
		if !o.ok() {
			return x.fail("refused", path, l, "could not be bound: "+clip(o.String()))
		}
		x.roots = append(x.roots, nr)
		x.c.Count("aliases", 1)
		return true
	}
	return true
}

// callInside calls a function that uses members from inside its package.
func (x *c18) callInside() bool {
	for try := 0; try < 10; try++ {
		ro, hops := x.path()
		if len(hops) == 0 {
			continue
		}
		l := c18walk(ro.p, ro.h, hops, false)
		if l.m == nil || l.m.kind != 'f' || l.m.in == nil {
			continue
		}
		in := l.m.in
		// what it names, seen from inside
		parts := strings.Split(in.path, ".")
		m := in.home.lex(parts[0])
		if m == nil {
			continue
		}
		at := c18loc{st: c18ok, m: m}
		if len(parts) > 1 {
			switch m.kind {
			case 'p':
				at = c18walk(m.p, nil, parts[1:], in.set)
			case 'h':
				at = c18walk(nil, m.h, parts[1:], in.set)
			default:
				at = c18loc{st: c18bad}
			}
		}
		if at.st == c18absent {
			continue
		}
		x.c.Eval()
		x.c.Count("inside_"+l.st+"_"+at.st, 1)
		path := ro.name + "." + strings.Join(hops, ".")
		n := x.secret()
		arg := ""
		if in.set {
			if at.m != nil && (at.m.kind == 'p' || at.m.kind == 'h') && at.st == c18ok && !x.c.chance(1, 6) {
				continue
			}
			arg = fmt.Sprint(n)
		}
		var text string
		switch {
		case in.mk && x.c.chance(1, 2):
			text = fmt.Sprintf("(let [g (%s)] (g %s))", path, arg)
		case in.mk:
			text = fmt.Sprintf("((%s) %s)", path, arg)
		default:
			switch x.c.intn(4) {
			case 0:
				text = fmt.Sprintf("(let [g %s] (g %s))", path, arg)
			case 1:
				text = fmt.Sprintf("((fn [g] (g %s)) %s)", arg, path)
			case 2:
				text = fmt.Sprintf("(let [g %s] (apply g [%s]))", path, arg)
			default:
				text = fmt.Sprintf("(%s %s)", path, arg)
			}
		}
		o := x.run(text)
		if o.Kind == "panic" {
			return x.fail("panic", path, l, "panic: "+clip(o.Err))
		}
		x.c.Nontrivial("in|" + l.st + at.st + in.path + fmt.Sprint(in.set, in.mk))
		if l.st != c18ok || at.st != c18ok {
			if o.Kind != "error" {
				return x.fail("allowed", path, l, fmt.Sprintf("the access to %s, %s from there, gave %s", in.path, at.st, clip(o.String())))
			}
			return x.settle(path, l)
		}
		if o.Kind != "value" {
			return x.fail("inside", path, l, fmt.Sprintf("code inside could not use %s: %s", in.path, clip(o.String())))
		}
		if in.set {
			if at.m == nil {
				at.m = &c18m{name: parts[len(parts)-1]}
				at.inH.ms = append(at.inH.ms, at.m)
			}
			*at.m = c18m{name: at.m.name, kind: 'i', val: n, own: at.m.own}
		} else if d := at.m.matches(o.Val); d != "" {
			return x.fail("inside", path, l, d)
		}
		return x.settle(path, l)
	}
	return true
}
