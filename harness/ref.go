package main

// A direct reference evaluator of the core language, independent of the
// library: source forms are Go values, compiled to Go closures. It mirrors
// what is specified about *when* things happen (a top-level text is compiled
// as a whole; call arguments are evaluated by the call), but has no stack
// machine, no tail calls and no shared code with the library.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// V is a reference value or form.
type V = interface{}

type rnil struct{}
type rsym string
type rlabel string // outer: as used by labelled loops
type rchar int32
type rcell struct{ h, t V }
type rarr struct{ v []V }
type rhash struct {
	keys []V
	m    map[string]V
}
type rfn struct {
	name     string
	params   []string
	lazy     []bool
	variadic bool
	typed    bool
	body     rcode
	scope    *rscope
}
type rbuiltin struct {
	name string
	f    func(it *rinterp, sc *rscope, args []V) V
}
type rlazy struct {
	form   V
	scope  *rscope
	forced bool
	val    V
}

type rscope struct {
	vars   map[string]V
	parent *rscope
}

type rloop struct{ label string }
type rctl struct {
	loop *rloop
	brk  bool
}
type rcode func(sc *rscope) (V, *rctl)

// rerr is an evaluation error; tag must occur in the library's error text.
type rerr struct{ tag string }

// runsure means the reference does not say what happens: the case is dropped.
type runsure struct{ why string }

func fail(tag string) V                   { panic(rerr{tag}) }
func unsure(f string, a ...interface{}) V { panic(runsure{fmt.Sprintf(f, a...)}) }

type rmacro struct {
	name     string
	fn       *rfn
	builtin  func(it *rinterp, args []V) V // gives the expansion
	reserved bool
}

type rinterp struct {
	global  *rscope
	macros  map[string]*rmacro
	macver  int
	log     []string
	steps   int64
	budget  int64
	depth   int
	calls   int64
	builtin map[string]V
	// what the monitors report about a run
	cov map[string]int64
}

var nilv = rnil{}

func newRef(full bool) *rinterp {
	it := &rinterp{macros: map[string]*rmacro{}, budget: 300000, cov: map[string]int64{}}
	it.global = &rscope{vars: map[string]V{}}
	it.builtin = map[string]V{}
	it.installBuiltins()
	if full {
		inc := func(op string) func(it *rinterp, a []V) V {
			return func(it *rinterp, a []V) V {
				if len(a) != 1 {
					fail("")
				}
				return flist(rsym("set"), a[0], flist(rsym(op), a[0], int64(1)))
			}
		}
		inc2 := func(op string) func(it *rinterp, a []V) V {
			return func(it *rinterp, a []V) V {
				if len(a) != 2 {
					fail("")
				}
				return flist(rsym("set"), a[0], flist(rsym(op), a[0], a[1]))
			}
		}
		it.macros["++"] = &rmacro{name: "++", builtin: inc("+")}
		it.macros["--"] = &rmacro{name: "--", builtin: inc("-")}
		it.macros["+="] = &rmacro{name: "+=", builtin: inc2("+")}
		it.macros["-="] = &rmacro{name: "-=", builtin: inc2("-")}
	}
	return it
}

func (it *rinterp) tick() {
	it.steps++
	if it.steps > it.budget {
		panic(runsure{"budget"})
	}
}

// ---- data helpers

func flist(xs ...V) V {
	var t V = nilv
	for i := len(xs) - 1; i >= 0; i-- {
		t = &rcell{xs[i], t}
	}
	return t
}

func farr(xs ...V) V { return &rarr{xs} }

// listElems gives the elements of a proper list.
func listElems(v V) ([]V, bool) {
	var out []V
	for {
		switch c := v.(type) {
		case rnil:
			return out, true
		case *rcell:
			out = append(out, c.h)
			v = c.t
		default:
			return nil, false
		}
	}
}

func isNil(v V) bool { _, ok := v.(rnil); return ok }

func truthy(v V) bool {
	switch x := v.(type) {
	case rnil:
		return false
	case bool:
		return x
	case int64:
		return x != 0
	case rchar:
		return x != 0
	}
	return true
}

// typeName is what decides whether def may rebind in the same scope.
func typeName(v V) string {
	switch x := v.(type) {
	case int64:
		return "int64"
	case float64:
		return "float64"
	case string:
		return "string"
	case bool:
		return "bool"
	case rchar:
		return "int32"
	case rsym, rlabel:
		return "symbol"
	case *rhash:
		return "hash"
	case *rarr:
		if len(x.v) == 0 {
			return "?"
		}
		return "[" + typeName(x.v[0]) + "]?"
	}
	return ""
}

func (sc *rscope) lookup(n string) (V, bool) {
	for s := sc; s != nil; s = s.parent {
		if v, ok := s.vars[n]; ok {
			return v, true
		}
	}
	return nil, false
}

func (sc *rscope) bind(n string, v V) {
	if old, ok := sc.vars[n]; ok {
		a, b := typeName(old), typeName(v)
		if strings.HasSuffix(a, "?") || strings.HasSuffix(b, "?") {
			if a != b || a == "?" {
				if a != "" && b != "" {
					unsure("rebinding %s over %s", b, a)
				}
			}
		} else if a != "" && b != "" && a != b {
			fail("cannot assign")
		}
	}
	sc.vars[n] = v
}

// rdump is the same rendering as dump gives of library values.
func rdump(v V) string {
	var sb strings.Builder
	rdumpTo(&sb, v, 0)
	return sb.String()
}

func rdumpTo(sb *strings.Builder, v V, depth int) {
	if depth > 500 {
		panic(runsure{"deep value"})
	}
	if sb.Len() > 1<<18 {
		panic(runsure{"huge value"})
	}
	switch x := v.(type) {
	case rnil:
		sb.WriteString("nil")
	case int64:
		sb.WriteString(strconv.FormatInt(x, 10))
	case float64:
		sb.WriteString("f" + fkey(x))
	case bool:
		sb.WriteString(strconv.FormatBool(x))
	case rchar:
		sb.WriteString("c" + strconv.Itoa(int(x)))
	case string:
		sb.WriteString(strconv.QuoteToASCII(x))
	case rsym:
		sb.WriteString("'" + strconv.Quote(string(x)))
	case rlabel:
		sb.WriteString("'" + strconv.Quote(string(x)))
	case *rcell:
		sb.WriteString("(")
		rdumpTo(sb, x.h, depth+1)
		t := x.t
		for {
			c, ok := t.(*rcell)
			if !ok {
				break
			}
			sb.WriteString(" ")
			rdumpTo(sb, c.h, depth+1)
			t = c.t
		}
		if !isNil(t) {
			sb.WriteString(" . ")
			rdumpTo(sb, t, depth+1)
		}
		sb.WriteString(")")
	case *rarr:
		sb.WriteString("[")
		for i, e := range x.v {
			if i > 0 {
				sb.WriteString(" ")
			}
			rdumpTo(sb, e, depth+1)
		}
		sb.WriteString("]")
	case *rhash:
		sb.WriteString("(hash")
		for _, k := range x.keys {
			sb.WriteString(" ")
			rdumpTo(sb, k, depth+1)
			sb.WriteString(":")
			rdumpTo(sb, x.m[rdump(k)], depth+1)
		}
		sb.WriteString(")")
	case *rfn, *rbuiltin:
		sb.WriteString("<fn>")
	case *rlazy:
		sb.WriteString("<lazy>")
	default:
		panic(fmt.Sprintf("rdump %T", v))
	}
}

// ---- compiler

func (it *rinterp) isMacro(n string) *rmacro { return it.macros[n] }

var rspecial = map[string]bool{"and": true, "or": true, "cond": true, "quote": true, "def": true, "mdef": true, "fn": true,
	"defn": true, "begin": true, "let": true, "letseq": true, "assert": true, "defmac": true, "macexpand": true,
	"syntaxQuote": true, "for": true, "set": true, "break": true, "continue": true, "newScope": true, "return": true, "func": true}

func konst(v V) rcode { return func(*rscope) (V, *rctl) { return v, nil } }

// compile turns a form into code. A compile error panics with rerr.
func (it *rinterp) compile(f V, loops []*rloop) rcode {
	it.tick()
	it.depth++
	if it.depth > 400 {
		panic(runsure{"deep form"})
	}
	defer func() { it.depth-- }()
	switch x := f.(type) {
	case rsym:
		n := string(x)
		return func(sc *rscope) (V, *rctl) { return it.lookup(sc, n), nil }
	case rlabel:
		return konst(x)
	case *rarr:
		parts := it.compileAll(x.v, loops)
		return func(sc *rscope) (V, *rctl) {
			out := make([]V, 0, len(parts))
			for _, p := range parts {
				v, c := p(sc)
				if c != nil {
					return nil, c
				}
				out = append(out, v)
			}
			it.tick()
			return &rarr{out}, nil
		}
	case *rcell:
		args, ok := listElems(x.t)
		if !ok {
			return konst(f)
		}
		if s, ok := x.h.(rsym); ok {
			if rspecial[string(s)] {
				return it.compileSpecial(string(s), args, loops)
			}
			if m := it.isMacro(string(s)); m != nil {
				return it.compile(it.expand(m, args), loops)
			}
			for _, a := range args {
				if a == V(rsym("=")) || a == V(rsym(":=")) {
					unsure("assignment list")
				}
			}
		}
		return it.compileCall(x.h, args)
	}
	return konst(f)
}

func (it *rinterp) lookup(sc *rscope, n string) V {
	it.tick()
	if v, ok := sc.lookup(n); ok {
		return v
	}
	if v, ok := it.builtin[n]; ok {
		return v
	}
	if strings.ContainsAny(n, ".") {
		unsure("dot symbol")
	}
	if it.isMacro(n) != nil {
		fail("")
	}
	return fail("symbol `" + n + "` not found")
}

func (it *rinterp) compileAll(fs []V, loops []*rloop) []rcode {
	out := make([]rcode, len(fs))
	for i, f := range fs {
		out[i] = it.compile(f, loops)
	}
	return out
}

func (it *rinterp) compileBegin(fs []V, loops []*rloop) rcode {
	if len(fs) == 0 {
		return konst(nilv)
	}
	parts := it.compileAll(fs, loops)
	if len(parts) == 1 {
		return parts[0]
	}
	return func(sc *rscope) (V, *rctl) {
		var v V
		for _, p := range parts {
			var c *rctl
			v, c = p(sc)
			if c != nil {
				return nil, c
			}
		}
		return v, nil
	}
}

// compileCall: the callee, then the arguments left to right, then the call.
// Arguments are compiled when they are evaluated, with no loop around them.
func (it *rinterp) compileCall(callee V, args []V) rcode {
	ver := -1
	var calleeCode rcode
	var argCode []rcode
	return func(sc *rscope) (V, *rctl) {
		it.tick()
		if ver != it.macver {
			ver = it.macver
			calleeCode = nil
			argCode = make([]rcode, len(args))
		}
		ac := argCode
		operand := func(form V, cached *rcode) V {
			if s, ok := form.(rsym); ok {
				if m := it.isMacro(string(s)); m != nil {
					fail("is a")
				}
				return it.lookup(sc, string(s))
			}
			if *cached == nil {
				*cached = it.compile(form, nil)
			}
			v, c := (*cached)(sc)
			if c != nil {
				panic("control flow out of an argument")
			}
			return v
		}
		fv := operand(callee, &calleeCode)
		switch f := fv.(type) {
		case *rfn:
			if f.typed {
				return it.callTyped(f, sc, args, func(i int) V { return operand(args[i], &ac[i]) }), nil
			}
			vals := make([]V, len(args))
			for i, a := range args {
				if f.lazyAt(i) {
					vals[i] = &rlazy{form: a, scope: sc}
					it.cov["lazy_arguments"]++
				} else {
					vals[i] = operand(a, &ac[i])
				}
			}
			return it.callFn(f, vals), nil
		case *rbuiltin:
			vals := make([]V, len(args))
			for i, a := range args {
				vals[i] = operand(a, &ac[i])
			}
			return f.f(it, sc, vals), nil
		case *rarr, rsym, rlabel, *rlazy:
			if typeName(fv) == "symbol" || len(args) > 0 {
				unsure("calling a %T", fv)
			}
			if _, isA := fv.(*rarr); isA {
				unsure("calling an array")
			}
		}
		if len(args) == 0 {
			return fv, nil
		}
		return fail("not a function"), nil
	}
}

// callTyped calls a func, by position or with all arguments named.
func (it *rinterp) callTyped(f *rfn, sc *rscope, args []V, operand func(i int) V) V {
	vals := make([]V, len(f.params))
	given := 0
	named := false
	for i := 0; i < len(args); i++ {
		at := i
		if l, ok := args[i].(rlabel); ok {
			for at = len(f.params) - 1; at >= 0 && f.params[at] != string(l); at-- {
			}
			if at < 0 || i+1 == len(args) || i > 0 && !named {
				unsure("wrong names")
			}
			named = true
			i++
		} else if named {
			unsure("some named")
		}
		var v V
		if f.lazyAt(at) {
			v = &rlazy{form: args[i], scope: sc}
			it.cov["lazy_arguments"]++
		} else {
			v = operand(i)
		}
		given++
		if at < len(vals) {
			if vals[at] != nil {
				unsure("named twice")
			}
			vals[at] = v
		}
	}
	if named {
		it.cov["named_calls"]++
	}
	if given != len(vals) {
		fail("")
	}
	for i, v := range vals {
		if _, ok := v.(int64); !ok && !f.lazyAt(i) {
			fail("type mismatch")
		}
	}
	return it.callFn(f, vals)
}

func (f *rfn) lazyAt(i int) bool {
	n := len(f.params)
	if f.variadic {
		n--
	}
	return i < n && i < len(f.lazy) && f.lazy[i]
}

func (it *rinterp) callFn(f *rfn, args []V) V {
	it.tick()
	it.calls++
	it.depth++
	if it.depth > 30000 {
		panic(runsure{"deep recursion"})
	}
	defer func() { it.depth-- }()
	n := len(f.params)
	sc := &rscope{vars: map[string]V{}, parent: f.scope}
	if f.variadic {
		if len(args) < n-1 {
			fail("")
		}
		for i := 0; i < n-1; i++ {
			sc.vars[f.params[i]] = args[i]
		}
		sc.vars[f.params[n-1]] = flist(args[n-1:]...)
	} else {
		if len(args) != n {
			fail("expected")
		}
		for i, p := range f.params {
			sc.vars[p] = args[i]
		}
	}
	save := it.depth
	v, c := f.body(sc)
	it.depth = save
	if c != nil {
		panic("control flow out of a function")
	}
	return v
}

// apply is a call from inside a builtin, with values.
func (it *rinterp) apply(fv V, sc *rscope, args []V) V {
	switch f := fv.(type) {
	case *rfn:
		vals := make([]V, len(args))
		for i, a := range args {
			vals[i] = a
			if f.lazyAt(i) {
				vals[i] = &rlazy{form: a, forced: true, val: a}
				it.cov["value_promises"]++
			} else if _, ok := a.(int64); !ok && f.typed && i < len(f.params) {
				fail("type mismatch")
			}
		}
		return it.callFn(f, vals)
	case *rbuiltin:
		it.tick()
		return f.f(it, sc, append([]V(nil), args...))
	}
	return fail("")
}

func (it *rinterp) force(v V) V {
	l, ok := v.(*rlazy)
	if !ok {
		return v
	}
	if !l.forced {
		it.cov["forced"]++
		it.depth++
		defer func() { it.depth-- }()
		r := it.evalIn(l.form, l.scope)
		l.val, l.forced = r, true
	} else {
		it.cov["forced_again"]++
	}
	return l.val
}

// evalIn compiles a form on its own and runs it in a scope.
func (it *rinterp) evalIn(f V, sc *rscope) V {
	v, c := it.compile(f, nil)(sc)
	if c != nil {
		panic("control flow out of eval")
	}
	return v
}

func (it *rinterp) isTaken(n string) bool {
	if rspecial[n] || it.isMacro(n) != nil {
		return true
	}
	_, ok := it.builtin[n]
	return ok
}

func (it *rinterp) lhs(f V) string {
	switch s := f.(type) {
	case rsym:
		if it.isMacro(string(s)) != nil || rspecial[string(s)] {
			fail("")
		}
		if _, ok := it.builtin[string(s)]; ok {
			unsure("binding builtin name %s", s)
		}
		return string(s)
	case *rcell:
		e, ok := listElems(s)
		if ok && len(e) == 2 && e[0] == V(rsym("quote")) {
			if q, ok := e[1].(rsym); ok {
				return it.lhs(q)
			}
		}
		return unsure("assigning to a list").(string)
	}
	return fail("").(string)
}

func (it *rinterp) compileFn(name string, params V, body []V) func(sc *rscope) V {
	pa, ok := params.(*rarr)
	if !ok {
		fail("")
	}
	proto := rfn{name: name}
	seen := map[string]bool{}
	for i, p := range pa.v {
		s, ok := p.(rsym)
		if !ok {
			fail("")
		}
		if s == "&" && i == len(pa.v)-2 {
			proto.variadic = true
			continue
		}
		if seen[string(s)] {
			unsure("repeated parameter")
		}
		seen[string(s)] = true
		proto.params = append(proto.params, string(s))
		proto.lazy = append(proto.lazy, strings.HasPrefix(string(s), "#"))
	}
	proto.body = it.compileBegin(body, nil)
	return func(sc *rscope) V {
		f := proto
		f.scope = sc
		it.cov["closures_made"]++
		return &f
	}
}

func (it *rinterp) findLoop(args []V, loops []*rloop) *rloop {
	if len(args) > 1 || len(loops) == 0 {
		fail("")
	}
	if len(args) == 0 {
		return loops[len(loops)-1]
	}
	var name string
	switch l := args[0].(type) {
	case rlabel:
		name = string(l)
	case rsym:
		name = string(l)
	default:
		fail("")
	}
	for i := len(loops) - 1; i >= 0; i-- {
		if loops[i].label == name {
			return loops[i]
		}
	}
	fail("")
	return nil
}

func inScope(body rcode) rcode {
	return func(sc *rscope) (V, *rctl) {
		return body(&rscope{vars: map[string]V{}, parent: sc})
	}
}

func (it *rinterp) compileSpecial(op string, args []V, loops []*rloop) rcode {
	switch op {
	case "quote":
		if len(args) != 1 {
			fail("")
		}
		return konst(args[0])
	case "begin":
		return it.compileBegin(args, loops)
	case "return":
		if len(args) == 0 {
			return konst(nilv)
		}
		if len(args) == 1 {
			return it.compile(args[0], loops)
		}
		return it.compile(&rarr{args}, loops)
	case "newScope":
		return inScope(it.compileBegin(args, loops))
	case "and", "or":
		if len(args) == 0 {
			fail("")
		}
		parts := it.compileAll(args, loops)
		return func(sc *rscope) (V, *rctl) {
			var v V
			for i, p := range parts {
				var c *rctl
				v, c = p(sc)
				if c != nil {
					return nil, c
				}
				if i < len(parts)-1 && truthy(v) == (op == "or") {
					return v, nil
				}
			}
			return v, nil
		}
	case "cond":
		if len(args)%2 == 0 {
			fail("")
		}
		parts := it.compileAll(args, loops)
		return func(sc *rscope) (V, *rctl) {
			for i := 0; i+1 < len(parts); i += 2 {
				v, c := parts[i](sc)
				if c != nil {
					return nil, c
				}
				if truthy(v) {
					return parts[i+1](sc)
				}
			}
			return parts[len(parts)-1](sc)
		}
	case "def", "set":
		if len(args) != 2 {
			fail("")
		}
		name := it.lhs(args[0])
		rhs := it.compile(args[1], loops)
		return func(sc *rscope) (V, *rctl) {
			v, c := rhs(sc)
			if c != nil {
				return nil, c
			}
			it.tick()
			if op == "def" {
				sc.bind(name, v)
				return v, nil
			}
			for s := sc; s != nil; s = s.parent {
				if _, ok := s.vars[name]; ok {
					s.vars[name] = v
					return v, nil
				}
			}
			sc.bind(name, v)
			return v, nil
		}
	case "mdef":
		if len(args) < 2 {
			fail("")
		}
		var names []string
		for _, a := range args[:len(args)-1] {
			names = append(names, it.lhs(a))
		}
		rhs := it.compile(args[len(args)-1], loops)
		return func(sc *rscope) (V, *rctl) {
			v, c := rhs(sc)
			if c != nil {
				return nil, c
			}
			e, ok := listElems(v)
			if !ok || len(e) < len(names) {
				fail("")
			}
			for i, n := range names {
				sc.bind(n, e[i])
			}
			return v, nil
		}
	case "fn":
		if len(args) < 2 {
			fail("")
		}
		mk := it.compileFn("", args[0], args[1:])
		return func(sc *rscope) (V, *rctl) { return mk(sc), nil }
	case "defn":
		if len(args) < 3 {
			fail("")
		}
		if _, ok := args[0].(rsym); !ok {
			fail("")
		}
		name := it.lhs(args[0])
		mk := it.compileFn(name, args[1], args[2:])
		return func(sc *rscope) (V, *rctl) {
			sc.bind(name, mk(sc))
			return nilv, nil
		}
	case "let", "letseq":
		if len(args) < 2 {
			fail("")
		}
		b, ok := args[0].(*rarr)
		if !ok || len(b.v)%2 != 0 {
			fail("")
		}
		var names []string
		var rhs []rcode
		for i := 0; i < len(b.v); i += 2 {
			s, ok := b.v[i].(rsym)
			if !ok {
				fail("")
			}
			names = append(names, string(s))
		}
		for i := 1; i < len(b.v); i += 2 {
			rhs = append(rhs, it.compile(b.v[i], loops))
		}
		body := it.compileBegin(args[1:], loops)
		seen := map[string]bool{}
		for _, n := range names {
			if op == "let" && seen[n] {
				unsure("let binds a name twice")
			}
			seen[n] = true
		}
		return inScope(func(sc *rscope) (V, *rctl) {
			vals := make([]V, len(rhs))
			for i, r := range rhs {
				v, c := r(sc)
				if c != nil {
					return nil, c
				}
				vals[i] = v
				if op == "letseq" {
					sc.bind(names[i], v)
				}
			}
			if op == "let" {
				for i := len(names) - 1; i >= 0; i-- {
					sc.bind(names[i], vals[i])
				}
			}
			return body(sc)
		})
	case "assert":
		if len(args) != 1 {
			fail("")
		}
		p := it.compile(args[0], loops)
		return func(sc *rscope) (V, *rctl) {
			v, c := p(sc)
			if c != nil {
				return nil, c
			}
			if !truthy(v) {
				fail("Assertion failed")
			}
			return nilv, nil
		}
	case "break", "continue":
		l := it.findLoop(args, loops)
		return func(sc *rscope) (V, *rctl) {
			it.tick()
			it.cov["loop_exits"]++
			return nil, &rctl{l, op == "break"}
		}
	case "for":
		return it.compileFor(args, loops)
	case "defmac":
		if len(args) < 3 {
			fail("")
		}
		s, ok := args[0].(rsym)
		if !ok {
			fail("")
		}
		if _, ok := it.global.vars[string(s)]; ok {
			fail("")
		}
		if it.isTaken(string(s)) && it.isMacro(string(s)) == nil {
			unsure("macro over builtin")
		}
		mk := it.compileFn(string(s), args[1], args[2:])
		it.macros[string(s)] = &rmacro{name: string(s), fn: mk(it.global).(*rfn)}
		it.macver++
		return konst(nilv)
	case "func":
		// (func name [a: int64 #b: int64] [r: int64] body...)
		if len(args) < 4 {
			unsure("func")
		}
		name, ok := args[0].(rsym)
		in, ok2 := args[1].(*rarr)
		if !ok || !ok2 || it.isTaken(string(name)) {
			unsure("func")
		}
		var ps []V
		for i := 0; i+1 < len(in.v); i += 2 {
			l, ok := in.v[i].(rlabel)
			if !ok || in.v[i+1] != V(rsym("int64")) {
				unsure("func")
			}
			ps = append(ps, rsym(l))
		}
		mk := it.compileFn(string(name), &rarr{ps}, args[3:])
		return func(sc *rscope) (V, *rctl) {
			f := mk(sc).(*rfn)
			f.typed = true
			sc.bind(string(name), f)
			return f, nil
		}
	case "macexpand":
		if len(args) != 1 {
			fail("")
		}
		if l, ok := args[0].(*rcell); ok {
			if e, ok := listElems(l); ok {
				if s, ok := l.h.(rsym); ok {
					if m := it.isMacro(string(s)); m != nil {
						return konst(&rcell{rsym("quote"), it.expand(m, e[1:])})
					}
				}
			}
		}
		return konst(args[0])
	case "syntaxQuote":
		if len(args) != 1 {
			fail("")
		}
		if isSpliceForm(args[0]) {
			fail("")
		}
		c := it.compileTemplate(args[0], loops)
		return func(sc *rscope) (V, *rctl) {
			vs, ctl := c(sc)
			if ctl != nil {
				return nil, ctl
			}
			return vs[0], nil
		}
	}
	panic("special " + op)
}

func (it *rinterp) compileFor(args []V, loops []*rloop) rcode {
	if len(args) < 1 {
		fail("")
	}
	loop := &rloop{}
	switch l := args[0].(type) {
	case rlabel:
		loop.label = string(l)
		args = args[1:]
	case rsym:
		loop.label = string(l)
		args = args[1:]
	}
	if len(args) < 1 {
		fail("")
	}
	ctlv, ok := args[0].(*rarr)
	if !ok || len(ctlv.v) != 3 {
		fail("")
	}
	in := append(append([]*rloop(nil), loops...), loop)
	body := it.compileBegin(args[1:], in)
	// break and continue in the control vector are not modelled
	for _, f := range ctlv.v {
		if mentionsExit(f) {
			unsure("loop exit inside the control vector")
		}
	}
	initc := it.compile(ctlv.v[0], in)
	test := it.compile(ctlv.v[1], in)
	incr := it.compile(ctlv.v[2], in)
	return inScope(func(sc *rscope) (V, *rctl) {
		run := func(p rcode) (bool, *rctl) { // false: leave the loop
			_, c := p(sc)
			if c != nil {
				if c.loop == loop {
					return !c.brk, nil
				}
				return false, c
			}
			return true, nil
		}
		if _, c := initc(sc); c != nil {
			return nil, c
		}
		for {
			it.tick()
			v, c := test(sc)
			if c != nil {
				return nil, c
			}
			if !truthy(v) {
				return nilv, nil
			}
			it.cov["iterations"]++
			more, c := run(body)
			if c != nil {
				return nil, c
			}
			if !more {
				return nilv, nil
			}
			if _, c := incr(sc); c != nil {
				return nil, c
			}
		}
	})
}

func mentionsExit(f V) bool {
	switch x := f.(type) {
	case rsym:
		return x == "break" || x == "continue"
	case *rarr:
		for _, e := range x.v {
			if mentionsExit(e) {
				return true
			}
		}
	case *rcell:
		return mentionsExit(x.h) || mentionsExit(x.t)
	}
	return false
}

// expand runs a macro on the unevaluated argument forms.
func (it *rinterp) expand(m *rmacro, args []V) V {
	it.cov["expansions"]++
	a := append([]V(nil), args...)
	if m.builtin != nil {
		return m.builtin(it, a)
	}
	for i := range a {
		if m.fn.lazyAt(i) {
			unsure("lazy macro parameter")
		}
	}
	return it.callFn(m.fn, a)
}

func isSpliceForm(f V) bool {
	if c, ok := f.(*rcell); ok {
		if e, ok := listElems(c); ok && len(e) == 2 {
			return e[0] == V(rsym("unquote-splicing"))
		}
	}
	return false
}

type rtcode func(sc *rscope) ([]V, *rctl)

// compileTemplate: the code gives the elements a template stands for.
func (it *rinterp) compileTemplate(f V, loops []*rloop) rtcode {
	it.tick()
	seq := func(fs []V) func(sc *rscope) ([]V, *rctl) {
		parts := make([]rtcode, len(fs))
		for i, x := range fs {
			parts[i] = it.compileTemplate(x, loops)
		}
		return func(sc *rscope) ([]V, *rctl) {
			var out []V
			for _, p := range parts {
				vs, c := p(sc)
				if c != nil {
					return nil, c
				}
				out = append(out, vs...)
			}
			return out, nil
		}
	}
	switch x := f.(type) {
	case *rarr:
		p := seq(x.v)
		return func(sc *rscope) ([]V, *rctl) {
			vs, c := p(sc)
			if c != nil {
				return nil, c
			}
			return []V{&rarr{vs}}, nil
		}
	case *rcell:
		e, ok := listElems(x)
		if !ok {
			break
		}
		if len(e) == 2 && e[0] == V(rsym("unquote")) {
			code := it.compile(e[1], loops)
			return func(sc *rscope) ([]V, *rctl) {
				v, c := code(sc)
				if c != nil {
					return nil, c
				}
				it.cov["unquotes"]++
				return []V{v}, nil
			}
		}
		if len(e) == 2 && e[0] == V(rsym("unquote-splicing")) {
			code := it.compile(e[1], loops)
			return func(sc *rscope) ([]V, *rctl) {
				v, c := code(sc)
				if c != nil {
					return nil, c
				}
				vs, ok := listElems(v)
				if !ok {
					fail("")
				}
				it.cov["splices"]++
				it.cov[fmt.Sprintf("splices_of_%d", min(len(vs), 4))]++
				return vs, nil
			}
		}
		p := seq(e)
		return func(sc *rscope) ([]V, *rctl) {
			vs, c := p(sc)
			if c != nil {
				return nil, c
			}
			return []V{flist(vs...)}, nil
		}
	case *rhash:
		// keys and values in order; a splice may stand for several of them
		var kvs []V
		for _, k := range x.keys {
			kvs = append(kvs, k, x.m[rdump(k)])
		}
		p := seq(kvs)
		return func(sc *rscope) ([]V, *rctl) {
			vs, c := p(sc)
			if c != nil {
				return nil, c
			}
			if len(vs)%2 != 0 {
				fail("")
			}
			it.cov["hash_templates"]++
			h := newRHash()
			for i := 0; i < len(vs); i += 2 {
				checkKey(vs[i])
				h.set(keyOf(vs[i]), vs[i+1])
			}
			return []V{h}, nil
		}
	}
	return func(*rscope) ([]V, *rctl) { return []V{f}, nil }
}

// ---- running

// rout is what a reference evaluation did.
type rout struct {
	kind string // value, error, unsure
	val  V
	tag  string
}

func (o rout) String() string {
	switch o.kind {
	case "value":
		return rdump(o.val)
	case "error":
		return "error (" + o.tag + ")"
	}
	return o.kind + " " + o.tag
}

// eval evaluates the forms of one source text: all are compiled, then run.
func (it *rinterp) eval(forms []V) (o rout) {
	it.depth = 0
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case rerr:
				o = rout{kind: "error", tag: e.tag}
			case runsure:
				o = rout{kind: "unsure", tag: e.why}
			default:
				panic(r)
			}
		}
	}()
	code := it.compileBegin(forms, nil)
	v, c := code(it.global)
	if c != nil {
		panic("control flow at top level")
	}
	o = rout{kind: "value", val: v}
	rdump(v) // raises unsure when too large
	return o
}

// ---- builtins

func newRHash() *rhash { return &rhash{m: map[string]V{}} }

func (h *rhash) set(k, v V) {
	checkKey(k)
	id := rdump(k)
	if _, ok := h.m[id]; !ok {
		h.keys = append(h.keys, k)
	}
	h.m[id] = v
}

func (h *rhash) del(k V) {
	id := rdump(k)
	if _, ok := h.m[id]; !ok {
		return
	}
	delete(h.m, id)
	for i := range h.keys {
		if rdump(h.keys[i]) == id {
			h.keys = append(h.keys[:i:i], h.keys[i+1:]...)
			return
		}
	}
}

func checkKey(k V) {
	switch x := k.(type) {
	case int64, string, rchar, rlabel:
	case rsym:
		if strings.Contains(string(x), ".") {
			unsure("dotted key")
		}
	case *rarr:
		for _, e := range x.v {
			checkKey(e)
		}
	default:
		fail("")
	}
}

func keyOf(k V) V {
	if l, ok := k.(rlabel); ok {
		return rsym(l)
	}
	return k
}

func isNum(v V) bool {
	switch v.(type) {
	case int64, float64:
		return true
	}
	return false
}

func arith(op string, a, b V) V {
	if !isNum(a) || !isNum(b) {
		if _, ok := a.(rchar); ok {
			unsure("char arithmetic")
		}
		if _, ok := b.(rchar); ok {
			unsure("char arithmetic")
		}
		switch a.(type) {
		case string, rnil, *rfn, bool, *rarr, *rhash, *rcell, int64, float64:
			switch b.(type) {
			case string, rnil, *rfn, bool, *rarr, *rhash, *rcell, int64, float64:
				fail("")
			}
		}
		unsure("arithmetic on %T %T", a, b)
	}
	x, xi := a.(int64)
	y, yi := b.(int64)
	if xi && yi {
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			if y == 0 {
				fail("")
			}
			if x%y == 0 {
				return x / y
			}
			return float64(x) / float64(y)
		}
	}
	fx, fy := tofloat(a), tofloat(b)
	switch op {
	case "+":
		return fx + fy
	case "-":
		return fx - fy
	case "*":
		return fx * fy
	}
	return fx / fy
}

func tofloat(v V) float64 {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case float64:
		return x
	}
	panic("tofloat")
}

// kindOf groups the values that can be compared with each other.
func kindOf(v V) byte {
	switch v.(type) {
	case int64, float64, rchar:
		return 'n'
	case string:
		return 's'
	case bool:
		return 'b'
	case rnil:
		return 'z'
	case *rarr:
		return 'a'
	case *rcell:
		return 'l'
	case *rhash:
		return 'h'
	}
	return 0
}

// compare gives -1, 0, 1 for values the order of which is specified.
func compare(a, b V) int {
	if isNum(a) && isNum(b) {
		x, xi := a.(int64)
		y, yi := b.(int64)
		if xi && yi {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
		fx, fy := tofloat(a), tofloat(b)
		if fx != fx || fy != fy {
			unsure("NaN")
		}
		switch {
		case fx < fy:
			return -1
		case fx > fy:
			return 1
		}
		return 0
	}
	if ka, kb := kindOf(a), kindOf(b); ka != 0 && kb != 0 && ka != kb && ka != 'z' {
		fail("") // values of different kinds have no order; nil comes before everything
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y)
		}
		fail("")
	case rchar:
		if y, ok := b.(rchar); ok {
			return int(x) - int(y)
		}
	case bool:
		if y, ok := b.(bool); ok && x == y {
			return 0
		}
	case *rarr:
		if y, ok := b.(*rarr); ok {
			for i := 0; i < len(x.v) && i < len(y.v); i++ {
				if c := compare(x.v[i], y.v[i]); c != 0 {
					return c
				}
			}
			return len(x.v) - len(y.v)
		}
	case rnil:
		if isNil(b) {
			return 0
		}
		return -1
	}
	return unsure("comparing %T %T", a, b).(int)
}

func intArg(v V) int64 {
	x, ok := v.(int64)
	if !ok {
		fail("")
	}
	return x
}

func nargs(args []V, n int) {
	if len(args) != n {
		fail("")
	}
}

func (it *rinterp) installBuiltins() {
	def := func(name string, f func(it *rinterp, sc *rscope, a []V) V) {
		it.builtin[name] = &rbuiltin{name, f}
	}
	for _, op := range []string{"+", "-", "*", "/"} {
		op := op
		def(op, func(it *rinterp, sc *rscope, a []V) V {
			if len(a) < 2 {
				unsure("arithmetic on %d operands", len(a))
			}
			acc := a[0]
			for _, b := range a[1:] {
				acc = arith(op, acc, b)
			}
			return acc
		})
	}
	def("mod", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 2)
		x, ok1 := a[0].(int64)
		y, ok2 := a[1].(int64)
		if !ok1 || !ok2 {
			unsure("mod")
		}
		if y == 0 {
			fail("")
		}
		return x % y
	})
	for _, op := range []string{"<", ">", "<=", ">=", "==", "!="} {
		op := op
		def(op, func(it *rinterp, sc *rscope, a []V) V {
			nargs(a, 2)
			c := compare(a[0], a[1])
			switch op {
			case "<":
				return c < 0
			case ">":
				return c > 0
			case "<=":
				return c <= 0
			case ">=":
				return c >= 0
			case "==":
				return c == 0
			}
			return c != 0
		})
	}
	def("not", func(it *rinterp, sc *rscope, a []V) V { nargs(a, 1); return !truthy(a[0]) })
	pred := func(name string, f func(v V) bool) {
		def(name, func(it *rinterp, sc *rscope, a []V) V { nargs(a, 1); return f(a[0]) })
	}
	pred("null?", isNil)
	pred("list?", func(v V) bool { _, ok := listElems(v); return ok })
	pred("array?", func(v V) bool { _, ok := v.(*rarr); return ok })
	pred("hash?", func(v V) bool { _, ok := v.(*rhash); return ok })
	pred("int?", func(v V) bool { _, ok := v.(int64); return ok })
	pred("float?", func(v V) bool { _, ok := v.(float64); return ok })
	pred("number?", func(v V) bool { _, ok := v.(rchar); return ok || isNum(v) })
	pred("string?", func(v V) bool { _, ok := v.(string); return ok })
	pred("symbol?", func(v V) bool { _, ok := v.(rsym); return ok })
	pred("func?", func(v V) bool {
		switch v.(type) {
		case *rfn, *rbuiltin:
			return true
		}
		return false
	})
	pred("zero?", func(v V) bool {
		switch x := v.(type) {
		case int64:
			return x == 0
		case float64:
			return x == 0
		case rchar:
			return x == 0
		}
		return false
	})
	pred("empty?", func(v V) bool {
		switch x := v.(type) {
		case rnil:
			return true
		case *rarr:
			return len(x.v) == 0
		case *rhash:
			return len(x.keys) == 0
		}
		return false
	})
	def("type?", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		switch a[0].(type) {
		case rnil:
			return "nil"
		case bool:
			return "bool"
		case int64:
			return "int64"
		case float64:
			return "float64"
		case string:
			return "string"
		case rchar:
			return "char"
		case rsym, rlabel:
			return "symbol"
		case *rarr:
			return "array"
		case *rcell:
			return "list"
		case *rhash:
			return "hash"
		case *rfn, *rbuiltin:
			return "func"
		case *rlazy:
			return "lazyArg"
		}
		return unsure("type?")
	})
	def("list", func(it *rinterp, sc *rscope, a []V) V { return flist(a...) })
	def("array", func(it *rinterp, sc *rscope, a []V) V { return &rarr{a} })
	def("cons", func(it *rinterp, sc *rscope, a []V) V { nargs(a, 2); return &rcell{a[0], a[1]} })
	first := func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case *rcell:
			return x.h
		case *rarr:
			if len(x.v) == 0 {
				fail("")
			}
			return x.v[0]
		}
		return fail("")
	}
	def("first", first)
	def("car", first)
	def("second", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case *rcell:
			if y, ok := x.t.(*rcell); ok {
				return y.h
			}
			if isNil(x.t) {
				fail("")
			}
			unsure("second")
		case *rarr:
			if len(x.v) < 2 {
				fail("")
			}
			return x.v[1]
		}
		return fail("")
	})
	rest := func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case *rcell:
			return x.t
		case *rarr:
			if len(x.v) == 0 {
				return &rarr{nil}
			}
			return &rarr{x.v[1:]}
		case rnil:
			return nilv
		}
		return fail("")
	}
	def("rest", rest)
	def("cdr", rest)
	def("len", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case *rarr:
			return int64(len(x.v))
		case string:
			return int64(len(x))
		case *rhash:
			return int64(len(x.keys))
		case rnil:
			return int64(0)
		case *rcell:
			e, ok := listElems(x)
			if !ok {
				unsure("len of improper list")
			}
			return int64(len(e))
		}
		return fail("")
	})
	idx := func(x *rarr, i int64) int64 {
		if i < 0 || i >= int64(len(x.v)) {
			fail("")
		}
		return i
	}
	def("aget", func(it *rinterp, sc *rscope, a []V) V {
		if len(a) < 2 {
			fail("")
		}
		if len(a) > 2 {
			if len(a) > 3 {
				unsure("aget")
			}
			x, ok := a[0].(*rarr)
			i, ok2 := a[1].(int64)
			if !ok || !ok2 {
				unsure("aget")
			}
			if i < 0 || i >= int64(len(x.v)) {
				return a[2]
			}
			return x.v[i]
		}
		x, ok := a[0].(*rarr)
		if !ok {
			fail("")
		}
		i, ok := a[1].(int64)
		if !ok {
			unsure("aget index")
		}
		return x.v[idx(x, i)]
	})
	def("aset", func(it *rinterp, sc *rscope, a []V) V {
		if len(a) < 3 {
			fail("")
		}
		if len(a) > 3 {
			unsure("aset")
		}
		x, ok := a[0].(*rarr)
		if !ok {
			fail("")
		}
		i, ok := a[1].(int64)
		if !ok {
			unsure("aset index")
		}
		x.v[idx(x, i)] = a[2]
		return nilv
	})
	def("slice", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 3)
		i, ok1 := a[1].(int64)
		j, ok2 := a[2].(int64)
		if !ok1 || !ok2 {
			unsure("slice bounds")
		}
		switch x := a[0].(type) {
		case *rarr:
			if i < 0 || j < i || j > int64(len(x.v)) {
				unsure("slice bounds")
			}
			return &rarr{x.v[i:j]}
		case string:
			if i < 0 || j < i || j > int64(len(x)) {
				unsure("slice bounds")
			}
			return x[i:j]
		}
		return unsure("slice")
	})
	def("append", func(it *rinterp, sc *rscope, a []V) V {
		if len(a) < 2 {
			fail("")
		}
		switch x := a[0].(type) {
		case *rarr:
			return &rarr{append(append([]V(nil), x.v...), a[1:]...)}
		case string:
			if len(a) == 2 {
				switch y := a[1].(type) {
				case string:
					return x + y
				case rchar:
					return x + string(rune(y))
				case int64, *rarr, *rfn, bool:
					fail("")
				}
			}
			unsure("append strings")
		case rnil, *rcell, int64, bool, *rfn, *rhash:
			fail("")
		}
		return unsure("append")
	})
	def("concat", func(it *rinterp, sc *rscope, a []V) V {
		if len(a) < 2 {
			fail("")
		}
		switch a[0].(type) {
		case *rarr:
			var out []V
			for _, x := range a {
				y, ok := x.(*rarr)
				if !ok {
					fail("")
				}
				out = append(out, y.v...)
			}
			return &rarr{out}
		case string:
			s := ""
			for _, x := range a {
				y, ok := x.(string)
				if !ok {
					unsure("concat strings")
				}
				s += y
			}
			return s
		case *rcell:
			if len(a) != 2 {
				unsure("concat lists")
			}
			x, ok := listElems(a[0])
			y, ok2 := listElems(a[1])
			if !ok || !ok2 {
				unsure("concat lists")
			}
			return flist(append(append([]V(nil), x...), y...)...)
		case int64, bool, *rfn:
			fail("")
		}
		return unsure("concat")
	})
	def("str", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		switch x := a[0].(type) {
		case int64:
			return strconv.FormatInt(x, 10)
		case bool:
			return strconv.FormatBool(x)
		case string:
			if strings.ContainsAny(x, "\"\\`\n\t") {
				unsure("str of a string with escapes")
			}
			return strconv.Quote(x)
		case rnil:
			return "nil"
		case rsym:
			return string(x)
		case *rcell, *rarr:
			if s, ok := plainString(x); ok {
				return s
			}
		}
		return unsure("str")
	})
	def("hash", func(it *rinterp, sc *rscope, a []V) V {
		if len(a)%2 != 0 {
			fail("")
		}
		h := newRHash()
		for i := 0; i < len(a); i += 2 {
			h.set(keyOf(a[i]), a[i+1])
		}
		return h
	})
	def("hget", func(it *rinterp, sc *rscope, a []V) V {
		if len(a) < 2 || len(a) > 3 {
			fail("")
		}
		h, ok := a[0].(*rhash)
		if !ok {
			if _, isArr := a[0].(*rarr); isArr {
				unsure("hget on array")
			}
			fail("")
		}
		checkKey(a[1])
		if v, ok := h.m[rdump(a[1])]; ok {
			return v
		}
		if len(a) == 3 {
			return a[2]
		}
		return fail("")
	})
	def("hset", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 3)
		h, ok := a[0].(*rhash)
		if !ok {
			fail("")
		}
		h.set(a[1], a[2])
		return nilv
	})
	def("hdel", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 2)
		h, ok := a[0].(*rhash)
		if !ok {
			fail("")
		}
		checkKey(a[1])
		h.del(a[1])
		return nilv
	})
	def("keys", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		h, ok := a[0].(*rhash)
		if !ok {
			fail("")
		}
		return &rarr{append([]V(nil), h.keys...)}
	})
	def("apply", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 2)
		switch a[0].(type) {
		case *rfn, *rbuiltin:
		default:
			fail("")
		}
		switch x := a[1].(type) {
		case *rarr:
			return it.apply(a[0], sc, x.v)
		case *rcell:
			e, ok := listElems(x)
			if !ok {
				fail("")
			}
			return it.apply(a[0], sc, e)
		}
		return fail("")
	})
	def("map", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 2)
		switch a[0].(type) {
		case *rfn, *rbuiltin:
		default:
			fail("")
		}
		do := func(xs []V) []V {
			out := make([]V, 0, len(xs))
			for _, x := range xs {
				out = append(out, it.apply(a[0], sc, []V{x}))
			}
			return out
		}
		switch x := a[1].(type) {
		case *rarr:
			return &rarr{do(x.v)}
		case *rcell:
			e, ok := listElems(x)
			if !ok {
				unsure("map over improper list")
			}
			return flist(do(e)...)
		}
		return fail("")
	})
	def("eval", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		if s, ok := a[0].(*rarr); ok {
			_ = s
		}
		return it.evalIn(a[0], sc)
	})
	def("force", func(it *rinterp, sc *rscope, a []V) V { nargs(a, 1); return it.force(a[0]) })
	def("substitute", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		if l, ok := a[0].(*rlazy); ok {
			it.cov["substituted"]++
			return l.form
		}
		return a[0]
	})
	// what the harness adds to the library's interpreter
	def("emit", func(it *rinterp, sc *rscope, a []V) V {
		var sb strings.Builder
		for i, x := range a {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(rdump(x))
		}
		it.log = append(it.log, sb.String())
		if len(it.log) > 5000 {
			panic(runsure{"too many effects"})
		}
		if len(a) == 0 {
			return nilv
		}
		return a[len(a)-1]
	})
	def("boom", func(it *rinterp, sc *rscope, a []V) V {
		nargs(a, 1)
		return fail(fmt.Sprintf("boom%v!", a[0]))
	})
}

// plainString prints lists and arrays of integers and symbols.
func plainString(v V) (string, bool) {
	switch x := v.(type) {
	case int64:
		return strconv.FormatInt(x, 10), true
	case bool:
		return strconv.FormatBool(x), true
	case rsym:
		return string(x), true
	case rnil:
		return "nil", true
	case *rarr:
		var p []string
		for _, e := range x.v {
			s, ok := plainString(e)
			if !ok {
				return "", false
			}
			p = append(p, s)
		}
		return "[" + strings.Join(p, " ") + "]", true
	case *rcell:
		es, ok := listElems(x)
		if !ok || len(es) == 2 && es[0] == V(rsym("quote")) {
			return "", false
		}
		var p []string
		for _, e := range es {
			s, ok := plainString(e)
			if !ok {
				return "", false
			}
			p = append(p, s)
		}
		return "(" + strings.Join(p, " ") + ")", true
	}
	return "", false
}

// globals lists the user's global names.
func (it *rinterp) globals() []string {
	var out []string
	for k := range it.global.vars {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- source text

type rprinter struct {
	sb   strings.Builder
	wild func() string // separator
}

func srcOf(f V) string {
	p := &rprinter{}
	p.print(f)
	return p.sb.String()
}

// srcWild prints with varied white space and comments.
func srcWild(c *Ctx, f V) string {
	p := &rprinter{wild: func() string {
		switch c.intn(14) {
		case 0:
			return "\n"
		case 1:
			return "  "
		case 2:
			return "\t"
		case 3:
			return " /* c */ "
		case 4:
			return " // end\n"
		}
		return " "
	}}
	p.print(f)
	return p.sb.String()
}

func (p *rprinter) sep() {
	if p.wild != nil {
		p.sb.WriteString(p.wild())
		return
	}
	p.sb.WriteByte(' ')
}

func (p *rprinter) print(f V) {
	sb := &p.sb
	switch x := f.(type) {
	case rnil:
		sb.WriteString("nil")
	case int64:
		sb.WriteString(strconv.FormatInt(x, 10))
	case float64:
		s := strconv.FormatFloat(x, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		sb.WriteString(s)
	case bool:
		sb.WriteString(strconv.FormatBool(x))
	case string:
		sb.WriteString(strconv.Quote(x))
	case rsym:
		sb.WriteString(string(x))
	case rlabel:
		sb.WriteString(string(x) + ":")
	case rchar:
		sb.WriteString(strconv.QuoteRune(rune(x)))
	case *rarr:
		sb.WriteString("[")
		for i, e := range x.v {
			if i > 0 {
				p.sep()
			}
			p.print(e)
		}
		sb.WriteString("]")
	case *rcell:
		e, ok := listElems(x)
		if !ok {
			panic("printing an improper list")
		}
		if len(e) == 2 {
			pre := ""
			switch e[0] {
			case V(rsym("syntaxQuote")):
				pre = "^"
			case V(rsym("unquote")):
				pre = "~"
			case V(rsym("unquote-splicing")):
				pre = "~@"
			case V(rsym("quote")):
				switch e[1].(type) {
				case *rcell, *rarr, rsym:
					pre = "%"
				}
			}
			if pre != "" {
				if _, isInt := e[1].(int64); !isInt {
					sb.WriteString(pre)
					p.print(e[1])
					return
				}
			}
		}
		sb.WriteString("(")
		for i, y := range e {
			if i > 0 {
				p.sep()
			}
			p.print(y)
		}
		sb.WriteString(")")
	default:
		panic(fmt.Sprintf("print %T", f))
	}
}
