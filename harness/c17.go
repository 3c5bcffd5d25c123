package main

// C17: random histories of struct declarations, constructions and writes
// through every route, beside a model of the declarations. After every step
// each instance ever seen is walked and checked against the declaration in
// force when it was made; a step that reports an error must have left every
// instance as it was, and one that does not must have had just its effect.

import (
	"fmt"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

type c17type struct {
	kind byte // 'b'ase, 's'lice, 'p'ointer, 'r'ecord
	base string
	elem *c17type
	def  *c17def
}

type c17field struct {
	name string
	typ  *c17type
}

type c17def struct {
	name   string
	ver    int
	fields []c17field
}

func (d *c17def) field(n string) *c17type {
	for _, f := range d.fields {
		if f.name == n {
			return f.typ
		}
	}
	return nil
}

type c17inst struct {
	h   *zygo.SexpHash
	def *c17def
}

type c17loc struct {
	prefix, infix string // how to say it; infix may be ""
	inst          *c17inst
}

type c17arrloc struct {
	prefix, infix string
	arr           *zygo.SexpArray
}

type c17run struct {
	c      *Ctx
	env    *zygo.Zlisp
	cur    map[string]*c17def
	names  []string
	insts  []*c17inst
	byHash map[*zygo.SexpHash]*c17inst
	vars   []string // global variables holding anything of interest
	nvar   int
	log    []string
	failed bool
	mapped map[string]bool // names defmap was applied to
}

const (
	c17any = iota
	c17accept
	c17reject
)

func (t *c17type) String() string {
	switch t.kind {
	case 'b':
		return t.base
	case 's':
		return "[]" + t.elem.String()
	case 'p':
		return "*" + t.elem.String()
	}
	return fmt.Sprintf("%s/%d", t.def.name, t.def.ver)
}

var c17bases = []string{"int64", "int64", "string", "string", "float64", "bool", "symbol", "uint64", "rune"}
var c17fieldNames = []string{"aa", "Bb", "cc", "Dd", "ee", "ff"}

func (r *c17run) randType(self *c17def, d int) *c17type {
	c := r.c
	switch n := c.intn(10); {
	case n < 4 || d <= 0:
		return &c17type{kind: 'b', base: pick(c.Rng, c17bases)}
	case n < 7:
		return &c17type{kind: 's', elem: r.randType(self, d-1)}
	case n < 9:
		// pointers to records, values and pointers; what an array that is
		// pointed to holds is only known to the array: there, what is
		// not a pointer is no value of the type, and the rest is unjudged
		if d > 0 && c.chance(1, 4) {
			return &c17type{kind: 'p', elem: &c17type{kind: 's', elem: &c17type{kind: 'b', base: pick(c.Rng, c17bases)}}}
		}
		for i := 0; i < 5; i++ {
			e := r.randType(self, d-1)
			if e.kind != 's' {
				return &c17type{kind: 'p', elem: e}
			}
		}
		return &c17type{kind: 'b', base: "int64"}
	}
	ds := []*c17def{self}
	for _, n := range r.names {
		if r.cur[n] != nil && n != self.name && !r.mapped[n] {
			ds = append(ds, r.cur[n])
		}
	}
	return &c17type{kind: 'r', def: pick(c.Rng, ds)}
}

func (r *c17run) typeSrc(t *c17type) string {
	switch t.kind {
	case 'b':
		return t.base
	case 's':
		switch r.c.intn(3) {
		case 0:
			return "(sliceOf " + r.typeSrc(t.elem) + ")"
		case 1:
			return "([]" + r.typeSrc(t.elem) + ")"
		}
		return "([] " + r.typeSrc(t.elem) + ")"
	case 'p':
		return "(* " + r.typeSrc(t.elem) + ")"
	}
	return t.def.name
}

// Verdicts of conf.
const (
	confNo = iota
	confMaybe
	confYes
)

// conf says whether v is of the type t. top: v is the whole value of a field.
func (r *c17run) conf(v zygo.Sexp, t *c17type, top bool) int {
	if v == zygo.SexpNull {
		if top && t.kind != 'b' && t.kind != 'r' {
			return confYes
		}
		return confMaybe // the language does accept some
	}
	is := func(b bool) int {
		if b {
			return confYes
		}
		return confNo
	}
	switch t.kind {
	case 'b':
		switch x := v.(type) {
		case *zygo.SexpInt:
			return is(t.base == "int64")
		case *zygo.SexpStr:
			return is(t.base == "string")
		case *zygo.SexpFloat:
			return is(t.base == "float64")
		case *zygo.SexpBool:
			return is(t.base == "bool")
		case *zygo.SexpSymbol:
			return is(t.base == "symbol")
		case *zygo.SexpUint64:
			return is(t.base == "uint64")
		case *zygo.SexpChar:
			return is(t.base == "rune")
		case *zygo.SexpArray, *zygo.SexpHash, *zygo.SexpPointer, *zygo.SexpPair, *zygo.SexpFunction:
			_ = x
			return confNo
		}
		return confMaybe
	case 's':
		arr, ok := v.(*zygo.SexpArray)
		if !ok {
			return confNo
		}
		res := confYes
		for _, e := range arr.Val {
			if k := r.conf(e, t.elem, false); k < res {
				res = k
			}
		}
		if res == confYes && !top && len(arr.Val) == 0 {
			return confYes
		}
		return res
	case 'p':
		p, ok := v.(*zygo.SexpPointer)
		if !ok {
			return confNo
		}
		if p.Target == nil || p.Target == zygo.SexpNull || t.elem.kind == 's' {
			return confMaybe
		}
		return r.conf(p.Target, t.elem, false)
	}
	h, ok := v.(*zygo.SexpHash)
	if !ok {
		return confNo
	}
	i := r.byHash[h]
	return is(i != nil && i.def == t.def)
}

// settled: an array none of whose elements tells a type may already
// have been taken for another one.
func c17settled(v zygo.Sexp) bool {
	arr, ok := v.(*zygo.SexpArray)
	if !ok || len(arr.Val) == 0 {
		return true
	}
	var leaf func(v zygo.Sexp) bool
	leaf = func(v zygo.Sexp) bool {
		a, ok := v.(*zygo.SexpArray)
		if !ok {
			return v != zygo.SexpNull
		}
		for _, e := range a.Val {
			if leaf(e) {
				return true
			}
		}
		return false
	}
	for _, e := range arr.Val {
		if a, ok := e.(*zygo.SexpArray); ok && len(a.Val) > 0 && !c17settled(a) {
			return false
		}
	}
	return leaf(arr)
}

func (r *c17run) expect(v zygo.Sexp, t *c17type) int {
	if t == nil {
		return c17reject
	}
	switch r.conf(v, t, true) {
	case confNo:
		return c17reject
	case confYes:
		if c17settled(v) {
			return c17accept
		}
	}
	return c17any
}

type c17snap struct {
	full    []string
	shallow [][]zygo.Sexp // key, value, key, value
}

func c17shallow(h *zygo.SexpHash) []zygo.Sexp {
	var s []zygo.Sexp
	for _, k := range h.KeyOrder {
		v, _ := hashLookup(h, k)
		s = append(s, k, v)
	}
	return s
}

func (r *c17run) snap() (s c17snap) {
	for _, i := range r.insts {
		s.full = append(s.full, dump(i.h))
		s.shallow = append(s.shallow, c17shallow(i.h))
	}
	return s
}

func (r *c17run) violate(sig, format string, a ...interface{}) {
	if r.failed {
		return
	}
	r.failed = true
	r.c.Violate(sig, "%s\nhistory:\n  %s", fmt.Sprintf(format, a...), strings.Join(r.log, "\n  "))
}

func (r *c17run) global(name string) zygo.Sexp {
	x, ok := r.env.FindObject(name)
	if !ok {
		return zygo.SexpNull
	}
	return x
}

// discover registers the records reachable from v that were not known.
func (r *c17run) discover(v zygo.Sexp, seen map[interface{}]bool) {
	switch t := v.(type) {
	case *zygo.SexpArray:
		if seen[t] {
			return
		}
		seen[t] = true
		for _, e := range t.Val {
			r.discover(e, seen)
		}
	case *zygo.SexpPair:
		if seen[t] {
			return
		}
		seen[t] = true
		r.discover(t.Head, seen)
		r.discover(t.Tail, seen)
	case *zygo.SexpPointer:
		if seen[t] {
			return
		}
		seen[t] = true
		r.discover(t.Target, seen)
	case *zygo.SexpHash:
		if seen[t] {
			return
		}
		seen[t] = true
		if d := r.cur[t.TypeName]; d != nil && r.byHash[t] == nil {
			i := &c17inst{h: t, def: d}
			r.insts = append(r.insts, i)
			r.byHash[t] = i
		}
		for _, b := range t.Map {
			for _, p := range b {
				r.discover(p.Tail, seen)
			}
		}
	}
}

// audit checks every instance against its declaration.
func (r *c17run) audit() {
	seen := map[interface{}]bool{}
	for _, v := range r.vars {
		r.discover(r.global(v), seen)
	}
	for k := 0; k < len(r.insts); k++ {
		r.discover(r.insts[k].h, seen)
	}
	for _, i := range r.insts {
		r.c.Count("instances_audited", 1)
		if i.h.TypeName != i.def.name {
			r.violate("type-name-changed", "an instance of %s became one of %q", i.def.name, i.h.TypeName)
			return
		}
		n := 0
		for _, b := range i.h.Map {
			n += len(b)
			for _, p := range b {
				r.c.Count("fields_audited", 1)
				sym, ok := p.Head.(*zygo.SexpSymbol)
				if !ok {
					r.violate("undeclared-field", "instance of %s/%d has the key %s", i.def.name, i.def.ver, dump(p.Head))
					return
				}
				t := i.def.field(sym.Name())
				if t == nil {
					r.violate("undeclared-field", "instance of %s/%d has the undeclared field %s\n%s", i.def.name, i.def.ver, sym.Name(), dump(i.h))
					return
				}
				if r.conf(p.Tail, t, true) == confNo {
					r.violate("wrong-type", "field %s of an instance of %s/%d is declared %s and holds %s", sym.Name(), i.def.name, i.def.ver, t, dump(p.Tail))
					return
				}
			}
		}
		if n != len(i.h.KeyOrder) {
			r.violate("key-list", "instance of %s has %d fields and %d keys: %s", i.def.name, n, len(i.h.KeyOrder), dump(i.h))
			return
		}
	}
}

// step evaluates one text.
func (r *c17run) step(src string, want int, frame func(o Outcome, before c17snap)) Outcome {
	c := r.c
	before := r.snap()
	n := len(r.insts)
	o := evalStr(r.env, defaultBudget, src)
	if !o.ok() {
		r.env.Clear()
	}
	c.Eval()
	c.Count("steps", 1)
	note := ""
	if o.ok() {
		c.Count("steps_accepted", 1)
	} else {
		c.Count("steps_rejected", 1)
		note = "   => " + strings.SplitN(o.String(), "\n", 2)[0]
	}
	r.log = append(r.log, src+cut(note))
	switch {
	case want == c17accept && !o.ok():
		r.violate("valid-rejected", "a value of the declared type was refused: %s\n%s", src, o)
	case want == c17reject && o.ok():
		r.violate("invalid-accepted", "an invalid write reported no error: %s\n%s", src, o)
	case !o.ok():
		for k, i := range r.insts[:n] {
			if now := dump(i.h); now != before.full[k] {
				r.violate("rejected-but-changed", "%s failed with %s\nand changed an instance of %s\nfrom %s\nto   %s", src, o, i.def.name, before.full[k], now)
			}
		}
	}
	if want != c17any {
		c.Count("steps_with_known_verdict", 1)
	}
	r.audit()
	if o.ok() && frame != nil && !r.failed {
		frame(o, before)
	}
	return o
}

// frame of a write of one field: just that one changed.
func (r *c17run) wrote(i *c17inst, field, v, held string) func(Outcome, c17snap) {
	return func(o Outcome, before c17snap) {
		now, ok := zygo.Sexp(nil), false
		for _, k := range i.h.KeyOrder {
			if s, isSym := k.(*zygo.SexpSymbol); isSym && s.Name() == field {
				now, ok = hashLookup(i.h, k)
			}
		}
		if !ok {
			r.violate("write-lost", "the field %s is missing after an accepted write", field)
			return
		}
		if d := dump(now); now != r.global(held) && d != v && d != dump(r.global(held)) && !strings.Contains(d, "<cycle>") {
			r.violate("write-wrong", "the field %s holds %s after an accepted write of %s", field, d, v)
			return
		}
		for k, s := range before.shallow {
			j := r.insts[k]
			after := c17shallow(j.h)
			if j == i {
				drop := func(kv []zygo.Sexp) (out []zygo.Sexp) {
					for n := 0; n < len(kv); n += 2 {
						if y, isSym := kv[n].(*zygo.SexpSymbol); isSym && y.Name() == field {
							continue
						}
						out = append(out, kv[n], kv[n+1])
					}
					return out
				}
				s, after = drop(s), drop(after)
			}
			same := len(s) == len(after)
			for n := 0; same && n < len(s); n++ {
				same = s[n] == after[n]
			}
			if !same {
				r.violate("write-elsewhere", "a write to field %s changed other fields, or another instance (of %s): now %s", field, j.def.name, dump(j.h))
				return
			}
		}
	}
}

func (r *c17run) newVar(p string) string {
	r.nvar++
	return fmt.Sprintf("%s%d", p, r.nvar)
}

// locs lists the instances that can be named in an expression.
func (r *c17run) locs() (ls []c17loc, as []c17arrloc) {
	var walk func(v zygo.Sexp, prefix, infix string, d int)
	walk = func(v zygo.Sexp, prefix, infix string, d int) {
		if d > 4 || len(ls)+len(as) > 60 {
			return
		}
		in := func(s string) string {
			if infix == "" {
				return ""
			}
			return infix + s
		}
		switch t := v.(type) {
		case *zygo.SexpArray:
			as = append(as, c17arrloc{prefix, infix, t})
			for k, e := range t.Val {
				if k < 3 {
					walk(e, fmt.Sprintf("(aget %s %d)", prefix, k), in(fmt.Sprintf("[%d]", k)), d+1)
				}
			}
		case *zygo.SexpPointer:
			op := pick(r.c.Rng, []string{"*", "deref"})
			walk(t.Target, "("+op+" "+prefix+")", "", d+1)
		case *zygo.SexpHash:
			i := r.byHash[t]
			if i == nil && t.TypeName != "hash" {
				return
			}
			if i != nil {
				ls = append(ls, c17loc{prefix, infix, i})
			}
			for _, k := range t.KeyOrder {
				s, ok := k.(*zygo.SexpSymbol)
				if !ok {
					continue
				}
				v, _ := hashLookup(t, k)
				walk(v, "(:"+s.Name()+" "+prefix+")", in("."+s.Name()), d+1)
			}
		}
	}
	for _, v := range r.vars {
		walk(r.global(v), v, v, 0)
	}
	return ls, as
}

func (r *c17run) baseVal(b string) string {
	c := r.c
	switch b {
	case "int64":
		return fmt.Sprint(c.intn(100) - 20)
	case "string":
		return fmt.Sprintf("%q", fmt.Sprintf("s%d", c.intn(30)))
	case "float64":
		return fmt.Sprintf("%d.5", c.intn(20))
	case "bool":
		return pick(c.Rng, []string{"true", "false"})
	case "symbol":
		return "%" + pick(c.Rng, []string{"q", "zed"})
	case "uint64":
		return fmt.Sprintf("%dULL", c.intn(50))
	}
	return "'" + string(rune('a'+c.intn(26))) + "'"
}

// val is the source of a value of type t.
func (r *c17run) val(t *c17type, d int) string {
	c := r.c
	switch t.kind {
	case 'b':
		return r.baseVal(t.base)
	case 's':
		if c.chance(1, 8) {
			return "[]"
		}
		if _, as := r.locs(); c.chance(1, 3) && len(as) > 0 {
			for k := 0; k < 6; k++ {
				a := pick(c.Rng, as)
				if r.conf(a.arr, t, true) != confNo {
					return r.derived(a)
				}
			}
		}
		var el []string
		for k, n := 0, 1+c.intn(3); k < n; k++ {
			if t.elem.kind == 'p' && c.chance(1, 6) {
				el = append(el, "nil")
				continue
			}
			el = append(el, r.val(t.elem, d-1))
		}
		return "[" + strings.Join(el, " ") + "]"
	case 'p':
		if d <= 0 || c.chance(1, 8) {
			return "nil"
		}
		return "(& " + r.val(t.elem, d-1) + ")"
	}
	ls, _ := r.locs()
	var mine []string
	for _, l := range ls {
		if l.inst.def == t.def {
			mine = append(mine, l.prefix)
		}
	}
	if len(mine) > 0 && c.chance(2, 3) {
		return pick(c.Rng, mine)
	}
	if r.cur[t.def.name] == t.def && d > 0 {
		return r.construct(t.def, d-1)
	}
	if len(mine) > 0 {
		return pick(c.Rng, mine)
	}
	return "(" + t.def.name + ")"
}

// derived: an array, or one that shares its elements.
func (r *c17run) derived(a c17arrloc) string {
	n := len(a.arr.Val)
	switch r.c.intn(6) {
	case 0:
		if n > 0 {
			return "(rest " + a.prefix + ")"
		}
	case 1:
		k := r.c.intn(n + 1)
		return fmt.Sprintf("(slice %s %d %d)", a.prefix, r.c.intn(k+1), k)
	case 2:
		return "(concat " + a.prefix + ")"
	case 3:
		if n > 0 {
			return "(append " + a.prefix + " (first " + a.prefix + "))"
		}
	}
	return a.prefix
}

// spoiled is a value near those of type t that is, mostly, not one.
func (r *c17run) spoiled(t *c17type, d int) string {
	c := r.c
	if d < 0 {
		return r.baseVal(pick(c.Rng, c17bases))
	}
	switch c.intn(8) {
	case 0:
		return "nil"
	case 1:
		return "[]"
	case 2:
		return pick(c.Rng, []string{"(hash a: 1)", "(list 1 2)", "(quote (a b))", "(raw \"x\")", "(fn [a] a)", "{}", "[nil]", "[[]]", "(& 5)", "(hash)", "'x'", "2.0", "0", "\"\""})
	case 3:
		// another instance, maybe of the same struct as it was before
		if ls, _ := r.locs(); len(ls) > 0 {
			l := pick(c.Rng, ls)
			if c.chance(1, 3) {
				return "(& " + l.prefix + ")"
			}
			return l.prefix
		}
	case 4:
		if _, as := r.locs(); len(as) > 0 {
			return r.derived(pick(c.Rng, as))
		}
	}
	switch t.kind {
	case 's':
		if c.chance(1, 5) {
			return r.val(t.elem, d-1)
		}
		// one bad element, anywhere
		var el []string
		n := 1 + c.intn(3)
		bad := c.intn(n)
		for k := 0; k < n; k++ {
			if k == bad {
				el = append(el, r.spoiled(t.elem, d-1))
			} else {
				el = append(el, r.val(t.elem, d-1))
			}
		}
		return "[" + strings.Join(el, " ") + "]"
	case 'p':
		if c.chance(1, 4) {
			return r.val(t.elem, d-1)
		}
		return "(& " + r.spoiled(t.elem, d-1) + ")"
	}
	return r.baseVal(pick(c.Rng, c17bases))
}

func (r *c17run) anyVal(t *c17type) string {
	if t == nil {
		return r.baseVal(pick(r.c.Rng, c17bases))
	}
	if r.c.chance(11, 20) {
		return r.val(t, 2)
	}
	return r.spoiled(t, 2)
}

func (r *c17run) construct(d *c17def, depth int) string {
	var sb strings.Builder
	sb.WriteString("(" + d.name)
	for _, f := range d.fields {
		if r.c.chance(1, 2) {
			sb.WriteString(" " + f.name + ": " + r.val(f.typ, depth))
		}
	}
	return sb.String() + ")"
}

// hold evaluates a value into a variable and gives its value.
func (r *c17run) hold(src string) (name string, v zygo.Sexp, ok bool) {
	name = r.newVar("w")
	o := r.step("(def "+name+" "+src+")", c17any, nil)
	if !o.ok() || r.failed {
		return name, nil, false
	}
	r.vars = append(r.vars, name)
	r.audit()
	return name, r.global(name), true
}

func (r *c17run) declare() {
	c := r.c
	name := pick(c.Rng, r.names)
	if r.mapped[name] && c.chance(1, 2) {
		return
	}
	d := &c17def{name: name}
	if old := r.cur[name]; old != nil {
		d.ver = old.ver + 1
	}
	used := map[string]bool{}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(struct %s [", name)
	n := c.intn(5)
	if c.chance(1, 3) && r.cur[name] != nil {
		// much the same again
		for _, f := range r.cur[name].fields {
			if c.chance(3, 4) && !r.mentionsMapped(f.typ, d) {
				d.fields = append(d.fields, f)
				used[f.name] = true
			}
		}
		n = c.intn(2)
	}
	for k := 0; k < n; k++ {
		fn := pick(c.Rng, c17fieldNames)
		if used[fn] {
			continue
		}
		used[fn] = true
		d.fields = append(d.fields, c17field{fn, r.randType(d, 2)})
	}
	for k, f := range d.fields {
		// a reference by name is to what the name stands for now
		f.typ = r.renew(f.typ, d)
		d.fields[k] = f
		fmt.Fprintf(&sb, " (field %s: %s%s)", f.name, r.typeSrc(f.typ), pick(c.Rng, []string{"", "", " e: " + fmt.Sprint(k), " gotags: `json:\"x\"`"}))
	}
	sb.WriteString("])")
	src := sb.String()
	if len(d.fields) == 0 && c.chance(1, 2) {
		src = "(struct " + name + ")"
	}
	if c.chance(1, 8) {
		// a declaration that fails changes nothing
		bad := strings.Replace(src, "])", " (field zz: nosuchtype)])", 1)
		if bad != src {
			r.step(bad, c17reject, nil)
		}
		return
	}
	o := r.step(src, c17any, func(Outcome, c17snap) {})
	if !o.ok() {
		r.violate("declaration-failed", "%s: %s", src, o)
		return
	}
	r.cur[name] = d
	r.mapped[name] = false
	c.Count("declarations", 1)
}

// after (defmap Ka) the symbol Ka is not a type any more
func (r *c17run) mentionsMapped(t *c17type, self *c17def) bool {
	if t.elem != nil {
		return r.mentionsMapped(t.elem, self)
	}
	return t.kind == 'r' && t.def.name != self.name && r.mapped[t.def.name]
}

func (r *c17run) renew(t *c17type, self *c17def) *c17type {
	switch t.kind {
	case 'b':
		return t
	case 'r':
		if t.def.name == self.name {
			return &c17type{kind: 'r', def: self}
		}
		return &c17type{kind: 'r', def: r.cur[t.def.name]}
	}
	return &c17type{kind: t.kind, elem: r.renew(t.elem, self)}
}

// someDef picks a declared struct.
func (r *c17run) someDef() *c17def {
	var ds []*c17def
	for _, n := range r.names {
		if r.cur[n] != nil {
			ds = append(ds, r.cur[n])
		}
	}
	if len(ds) == 0 {
		return nil
	}
	return pick(r.c.Rng, ds)
}

func (r *c17run) someField(d *c17def) string {
	if len(d.fields) == 0 || r.c.chance(1, 8) {
		return pick(r.c.Rng, append(c17fieldNames, "Nope"))
	}
	return pick(r.c.Rng, d.fields).name
}

// make constructs an instance.
func (r *c17run) make() {
	c := r.c
	d := r.someDef()
	if d == nil {
		return
	}
	want := c17accept
	var parts, seenF []string
	for k, n := 0, c.intn(4); k < n; k++ {
		f := r.someField(d)
		dup := false
		for _, s := range seenF {
			dup = dup || s == f
		}
		if dup {
			continue
		}
		seenF = append(seenF, f)
		src := r.anyVal(d.field(f))
		if c.chance(1, 2) {
			src = r.val(&c17type{kind: 'b', base: "int64"}, 0)
			if t := d.field(f); t != nil {
				src = r.val(t, 2)
			}
		}
		w, v, ok := r.hold(src)
		if !ok {
			return
		}
		if e := r.expect(v, d.field(f)); e == c17reject {
			want = c17reject
		} else if e == c17any && want == c17accept {
			want = c17any
		}
		parts = append(parts, f, w)
	}
	kvs := ""
	for k := 0; k < len(parts); k += 2 {
		kvs += " " + parts[k] + ": " + parts[k+1]
	}
	name := r.newVar("i")
	var src string
	switch c.intn(8) {
	case 0:
		src = "(def " + name + " (msgmap \"" + d.name + "\" (list" + kvs + ")))"
		if kvs == "" {
			src = "(def " + name + " (" + d.name + "))"
		}
	case 1:
		src = "{" + name + " = (" + d.name + kvs + ")}"
	case 2:
		src = "(def " + name + " ((fn [] (" + d.name + kvs + "))))"
	case 3:
		src = "(def " + name + " (first (map (fn [x] (" + d.name + kvs + ")) [1])))"
	case 4:
		src = "(def " + name + " (let [q (" + d.name + kvs + ")] q))"
	case 5:
		src = "(def " + name + " (eval (quote (" + d.name + kvs + "))))"
	default:
		src = "(def " + name + " (" + d.name + kvs + "))"
	}
	before := len(r.insts)
	o := r.step(src, want, nil)
	if !o.ok() {
		return
	}
	r.vars = append(r.vars, name)
	r.audit()
	h, isHash := r.global(name).(*zygo.SexpHash)
	if !isHash || r.byHash[h] == nil {
		r.violate("no-instance", "%s gave %s", src, dump(r.global(name)))
		return
	}
	if len(r.insts) == before {
		r.violate("no-instance", "%s gave an instance that existed", src)
	}
	// what was given is there
	for k := 0; k < len(parts) && !r.failed; k += 2 {
		v, ok := zygo.Sexp(nil), false
		for _, key := range h.KeyOrder {
			if s, isSym := key.(*zygo.SexpSymbol); isSym && s.Name() == parts[k] {
				v, ok = hashLookup(h, key)
			}
		}
		if !ok || dump(v) != dump(r.global(parts[k+1])) {
			r.violate("construction-lost", "%s: field %s is %s", src, parts[k], dump(v))
		}
	}
	c.Count("constructions", 1)
	c.Nontrivial(fmt.Sprint("make", d.fields, kvs))
}

// write updates one field through some route.
func (r *c17run) write() {
	c := r.c
	ls, _ := r.locs()
	if len(ls) == 0 {
		return
	}
	l := pick(c.Rng, ls)
	d := l.inst.def
	f := r.someField(d)
	t := d.field(f)
	src := r.anyVal(t)
	w, v, ok := r.hold(src)
	if !ok {
		return
	}
	want := r.expect(v, t)
	val := dump(v)
	if _, isFn := v.(*zygo.SexpFunction); isFn {
		val = ""
	}
	var text string
	route := c.intn(16)
	if l.infix == "" && (route >= 8) {
		route = c.intn(8)
	}
	frame := r.wrote(l.inst, f, val, w)
	switch route {
	case 0, 1:
		text = fmt.Sprintf("(hset %s %s: %s)", l.prefix, f, w)
	case 2:
		text = fmt.Sprintf("(hset %s %%%s %s)", l.prefix, f, w)
	case 3:
		text = fmt.Sprintf("((fn [o x] (hset o %s: x)) %s %s)", f, l.prefix, w)
	case 4:
		text = fmt.Sprintf("(apply hset (list %s %%%s %s))", l.prefix, f, w)
		switch v.(type) {
		case *zygo.SexpSymbol, *zygo.SexpPair:
			want = c17any
			frame = nil
		}
	case 5:
		text = fmt.Sprintf("(map (fn [o] (hset o %s: %s)) [%s])", f, w, l.prefix)
	case 6:
		text = fmt.Sprintf("(hset (* (& %s)) %s: %s)", l.prefix, f, w)
	case 7:
		text = fmt.Sprintf("(let [o %s] {o.%s = %s})", l.prefix, f, w)
	case 8, 9, 10:
		text = fmt.Sprintf("{%s.%s = %s}", l.infix, f, w)
	case 11:
		text = fmt.Sprintf("{%s[%%%s] = %s}", l.infix, f, w)
	case 12:
		text = fmt.Sprintf("{%s.%s = %s}", l.infix, f, w)
		if strings.Contains(l.infix, "[") {
			break
		}
		text = fmt.Sprintf("(set %s.%s %s)", l.infix, f, w)
	case 13:
		text = fmt.Sprintf("((fn [x] {%s.%s = x}) %s)", l.infix, f, w)
	case 14:
		// the literal itself in the place of the variable; evaluated again
		text = fmt.Sprintf("{%s.%s = %s}", l.infix, f, src)
		if strings.ContainsAny(src, "%:'&") || strings.Contains(src, "fn ") {
			text = fmt.Sprintf("{%s.%s = %s}", l.infix, f, w)
		}
	case 15:
		if strings.Contains(l.infix, ".") || strings.Contains(l.infix, "[") {
			text = fmt.Sprintf("{%s.%s = %s}", l.infix, f, w)
		} else {
			text = fmt.Sprintf("(for [(def k 0) (< k 1) (set k (+ k 1))] (hset %s %s: %s))", l.infix, f, w)
		}
	}
	if val == "" {
		frame = nil
	}
	c.Count(fmt.Sprintf("route_%02d", route), 1)
	o := r.step(text, want, frame)
	ty := "undeclared"
	if t != nil {
		ty = t.String()
	}
	c.Nontrivial(fmt.Sprint(route, ty, val, o.ok()))
}

// other does one of the rarer things.
func (r *c17run) other() {
	c := r.c
	ls, as := r.locs()
	if len(ls) == 0 {
		return
	}
	l := pick(c.Rng, ls)
	d := l.inst.def
	f := r.someField(d)
	switch c.intn(13) {
	case 0:
		key := pick(c.Rng, []string{fmt.Sprintf("%q", f), "3", "'a'", "[1]", "\"\"", "(quote (a b))"})
		w := r.baseVal(pick(c.Rng, c17bases))
		if l.infix != "" && c.chance(1, 2) {
			r.step(fmt.Sprintf("{%s[%s] = %s}", l.infix, key, w), c17reject, nil)
			return
		}
		r.step(fmt.Sprintf("(hset %s %s %s)", l.prefix, key, w), c17reject, nil)
	case 1:
		// a field is taken away, or a missing one is
		r.step(fmt.Sprintf("(hdel %s %s:)", l.prefix, f), c17any, nil)
	case 2, 3:
		// another instance in its place
		d2 := pick(c.Rng, ls)
		want := c17accept
		if d2.inst.def != d {
			want = c17reject
		}
		val := dump(d2.inst.h)
		pre := c17shallow(d2.inst.h)
		r.step(fmt.Sprintf("(derefSet (& %s) %s)", l.prefix, d2.prefix), want, func(o Outcome, b c17snap) {
			now := c17shallow(l.inst.h)
			ok := len(now) == len(pre)
			for k := 0; ok && k < len(now); k++ {
				ok = now[k] == pre[k]
			}
			if !ok {
				r.violate("write-wrong", "derefSet of %s left %s", val, dump(l.inst.h))
			}
		})
	case 4:
		bad := pick(c.Rng, []string{"5", "\"s\"", "[1]", "(hash aa: 1)", "nil", "%q", "(list 1)", "(& 5)", "(hash)", "2.5", "'c'"})
		r.step(fmt.Sprintf("(derefSet (& %s) %s)", l.prefix, bad), c17reject, nil)
	case 5:
		// through a pointer to what a field holds
		v, ok := c17get(l.inst.h, f)
		if !ok {
			return
		}
		t := d.field(f)
		w, x, held := r.hold(r.anyVal(t))
		if !held {
			return
		}
		want := c17any
		if r.conf(x, t, true) == confNo {
			want = c17reject
		}
		if v == zygo.SexpNull || x == zygo.SexpNull {
			want = c17any
		}
		r.step(fmt.Sprintf("(derefSet (& (:%s %s)) %s)", f, l.prefix, w), want, nil)
	case 6, 7:
		if len(as) > 0 {
			r.element(pick(c.Rng, as))
		}
	case 8:
		if l.infix == "" {
			return
		}
		op := pick(c.Rng, []string{"+=", "-=", "++", "--", ":="})
		src := fmt.Sprintf("{%s.%s%s}", l.infix, f, op)
		if strings.HasSuffix(op, "=") {
			src = fmt.Sprintf("{%s.%s %s %s}", l.infix, f, op, r.baseVal(pick(c.Rng, []string{"int64", "float64", "string", "uint64"})))
		}
		r.step(src, c17any, nil)
	case 9:
		r.decode(l)
	case 10:
		// containers and pointers that reach instances
		n := r.newVar("x")
		l2 := pick(c.Rng, ls)
		src := pick(c.Rng, []string{
			fmt.Sprintf("[%s %s]", l.prefix, l2.prefix),
			fmt.Sprintf("(hash kk: %s ll: [%s])", l.prefix, l2.prefix),
			fmt.Sprintf("(& %s)", l.prefix),
			fmt.Sprintf("(hash pp: (& %s))", l.prefix),
			l.prefix,
		})
		if o := r.step("(def "+n+" "+src+")", c17any, nil); o.ok() {
			r.vars = append(r.vars, n)
		}
	case 11:
		if len(as) > 0 {
			n := r.newVar("a")
			a := pick(c.Rng, as)
			if o := r.step("(def "+n+" "+r.derived(a)+")", c17any, nil); o.ok() {
				r.vars = append(r.vars, n)
			}
		}
	case 12:
		if sd := r.someDef(); sd != nil && c.chance(1, 4) {
			if o := r.step("(defmap "+sd.name+")", c17any, nil); o.ok() {
				r.mapped[sd.name] = true
			}
		}
	}
}

func c17get(h *zygo.SexpHash, f string) (zygo.Sexp, bool) {
	for _, key := range h.KeyOrder {
		if s, isSym := key.(*zygo.SexpSymbol); isSym && s.Name() == f {
			return hashLookup(h, key)
		}
	}
	return nil, false
}

// owners gives the types of the places in fields whose storage e is.
func (r *c17run) owners(e *zygo.Sexp) (ts []*c17type) {
	var in func(v zygo.Sexp, t *c17type)
	in = func(v zygo.Sexp, t *c17type) {
		arr, ok := v.(*zygo.SexpArray)
		if !ok || t.kind != 's' {
			return
		}
		for k := range arr.Val {
			if &arr.Val[k] == e {
				ts = append(ts, t.elem)
			}
			in(arr.Val[k], t.elem)
		}
	}
	for _, i := range r.insts {
		for _, f := range i.def.fields {
			if v, ok := c17get(i.h, f.name); ok {
				in(v, f.typ)
			}
		}
	}
	return ts
}

// element writes an element of an array, which may be held by fields.
func (r *c17run) element(a c17arrloc) {
	c := r.c
	if len(a.arr.Val) == 0 {
		// nothing may get into an empty array that a field holds
		w, _, ok := r.hold(r.val(&c17type{kind: 's', elem: &c17type{kind: 'b', base: pick(c.Rng, c17bases)}}, 1))
		if ok {
			r.step(fmt.Sprintf("(derefSet (& %s) %s)", a.prefix, w), c17any, nil)
		}
		return
	}
	k := c.intn(len(a.arr.Val))
	ts := r.owners(&a.arr.Val[k])
	src := r.baseVal(pick(c.Rng, c17bases))
	if len(ts) > 0 {
		src = r.anyVal(pick(c.Rng, ts))
	}
	w, v, ok := r.hold(src)
	if !ok {
		return
	}
	// holding the value may have evaluated things; look again
	ts = r.owners(&a.arr.Val[k])
	want := c17any
	if len(ts) > 0 {
		want = c17accept
		for _, t := range ts {
			switch r.conf(v, t, false) {
			case confNo:
				want = c17reject
			case confMaybe:
				if want == c17accept {
					want = c17any
				}
			}
		}
		if want == c17accept && !c17settled(v) {
			want = c17any
		}
		c.Count("element_writes_into_held_arrays", 1)
	}
	val := dump(v)
	frame := func(o Outcome, b c17snap) {
		if d := dump(a.arr.Val[k]); d != val && d != dump(r.global(w)) {
			r.violate("write-wrong", "element %d holds %s after an accepted write of %s", k, d, val)
		}
	}
	switch v.(type) {
	case *zygo.SexpFunction:
		frame = nil
	}
	switch c.intn(6) {
	case 0:
		if a.infix != "" {
			r.step(fmt.Sprintf("{%s[%d] = %s}", a.infix, k, w), want, frame)
			return
		}
	case 1:
		if k > 0 {
			r.step(fmt.Sprintf("(aset (rest %s) %d %s)", a.prefix, k-1, w), want, frame)
			return
		}
	case 2:
		r.step(fmt.Sprintf("(aset (slice %s %d %d) 0 %s)", a.prefix, k, k+1, w), want, frame)
		return
	case 3:
		r.step(fmt.Sprintf("(aset (concat %s) %d %s)", a.prefix, k, w), want, nil)
		return
	case 4:
		// the whole of it
		e := fmt.Sprintf("[%s]", w)
		if len(ts) == 0 || want != c17reject {
			want = c17any
		}
		r.step(fmt.Sprintf("(derefSet (& %s) %s)", a.prefix, e), c17any, nil)
		return
	}
	r.step(fmt.Sprintf("(aset %s %d %s)", a.prefix, k, w), want, frame)
}

// decode makes instances out of encoded data.
func (r *c17run) decode(l c17loc) {
	c := r.c
	name := r.newVar("j")
	want := c17any
	src := ""
	codec := pick(c.Rng, [][2]string{{"unjson", "json"}, {"unmsgpack", "msgpack"}})
	switch c.intn(3) {
	case 0:
		src = fmt.Sprintf("(%s (%s %s))", codec[0], codec[1], l.prefix)
	case 1:
		d := r.someDef()
		var sb strings.Builder
		fmt.Fprintf(&sb, "(hash Atype: %q", d.name)
		for k, n := 0, c.intn(4); k < n; k++ {
			f := r.someField(d)
			t := d.field(f)
			b := pick(c.Rng, []string{"int64", "string", "float64", "bool"})
			v := r.baseVal(b)
			switch {
			case t != nil && t.kind == 's' && c.chance(3, 4):
				v = "[" + v
				eb := b
				for j := c.intn(3); j > 0; j-- {
					b2 := pick(c.Rng, []string{b, b, "int64", "string", "bool"})
					v += " " + r.baseVal(b2)
					if b2 != eb {
						want = c17reject
					}
				}
				v += "]"
				if t.elem.kind != 'b' || t.elem.base != b {
					want = c17reject
				}
			case t == nil || t.kind != 'b' || t.base != b:
				want = c17reject
			}
			if strings.Contains(sb.String(), " "+f+":") {
				return
			}
			fmt.Fprintf(&sb, " %s: %s", f, v)
		}
		sb.WriteString(")")
		rec := sb.String()
		if c.chance(1, 4) {
			rec = pick(c.Rng, []string{"[" + rec + "]", "(hash k: " + rec + ")"})
		}
		src = fmt.Sprintf("(%s (%s %s))", codec[0], codec[1], rec)
	case 2:
		d := r.someDef()
		f := r.someField(d)
		js := pick(c.Rng, []string{"1", "\"a\"", "[1,\"a\"]", "{\"Atype\":\"" + d.name + "\"}", "null", "true", "1.5", "{}", "[]", "[[1],[\"a\"]]", "{\"Atype\":\"hash\",\"x\":1}", "[{\"Atype\":\"" + pick(c.Rng, r.names) + "\",\"zork\":1}]", "-3", "1e3"})
		text := fmt.Sprintf("{\"Atype\":%q, %q:%s}", d.name, f, js)
		src = fmt.Sprintf("(unjson (raw %q))", text)
		if d.field(f) == nil || strings.Contains(js, "zork") {
			want = c17reject
		}
	}
	if o := r.step("(def "+name+" "+src+")", want, nil); o.ok() {
		r.vars = append(r.vars, name)
		r.audit()
		c.Count("decoded", 1)
	}
}

func c17Case(c *Ctx, idx int) {
	r := &c17run{c: c, env: newFull(), cur: map[string]*c17def{}, byHash: map[*zygo.SexpHash]*c17inst{}, mapped: map[string]bool{}}
	r.names = []string{"Ka", "Kb", "Kc"}[:1+c.intn(3)]
	r.declare()
	n := 12 + c.intn(20)
	for k := 0; k < n && !r.failed; k++ {
		if len(r.vars) > 14 {
			// forget some names; the instances are still watched
			r.vars = append(r.vars[:2:2], r.vars[len(r.vars)-8:]...)
		}
		switch m := c.intn(20); {
		case m < 2 || r.someDef() == nil:
			r.declare()
		case m < 6 || len(r.insts) == 0:
			r.make()
		case m < 13:
			r.write()
		default:
			r.other()
		}
	}
	c.Max("instances_in_one_history", int64(len(r.insts)))
	c.Count("histories", 1)
	if idx < 2 {
		c.Sample(strings.Join(r.log, " ; "))
	}
}

func init() {
	register(&Prop{
		ID:   "C17",
		Rule: "after every step of a history of declarations and writes, each instance ever made has only fields declared by the definition in force at its creation, each holding a value of the declared type (nil aside); a step that fails changes no instance; one that succeeds has its effect and no other; values of the declared type are accepted and others refused",
		Assumptions: []string{
			"nil is accepted for a field of any type, and as an element where the language accepts it; what it accepts there is not judged",
			"field types are base types, slices, pointers (not to arrays) and structs, nested to depth 3; structs are declared at top level",
			"an array with no element that tells its type, once held by one field, may be refused by another",
		},
		N:           func(tier string) int { return tierN(tier, 30000, 1200000) },
		Run:         c17Case,
		MinDistinct: func(string) int { return 5000 },
	})
}
