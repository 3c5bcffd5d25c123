package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// C14: a hash behaves as an insertion-ordered map under every history.
// Oracle: a reference ordered map updated alongside; after each step the
// hash's length, key list, lookups, positional access, ranges, printed form
// and encodings are audited against it.

type c14key struct {
	id  string // model identity
	val zygo.Sexp
	pr  string // printed form with spaces removed
	sym string // bare symbol name, if a symbol
}

type c14entry struct {
	k c14key
	v zygo.Sexp
}

type c14model struct{ es []c14entry }

func (m *c14model) find(id string) int {
	for i := range m.es {
		if m.es[i].k.id == id {
			return i
		}
	}
	return -1
}
func (m *c14model) set(k c14key, v zygo.Sexp) {
	if i := m.find(k.id); i >= 0 {
		m.es[i].v = v
		return
	}
	m.es = append(m.es, c14entry{k, v})
}
func (m *c14model) del(k c14key) {
	if i := m.find(k.id); i >= 0 {
		m.es = append(append([]c14entry{}, m.es[:i]...), m.es[i+1:]...)
	}
}
func (m *c14model) clone() *c14model { return &c14model{append([]c14entry{}, m.es...)} }

var c14env *zygo.Zlisp
var c14rec *recorder
var c14collide []string // strings whose fnv32 collide pairwise

func fnv32(s string) uint32 {
	h := fnv.New32()
	h.Write([]byte(s))
	return h.Sum32()
}

func c14Init(c *Ctx) {
	c14env = newFull()
	c14rec = &recorder{}
	c14rec.install(c14env)
	seen := map[uint32]string{}
	for i := 0; len(c14collide) < 8 && i < 3_000_000; i++ {
		s := fmt.Sprintf("k%x", i*2654435761)
		h := fnv32(s)
		if o, ok := seen[h]; ok && o != s {
			c14collide = append(c14collide, o, s)
		}
		seen[h] = s
	}
}

func c14keys(c *Ctx) []c14key {
	env := c14env
	var ks []c14key
	addInt := func(i int64) {
		ks = append(ks, c14key{id: fmt.Sprintf("i%d", i), val: &zygo.SexpInt{Val: i}, pr: fmt.Sprint(i)})
	}
	addSym := func(s string) {
		ks = append(ks, c14key{id: "s" + s, val: env.MakeSymbol(s), pr: s, sym: s})
	}
	addStr := func(s string) {
		ks = append(ks, c14key{id: "q" + s, val: &zygo.SexpStr{S: s}, pr: `"` + s + `"`})
	}
	names := []string{"a", "b", "cc", "key", "zulu", "Mem"}
	mode := c.intn(8)
	switch mode {
	case 0, 1: // symbols only: every encoding applies
		for i := 0; i < 3+c.intn(4); i++ {
			addSym(names[i])
		}
	case 2: // symbols and ints in the same buckets
		for i := 0; i < 3; i++ {
			addSym(names[i])
			addInt(int64(env.MakeSymbol(names[i]).Number()))
		}
		addInt(0)
		addInt(-1)
	case 3: // colliding strings, and ints equal to their hash
		for i := 0; i+1 < len(c14collide) && i < 6; i += 2 {
			addStr(c14collide[i])
			addStr(c14collide[i+1])
			addInt(int64(fnv32(c14collide[i])))
		}
		addStr("plain")
	case 4: // strings equal to symbols' names, chars, arrays
		for i := 0; i < 3; i++ {
			addSym(names[i])
			addStr(names[i])
		}
		ks = append(ks, c14key{id: "c98", val: &zygo.SexpChar{Val: 'b'}, pr: "'b'"})
		ks = append(ks, c14key{id: "c26085", val: &zygo.SexpChar{Val: 'é'}, pr: "'é'"})
		addInt(7)
	case 5: // arrays among others
		addInt(1)
		addInt(2)
		addSym("a")
		mk := func(id, pr string, xs ...zygo.Sexp) {
			ks = append(ks, c14key{id: id, val: env.NewSexpArray(xs), pr: pr})
		}
		i1, i2 := &zygo.SexpInt{Val: 1}, &zygo.SexpInt{Val: 2}
		mk("[1 2]", "[12]", i1, i2)
		mk("[2 1]", "[21]", i2, i1)
		mk("[]", "[]")
		mk(`["a" 1]`, `["a"1]`, &zygo.SexpStr{S: "a"}, i1)
		mk("[a 1]", "[a1]", env.MakeSymbol("a"), i1)
		mk("[[1 2] 2]", "[[12]2]", env.NewSexpArray([]zygo.Sexp{i1, i2}), i2)
		mk("i1", "1", i1) // [1] stands for 1
	}
	mk := func(id, pr string, xs ...zygo.Sexp) {
		ks = append(ks, c14key{id: id, val: env.NewSexpArray(xs), pr: pr})
	}
	i1, i2 := &zygo.SexpInt{Val: 1}, &zygo.SexpInt{Val: 2}
	switch mode {
	case 6: // arrays that differ in one element of a type that does not hash by itself
		mk("[1 nil]", "[1nil]", i1, zygo.SexpNull)
		mk("[1 true]", "[1true]", i1, &zygo.SexpBool{Val: true})
		mk("[1 false]", "[1false]", i1, &zygo.SexpBool{Val: false})
		mk("[1 1ULL]", "[11ULL]", i1, &zygo.SexpUint64{Val: 1})
		mk("[1 2ULL]", "[12ULL]", i1, &zygo.SexpUint64{Val: 2})
		mk("[1 (1 2)]", "[112]", i1, zygo.MakeList([]zygo.Sexp{i1, i2}))
		mk("[1 (1 1)]", "[111]", i1, zygo.MakeList([]zygo.Sexp{i1, i1}))
		mk("[1 1]", "[11]", i1, i1)
		mk("[1 1.5]", "[11.5]", i1, &zygo.SexpFloat{Val: 1.5})
		mk("[1 [1]]", "[1[1]]", i1, env.NewSexpArray([]zygo.Sexp{i1}))
		mk("[[1] 1]", "[[1]1]", env.NewSexpArray([]zygo.Sexp{i1}), i1)
		c.Rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		ks = ks[:4+c.intn(5)]
	case 7: // dotted symbols are keys like others, but name a path when looked up
		for _, n := range []string{"a.b", "a.c", ".a", "b.a", "a.b.c"} {
			addSym(n)
		}
		addSym("a")
		addSym("b")
		if c.chance(1, 3) {
			mk("[a.b 1]", "[a.b1]", env.MakeSymbol("a.b"), i1)
			mk("[a 1]", "[a1]", env.MakeSymbol("a"), i1)
			addInt(int64(env.MakeSymbol("a.b").Number()))
		}
	}
	c.Rng.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

// dotted tells whether looking k up follows a path.
func (k *c14key) dotted() bool { return strings.Contains(k.sym, ".") }

// otherForm is freshKey with the integers in an array written as floats, which
// are equal to them.
func otherForm(k zygo.Sexp) zygo.Sexp {
	k = freshKey(k)
	if a, ok := k.(*zygo.SexpArray); ok && len(a.Val) > 1 {
		for i, x := range a.Val {
			switch t := x.(type) {
			case *zygo.SexpInt:
				a.Val[i] = &zygo.SexpFloat{Val: float64(t.Val)}
			case *zygo.SexpArray:
				a.Val[i] = otherForm(t)
			}
		}
	}
	return k
}

// freshKey makes an equal but not identical key object.
func freshKey(k zygo.Sexp) zygo.Sexp {
	switch t := k.(type) {
	case *zygo.SexpInt:
		return &zygo.SexpInt{Val: t.Val}
	case *zygo.SexpStr:
		return &zygo.SexpStr{S: t.S}
	case *zygo.SexpChar:
		return &zygo.SexpChar{Val: t.Val}
	case *zygo.SexpSymbol:
		return c14env.MakeSymbol(t.Name())
	case *zygo.SexpArray:
		vs := make([]zygo.Sexp, len(t.Val))
		for i := range t.Val {
			vs[i] = freshKey(t.Val[i])
		}
		return c14env.NewSexpArray(vs)
	}
	return k
}

// keyAs is the key as the hash reports it ([1] reports as 1).
func keyAs(k c14key) zygo.Sexp {
	if a, ok := k.val.(*zygo.SexpArray); ok && len(a.Val) == 1 {
		return a.Val[0]
	}
	return k.val
}

func c14Run(c *Ctx, idx int) {
	env := c14env
	stepMon.sample = false
	ks := c14keys(c)
	absent := ks[len(ks)-1]
	typeName := pick(c.Rng, []string{"hash", "hash", "hash", "c14rec"})
	allSym := true
	for _, k := range ks {
		if k.sym == "" {
			allSym = false
		}
	}
	var hist []string
	fail := func(sig, f string, a ...interface{}) {
		c.Violate(sig, "%s\nhistory (%s):\n  %s", fmt.Sprintf(f, a...), typeName, strings.Join(hist, "\n  "))
	}
	nextVal := int64(1000)
	newVal := func() zygo.Sexp {
		nextVal++
		switch c.intn(12) {
		case 0:
			return zygo.SexpNull
		case 1:
			return &zygo.SexpBool{Val: c.chance(1, 2)}
		case 2:
			return &zygo.SexpStr{S: fmt.Sprintf("v%d", nextVal)}
		}
		return &zygo.SexpInt{Val: nextVal}
	}
	m := &c14model{}
	// creation, sometimes with initial pairs and duplicate keys
	var args []zygo.Sexp
	for i := c.intn(5); i > 0; i-- {
		k, v := pick(c.Rng, ks), newVal()
		m.set(k, v)
		args = append(args, k.val, v)
	}
	hv, err := zygo.MakeHash(args, typeName, env)
	if err != nil {
		fail("create", "MakeHash failed: %v", err)
		return
	}
	hist = append(hist, "create "+dump(env.NewSexpArray(args)))
	env.AddGlobal("h14", hv)
	// a second hash that must never be affected by operations on the first
	other := &c14model{}
	var otherH *zygo.SexpHash

	call := func(name string, xs ...zygo.Sexp) Outcome {
		o, _ := env.FindObject(name)
		f, ok := o.(*zygo.SexpFunction)
		if !ok {
			return Outcome{Kind: "error", Err: "no function " + name}
		}
		return guard(1_000_000, func() (zygo.Sexp, error) { return env.Apply(f, xs) })
	}
	bindKV := func(k c14key, v zygo.Sexp) {
		env.AddGlobal("k14", freshKey(k.val))
		if v != nil {
			env.AddGlobal("v14", v)
		}
	}
	audit := func(full bool, h *zygo.SexpHash, m *c14model, who string) bool {
		n := len(m.es)
		c.Count("audits", 1)
		if o := call("len", h); o.Coarse() != fmt.Sprint(n) {
			fail("len", "%s: len is %s, want %d", who, o.String(), n)
			return false
		}
		var wk []zygo.Sexp
		for _, e := range m.es {
			wk = append(wk, keyAs(e.k))
		}
		wantKeys := dump(&zygo.SexpArray{Val: wk})
		if o := call("keys", h); o.Coarse() != wantKeys {
			fail("keys", "%s: keys are %s, want %s", who, o.String(), wantKeys)
			return false
		}
		for _, k := range ks {
			if k.dotted() {
				continue
			}
			i := m.find(k.id)
			if i >= 0 {
				if o := call("hget", h, otherForm(k.val)); o.Coarse() != dump(m.es[i].v) {
					fail("get-equal", "%s: (hget h %s) with floats for the integers gave %s, want %s", who, k.id, o.String(), dump(m.es[i].v))
					return false
				}
			}
			o := call("hget", h, freshKey(k.val))
			d := call("hget", h, freshKey(k.val), &zygo.SexpStr{S: "dflt"})
			if i < 0 {
				if o.Kind != "error" {
					fail("get-missing", "%s: (hget h %s) of a missing key gave %s", who, k.id, o.String())
					return false
				}
				if d.Coarse() != `"dflt"` {
					fail("get-default", "%s: (hget h %s dflt) of a missing key gave %s", who, k.id, d.String())
					return false
				}
				continue
			}
			w := dump(m.es[i].v)
			if o.Coarse() != w || d.Coarse() != w {
				fail("get", "%s: (hget h %s) gave %s (with default %s), want %s", who, k.id, o.String(), d.String(), w)
				return false
			}
		}
		for i := -1; i <= n+1; i++ {
			o := call("hpair", h, &zygo.SexpInt{Val: int64(i)})
			p := call("__rangePair", h, &zygo.SexpInt{Val: int64(i)})
			if i < 0 || i >= n {
				if o.Kind != "error" || p.Kind != "error" {
					fail("hpair-oob", "%s: hpair at %d of %d gave %s / %s", who, i, n, o.String(), p.String())
					return false
				}
				continue
			}
			w := "(" + dump(keyAs(m.es[i].k)) + " " + dump(m.es[i].v) + ")"
			if o.Coarse() != w || p.Coarse() != w {
				fail("hpair", "%s: hpair at %d gave %s / %s, want %s", who, i, o.String(), p.String(), w)
				return false
			}
		}
		var sb strings.Builder
		for _, e := range m.es {
			pr := e.k.pr
			sb.WriteString(pr + ":" + e.v.SexpString(nil))
		}
		text := ""
		po := call("str", h)
		if s, ok := po.Val.(*zygo.SexpStr); ok && po.ok() {
			text = s.S
		}
		strip := strings.NewReplacer(" ", "", "\n", "", ",", "", "{", "", "}", "", "(", "", ")", "")
		got := strings.TrimPrefix(strip.Replace(text), map[bool]string{true: "", false: typeName}[typeName == "hash"])
		if got != strings.ReplaceAll(sb.String(), " ", "") {
			fail("print", "%s: printed form %q does not list %s", who, text, sb.String())
			return false
		}
		if !full {
			return true
		}
		// ranges
		env.AddGlobal("hr14", h)
		var want []string
		for _, e := range m.es {
			want = append(want, dump(keyAs(e.k))+" "+dump(e.v))
		}
		for _, src := range []string{
			"(range kk14 vv14 hr14 (emit kk14 vv14))",
			"{for kk14, vv14 := range hr14 { (emit kk14 vv14) }}",
		} {
			c14rec.log = nil
			env.EvalString("(def kk14 nil) (def vv14 nil)")
			env.AddGlobal("kk14", zygo.SexpNull)
			env.AddGlobal("vv14", zygo.SexpNull)
			o := evalStr(env, 200000, src)
			if o.Kind != "value" || strings.Join(c14rec.log, ";") != strings.Join(want, ";") {
				fail("range", "%s: %s visited [%s], want [%s] (%s)", who, src, strings.Join(c14rec.log, "; "), strings.Join(want, "; "), o.String())
				return false
			}
		}
		c.Count("range_walks", 2)
		if allSym {
			// encodings
			o := call("json", h)
			raw, ok := o.Val.(*zygo.SexpRaw)
			if !o.ok() || !ok {
				fail("json", "%s: json failed: %s", who, o.String())
				return false
			}
			if e := c14CheckJSON(raw.Val, m); e != "" {
				fail("json", "%s: json %s of the hash: %s", who, raw.Val, e)
				return false
			}
			env.AddGlobal("hm14", h)
			for _, src := range []string{"(unjson (json hm14))", "(unmsgpack (msgpack hm14))"} {
				o := evalStr(env, 200000, src)
				if o.Coarse() != dump(h) || o.Coarse() != c14Dump(m, typeName) {
					fail("encode", "%s: %s gave %s, want %s", who, src, o.String(), c14Dump(m, typeName))
					return false
				}
			}
			c.Count("encodings", 3)
		}
		return true
	}
	nops := 4 + c.intn(40)
	dels := 0
	for i := 0; i < nops; i++ {
		c.Eval()
		k := pick(c.Rng, ks)
		if c.chance(1, 3) && len(m.es) > 0 {
			k = pick(c.Rng, m.es).k
		}
		var o Outcome
		op := c.intn(17)
		switch {
		case op < 4:
			v := newVal()
			nk := freshKey(k.val)
			if m.find(k.id) >= 0 && c.chance(1, 3) {
				nk = otherForm(k.val)
			}
			hist = append(hist, "hset "+k.id+" "+dump(v))
			o = call("hset", hv, nk, v)
			m.set(k, v)
		case op < 5:
			v := newVal()
			bindKV(k, v)
			hist = append(hist, "script hset "+k.id+" "+dump(v))
			o = evalStr(env, 100000, "(hset h14 k14 v14)")
			m.set(k, v)
		case op < 6 && k.sym != "" && !k.dotted():
			v := newVal()
			bindKV(k, v)
			hist = append(hist, "dot-assign "+k.id+" "+dump(v))
			o = evalStr(env, 100000, "{h14."+k.sym+" = v14}")
			m.set(k, v)
		case op < 7 && k.sym == "" && !strings.HasPrefix(k.id, "["):
			if _, isArr := k.val.(*zygo.SexpArray); isArr {
				continue
			}
			v := newVal()
			bindKV(k, v)
			hist = append(hist, "index-assign "+k.id+" "+dump(v))
			src := "{h14[k14] = v14}"
			switch t := k.val.(type) {
			case *zygo.SexpInt:
				src = fmt.Sprintf("{h14[%d] = v14}", t.Val)
				if t.Val < 0 {
					continue
				}
			case *zygo.SexpStr:
				src = fmt.Sprintf("{h14[%q] = v14}", t.S)
			default:
				continue
			}
			o = evalStr(env, 100000, src)
			m.set(k, v)
		case op < 11:
			hist = append(hist, "hdel "+k.id)
			nk := freshKey(k.val)
			if c.chance(1, 3) {
				nk = otherForm(k.val)
			}
			o = call("hdel", hv, nk)
			m.del(k)
			dels++
		case op < 12:
			bindKV(k, nil)
			hist = append(hist, "script hdel "+k.id)
			o = evalStr(env, 100000, "(hdel h14 k14)")
			m.del(k)
			dels++
		case op < 13: // lookups of a missing key must not change anything
			hist = append(hist, "lookup "+absent.id)
			call("hget", hv, freshKey(absent.val))
			call("hget", hv, freshKey(absent.val), zygo.SexpNull)
			o = Outcome{Kind: "value"}
		case op < 14: // printing modes must not disturb keys
			b := c.chance(1, 2)
			hist = append(hist, fmt.Sprintf("pretty %v", b))
			o = call("pretty", &zygo.SexpBool{Val: b})
		case op < 15: // copy into another hash through a pointer
			otherH, _ = zygo.MakeHash(nil, typeName, env)
			env.AddGlobal("o14", otherH)
			hist = append(hist, "copy h to o")
			otherH.CloneFrom(hv) // what (derefSet (& o) h) does
			o = Outcome{Kind: "value"}
			other = m.clone()
		case op < 16 && otherH != nil: // change the copy
			v := newVal()
			if c.chance(1, 2) {
				hist = append(hist, "hset copy "+k.id+" "+dump(v))
				o = call("hset", otherH, freshKey(k.val), v)
				other.set(k, v)
			} else {
				hist = append(hist, "hdel copy "+k.id)
				o = call("hdel", otherH, freshKey(k.val))
				other.del(k)
			}
		default:
			continue
		}
		if o.Kind != "value" {
			fail("op", "operation failed: %s", o.String())
			break
		}
		c.Count("operations", 1)
		full := i == nops-1 || c.chance(1, 6)
		if !audit(full, hv, m, "h") {
			break
		}
		if otherH != nil && !audit(full, otherH, other, "copy") {
			break
		}
	}
	call("pretty", &zygo.SexpBool{Val: false})
	if dels > 0 {
		c.Nontrivial(strings.Join(hist, "|"))
	}
	c.Max("longest_history", int64(len(hist)))
	if idx%400 == 3 {
		c.Sample(strings.Join(hist, "; "))
	}
}

func c14Dump(m *c14model, typeName string) string {
	var sb strings.Builder
	sb.WriteString("(" + typeName)
	for _, e := range m.es {
		sb.WriteString(" " + dump(e.k.val) + ":" + dump(e.v))
	}
	return sb.String() + ")"
}

// c14CheckJSON: a standard decoder must see exactly the live pairs, in order.
func c14CheckJSON(b []byte, m *c14model) string {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	t, err := dec.Token()
	if err != nil || t != json.Delim('{') {
		return fmt.Sprintf("not an object: %v", err)
	}
	var got []string
	for dec.More() {
		kt, err := dec.Token()
		if err != nil {
			return err.Error()
		}
		var v interface{}
		if err := dec.Decode(&v); err != nil {
			return err.Error()
		}
		k := fmt.Sprint(kt)
		if k == "Atype" {
			continue
		}
		if k == "zKeyOrder" {
			var ko []string
			for _, x := range v.([]interface{}) {
				ko = append(ko, fmt.Sprint(x))
			}
			var w []string
			for _, e := range m.es {
				w = append(w, e.k.sym)
			}
			if strings.Join(ko, ",") != strings.Join(w, ",") {
				return fmt.Sprintf("zKeyOrder %v, want %v", ko, w)
			}
			continue
		}
		got = append(got, fmt.Sprintf("%s=%v", k, v))
	}
	var want []string
	for _, e := range m.es {
		v := ""
		switch t := e.v.(type) {
		case *zygo.SexpInt:
			v = fmt.Sprint(t.Val)
		case *zygo.SexpBool:
			v = fmt.Sprint(t.Val)
		case *zygo.SexpStr:
			v = t.S
		default:
			v = "<nil>"
		}
		want = append(want, e.k.sym+"="+v)
	}
	if strings.Join(got, ",") != strings.Join(want, ",") {
		return fmt.Sprintf("a standard decoder sees %v, want %v", got, want)
	}
	return ""
}

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "random operation histories (create with duplicates, hset/dot/index assignment, hdel, lookups, pretty toggles, copies) over key pools built to share buckets (symbol number = int, fnv32 string collisions, string hash = int, arrays, arrays that differ in one unhashable element, dotted symbols); audited after every step against an ordered-map model; a history is non-trivial when it contains a deletion",
		N: func(t string) int {
			if t == "thorough" {
				return 600000
			}
			return 50000
		},
		Run: c14Run, Init: c14Init,
		MinDistinct: func(t string) int { return 20000 },
		Assumptions: []string{"array keys are not mutated while they are keys", "an int and the char with the same code are equal keys (they are == in the language); pools never mix them", "a key set again after deletion counts as inserted then"},
	})
}
