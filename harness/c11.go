package main

// C11: encode with the real json/json2/msgpack builtins, decode with the real
// decoders and with encoding/json; a monitor compares against the value the
// harness itself generated (never against the library's printer or equality).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/glycerine/zygomys/v9/zygo"
)

var c11env *zygo.Zlisp

// c11v is the harness's own view of a value.
type c11v struct {
	kind string // nil bool int float str arr hash
	b    bool
	i    int64
	f    float64
	s    string
	typ  string
	keys []string
	skey []bool // key i is a string key
	back bool   // spelled as a raw string literal
	vals []*c11v
}

var c11chars = []string{
	"\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "\x00", "\x01", "\x1f", "\x7f", "\u0080", "\u0085", "\u00a0", "é", "ß", "\u2028", "\u2029", "\ufeff", "\ufffd", "日", "😀", "\U0010ffff", "\ue000", "a", "Z", "0", " ", "'", "`", "{", "}", "[", "]", ":", ",", "<", ">", "&", "$", "#", "~", "@", "\\u0041", "\\n", "\\\"", "null", "//", "/*", "\v", "\a", "\x1b", "%", "%s", ";", "(", ")",
}

func c11str(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return ""
	case 1:
		return pick(r, []string{"null", "nil", "true", "1", "-0", "1e5", "Atype", "zKeyOrder", "hash", "{", "[]", "\"", "\\", "\\\\\"", "a\\", "NaN"})
	case 2, 3:
		return pick(r, c11chars)
	case 4: // any rune
		x := rune(r.Intn(0x110000))
		if !utf8.ValidRune(x) {
			x = rune(r.Intn(0x80))
		}
		return string(x)
	}
	n := 1 + r.Intn(8)
	if r.Intn(40) == 0 {
		n = 200 + r.Intn(400)
	}
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(pick(r, c11chars))
	}
	return sb.String()
}

var c11ints = []int64{0, 1, -1, 2, 9, 10, -10, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 1 << 31, 1<<31 - 1, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 123456789}
var c11floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 0.1, 1.5, -2.75, 1e15, 1e16, 123456789012345680, 1e20, 1e21, 1e22, 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 2.225073858507201e-308, 1e-7, 1e-5, 0.000123, 3.141592653589793, 9223372036854775807, 9223372036854775808, -9223372036854775808, 18446744073709551616, 4503599627370496.5, 1.7976931348623155e308, 5e-324, 1e23, 8.41e21, 9007199254740993, 0.3, 2.0 / 3}

func c11gen(r *rand.Rand, depth int, strKeys bool, types []string) *c11v {
	k := r.Intn(12)
	if depth <= 0 {
		k = r.Intn(8)
	}
	switch {
	case k == 0:
		return &c11v{kind: "nil"}
	case k == 1:
		return &c11v{kind: "bool", b: r.Intn(2) == 0}
	case k <= 3:
		x := pick(r, c11ints)
		if r.Intn(3) == 0 {
			x = int64(r.Uint64()) >> uint(r.Intn(64))
		}
		return &c11v{kind: "int", i: x}
	case k <= 5:
		x := pick(r, c11floats)
		switch r.Intn(4) {
		case 0:
			x = math.Float64frombits(r.Uint64())
			if math.IsNaN(x) || math.IsInf(x, 0) {
				x = 1.25
			}
		case 1:
			x = float64(r.Intn(2000)-1000) / float64(1+r.Intn(64))
		}
		return &c11v{kind: "float", f: x}
	case k <= 7:
		s := c11str(r)
		return &c11v{kind: "str", s: s, back: r.Intn(12) == 0 && !strings.ContainsAny(s, "`\r\x00")}
	case k <= 9:
		v := &c11v{kind: "arr"}
		n := r.Intn(5)
		if r.Intn(60) == 0 {
			n = 15 + r.Intn(300) // msgpack array size classes
		}
		for i := 0; i < n; i++ {
			v.vals = append(v.vals, c11gen(r, depth-1, strKeys, types))
		}
		return v
	}
	v := &c11v{kind: "hash", typ: "hash"}
	if len(types) > 0 && r.Intn(2) == 0 {
		v.typ = pick(r, types)
	}
	n := r.Intn(6)
	if r.Intn(60) == 0 {
		n = 14 + r.Intn(60)
	}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var key string
		sk := strKeys && r.Intn(4) != 0
		if sk {
			key = c11str(r)
		} else {
			key = pick(r, []string{"a", "b", "zed", "Aa", "first", "zulu", "Zeta", "key", "val", "id", "x9", "k_1", "été", "日", "zKey", "Atypes", "A", "Btype", "aa", "ab", "hash", "range", "nil_", "def",
				"type", "Type", "typ", "typename", "TypeName", "Typename", "atype", "AType", "ATYPE", "zkeyorder", "ZKeyOrder", "zKeyOrders", "zKey0rder", "KeyOrder", "keyOrder", "keys", "len", "name", "Name", "value", "Val", "json", "len", "Map", "c11a", "c11b", "Ranch", "string", "int64", "float64", "bool", "true_", "null", "null_", "e", "_type", "_", "__type__", "class", "kind", "msgpack", "order", "self", "c11s"}) + pick(r, []string{"", "", "", "1", "q", "_"})
		}
		if seen[key] || key == "Atype" || key == "zKeyOrder" {
			continue
		}
		seen[key] = true
		v.keys = append(v.keys, key)
		v.skey = append(v.skey, sk)
		v.vals = append(v.vals, c11gen(r, depth-1, strKeys, types))
	}
	return v
}

func (v *c11v) sexp(env *zygo.Zlisp) (zygo.Sexp, error) {
	switch v.kind {
	case "nil":
		return zygo.SexpNull, nil
	case "bool":
		return &zygo.SexpBool{Val: v.b}, nil
	case "int":
		return &zygo.SexpInt{Val: v.i}, nil
	case "float":
		return &zygo.SexpFloat{Val: v.f}, nil
	case "str":
		if v.back { // a raw string literal
			return env.EvalString("`" + v.s + "`")
		}
		return &zygo.SexpStr{S: v.s}, nil
	case "arr":
		a := &zygo.SexpArray{Env: env, Val: []zygo.Sexp{}}
		for _, e := range v.vals {
			x, err := e.sexp(env)
			if err != nil {
				return nil, err
			}
			a.Val = append(a.Val, x)
		}
		return a, nil
	}
	var args []zygo.Sexp
	for i, e := range v.vals {
		x, err := e.sexp(env)
		if err != nil {
			return nil, err
		}
		if v.skey[i] {
			args = append(args, &zygo.SexpStr{S: v.keys[i]}, x)
		} else {
			args = append(args, env.MakeSymbol(v.keys[i]), x)
		}
	}
	return zygo.MakeHash(args, v.typ, env)
}

func c11num(f float64) string {
	return new(big.Rat).SetFloat64(f).RatString()
}

// norm is the value up to representation of numbers.
func (v *c11v) norm() string {
	var sb strings.Builder
	v.write(&sb)
	return sb.String()
}

func (v *c11v) write(sb *strings.Builder) {
	switch v.kind {
	case "nil":
		sb.WriteString("nil")
	case "bool":
		sb.WriteString(strconv.FormatBool(v.b))
	case "int":
		sb.WriteString("n" + strconv.FormatInt(v.i, 10))
	case "float":
		sb.WriteString("n" + c11num(v.f))
	case "str":
		sb.WriteString(strconv.QuoteToASCII(v.s))
	case "arr":
		sb.WriteString("[")
		for i, e := range v.vals {
			if i > 0 {
				sb.WriteString(" ")
			}
			e.write(sb)
		}
		sb.WriteString("]")
	case "hash":
		sb.WriteString("(" + v.typ)
		for i, e := range v.vals {
			sb.WriteString(" '" + strconv.QuoteToASCII(v.keys[i]) + ":")
			e.write(sb)
		}
		sb.WriteString(")")
	}
}

// c11normSexp renders a decoded library value the same way.
func c11normSexp(sb *strings.Builder, x zygo.Sexp) {
	switch t := x.(type) {
	case *zygo.SexpInt:
		sb.WriteString("n" + strconv.FormatInt(t.Val, 10))
	case *zygo.SexpFloat:
		if math.IsNaN(t.Val) || math.IsInf(t.Val, 0) {
			sb.WriteString("f" + fkey(t.Val))
			return
		}
		sb.WriteString("n" + c11num(t.Val))
	case *zygo.SexpArray:
		sb.WriteString("[")
		for i, e := range t.Val {
			if i > 0 {
				sb.WriteString(" ")
			}
			c11normSexp(sb, e)
		}
		sb.WriteString("]")
	case *zygo.SexpHash:
		sb.WriteString("(" + t.TypeName)
		n := 0
		for _, b := range t.Map {
			n += len(b)
		}
		if n != len(t.KeyOrder) {
			fmt.Fprintf(sb, "<%d pairs, %d ordered keys>", n, len(t.KeyOrder))
		}
		for _, k := range t.KeyOrder {
			v, ok := hashLookup(t, k)
			if !ok {
				sb.WriteString("<missing>")
				continue
			}
			sy, isSym := k.(*zygo.SexpSymbol)
			if !isSym {
				sb.WriteString("<key not a symbol>")
				continue
			}
			sb.WriteString(" '" + strconv.QuoteToASCII(sy.Name()) + ":")
			c11normSexp(sb, v)
		}
		sb.WriteString(")")
	default:
		sb.WriteString(dump(x))
	}
}

// c11Std decodes JSON text with the standard library, keeping member order.
func c11Std(text []byte, meta bool) (*c11v, error) {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	v, err := c11StdVal(dec, meta)
	if err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("text after the value")
	}
	if !json.Valid(text) {
		return nil, fmt.Errorf("json.Valid says no")
	}
	if !utf8.Valid(text) {
		return nil, fmt.Errorf("not UTF-8")
	}
	return v, nil
}

func c11StdVal(dec *json.Decoder, meta bool) (*c11v, error) {
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return &c11v{kind: "nil"}, nil
	case bool:
		return &c11v{kind: "bool", b: x}, nil
	case string:
		return &c11v{kind: "str", s: x}, nil
	case json.Number:
		if i, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
			return &c11v{kind: "int", i: i}, nil
		}
		f, err := x.Float64()
		if err != nil {
			return nil, err
		}
		return &c11v{kind: "float", f: f}, nil
	case json.Delim:
		if x == '[' {
			v := &c11v{kind: "arr"}
			for dec.More() {
				e, err := c11StdVal(dec, meta)
				if err != nil {
					return nil, err
				}
				v.vals = append(v.vals, e)
			}
			_, err := dec.Token()
			return v, err
		}
		v := &c11v{kind: "hash", typ: "hash"}
		var order *c11v
		seen := map[string]bool{}
		typed := false
		for dec.More() {
			kt, err := dec.Token()
			if err != nil {
				return nil, err
			}
			k := kt.(string)
			if seen[k] {
				return nil, fmt.Errorf("duplicate member %q", k)
			}
			seen[k] = true
			e, err := c11StdVal(dec, meta)
			if err != nil {
				return nil, err
			}
			if meta && k == "Atype" {
				if e.kind != "str" {
					return nil, fmt.Errorf("Atype is not a string")
				}
				v.typ = e.s
				typed = true
				continue
			}
			if meta && k == "zKeyOrder" {
				order = e
				continue
			}
			v.keys = append(v.keys, k)
			v.vals = append(v.vals, e)
		}
		if meta {
			if !typed {
				return nil, fmt.Errorf("object without Atype")
			}
			if order == nil && len(v.keys) > 0 {
				return nil, fmt.Errorf("object without zKeyOrder")
			}
			if order != nil {
				var names []string
				for _, e := range order.vals {
					names = append(names, e.s)
				}
				if strings.Join(names, "\x00") != strings.Join(v.keys, "\x00") {
					return nil, fmt.Errorf("zKeyOrder %q, members %q", names, v.keys)
				}
			}
		}
		_, err := dec.Token()
		return v, err
	}
	return nil, fmt.Errorf("unexpected token %v", t)
}

func (v *c11v) untyped() *c11v {
	w := *v
	if w.kind == "hash" {
		w.typ = "hash"
	}
	w.vals = nil
	for _, e := range v.vals {
		w.vals = append(w.vals, e.untyped())
	}
	return &w
}

func c11Init(c *Ctx) {
	c11env = newFull()
	evalStr(c11env, 100000, "(defmap c11a) (defmap c11b) (defmap Ranch) (struct c11s [(field first: string e:0) (field n: int64 e:1) (field f: float64 e:2) (field xs: ([]int64) e:3)])")
}

// JSON-style source literal for a value with string keys; only content the
// documented literal syntax can spell.
func c11src(r *rand.Rand, depth int, sb *strings.Builder) *c11v {
	ws := func() {
		sb.WriteString(pick(r, []string{"", "", " ", "\n", "  "}))
	}
	k := r.Intn(10)
	if depth <= 0 {
		k = r.Intn(6)
	}
	switch {
	case k == 0:
		b := r.Intn(2) == 0
		sb.WriteString(strconv.FormatBool(b))
		return &c11v{kind: "bool", b: b}
	case k == 1:
		x := int64(r.Intn(100000))
		sb.WriteString(strconv.FormatInt(x, 10))
		return &c11v{kind: "int", i: x}
	case k == 2:
		x := float64(r.Intn(100000)) / 64
		s := strconv.FormatFloat(x, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		sb.WriteString(s)
		return &c11v{kind: "float", f: x}
	case k == 3:
		sb.WriteString("nil")
		return &c11v{kind: "nil"}
	case k <= 5:
		s := c11srcStr(r, sb)
		return &c11v{kind: "str", s: s}
	case k <= 7:
		v := &c11v{kind: "arr"}
		sb.WriteString("[")
		n := r.Intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			ws()
			v.vals = append(v.vals, c11src(r, depth-1, sb))
		}
		sb.WriteString("]")
		return v
	}
	return c11srcHash(r, depth, sb)
}

func c11srcStr(r *rand.Rand, sb *strings.Builder) string {
	var out strings.Builder
	sb.WriteString(`"`)
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		switch r.Intn(8) {
		case 0:
			sb.WriteString(`\"`)
			out.WriteString(`"`)
		case 1:
			sb.WriteString(`\\`)
			out.WriteString(`\`)
		case 2:
			sb.WriteString(`\n`)
			out.WriteString("\n")
		case 3:
			sb.WriteString(`\t`)
			out.WriteString("\t")
		default:
			s := pick(r, []string{"a", "b", "Z", "1", " ", "é", "日", "😀", ":", ",", "{", "}", "[", "]", "(", ")", "/", "//", "/*", "'", "#", "~", "^", "%", ";", "<b>", "\u2028", "\x01", "\x7f"})
			sb.WriteString(s)
			out.WriteString(s)
		}
	}
	sb.WriteString(`"`)
	return out.String()
}

func c11srcHash(r *rand.Rand, depth int, sb *strings.Builder) *c11v {
	v := &c11v{kind: "hash", typ: "hash"}
	sb.WriteString("{")
	n := 1 + r.Intn(4)
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		var ks strings.Builder
		key := c11srcStr(r, &ks)
		if seen[key] || key == "Atype" || key == "zKeyOrder" {
			continue
		}
		if len(v.keys) > 0 {
			sb.WriteString(", ")
		}
		seen[key] = true
		sb.WriteString(ks.String())
		sb.WriteString(":")
		sb.WriteString(pick(r, []string{"", " "}))
		v.keys = append(v.keys, key)
		v.skey = append(v.skey, true)
		v.vals = append(v.vals, c11src(r, depth-1, sb))
	}
	sb.WriteString("}")
	return v
}

func c11Run(c *Ctx, idx int) {
	env := c11env
	r := c.Rng
	if idx == 0 {
		c11Reserved(c)
		return
	}
	mode := idx % 8
	if mode == 7 {
		c11Literal(c)
		return
	}
	strKeys := mode >= 5
	v := c11gen(r, 1+r.Intn(4), strKeys, []string{"c11a", "c11b", "Ranch", "c11new" + strconv.Itoa(r.Intn(50))})
	sx, err := v.sexp(env)
	if err != nil {
		c.Violate("build", "could not build %s: %v", v.norm(), err)
		return
	}
	c.Count("values_with_string_keys", int64(b2i(strKeys)))
	c11Check(c, v, sx, strKeys, v.norm())
	// the same value held by a declared struct
	if mode == 0 && r.Intn(3) == 0 {
		s, n, f := c11str(r), pick(r, c11ints), pick(r, c11floats)
		xs := &c11v{kind: "arr", vals: []*c11v{{kind: "int", i: n}, {kind: "int", i: 7}}}
		rec := &c11v{kind: "hash", typ: "c11s", keys: []string{"f", "xs", "first", "n"}, skey: make([]bool, 4), vals: []*c11v{{kind: "float", f: f + 0.25}, xs, {kind: "str", s: s}, {kind: "int", i: n}}}
		if math.Abs(f) > 1e10 || float64(int64(f+0.25)) == f+0.25 {
			rec.vals[0].f = 0.5
		}
		if sx, err := rec.sexp(env); err != nil {
			c.Violate("build", "could not build struct %s: %v", rec.norm(), err)
		} else {
			c11Check(c, rec, sx, false, rec.norm())
			c.Count("declared_structs", 1)
		}
	}
}

// c11Reserved: a user's own keys that the encodings use for themselves.
func c11Reserved(c *Ctx) {
	env := newFull()
	for _, key := range []string{"Atype", "zKeyOrder"} {
		for _, vt := range []string{"3", `"snoopy"`, "[1]"} {
			src := "(hash " + key + ":" + vt + " b:4)"
			for _, enc := range []string{"(unjson (json %s))", "(unmsgpack (msgpack %s))"} {
				c.Eval()
				a, b := evalStr(env, 100000, src), evalStr(env, 100000, fmt.Sprintf(enc, src))
				var sa, sb strings.Builder
				if a.ok() {
					c11normSexp(&sa, a.Val)
				}
				if b.ok() {
					c11normSexp(&sb, b.Val)
				}
				if !a.ok() || !b.ok() || sa.String() != sb.String() {
					c.Violate("reserved-key-"+key, "a hash with the user key %s does not survive %s\nvalue %s\ncomes back as %s", key, enc, sa.String(), sb.String()+b.String())
				}
			}
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c11Literal(c *Ctx) {
	env := newFullCached()
	var sb strings.Builder
	v := c11srcHash(c.Rng, 1+c.Rng.Intn(3), &sb)
	src := sb.String()
	o := evalStr(env, 200000, src)
	h, ok := o.Val.(*zygo.SexpHash)
	if !o.ok() || !ok {
		c.Violate("literal", "JSON-style literal did not evaluate to a hash\nsource: %s\ngot: %s", src, o.String())
		return
	}
	c.Count("source_literals", 1)
	c11Check(c, v, h, true, src)
}

var fullCached *zygo.Zlisp
var fullCachedUses int

// newFullCached is a full interpreter renewed now and then.
func newFullCached() *zygo.Zlisp {
	if fullCached == nil || fullCachedUses > 200 {
		fullCached = newFull()
		fullCachedUses = 0
	}
	fullCachedUses++
	return fullCached
}

func c11Check(c *Ctx, v *c11v, sx zygo.Sexp, strKeys bool, what string) {
	env := c11env
	want := v.norm()
	env.AddGlobal("v11", sx)
	c.Eval()
	c.Nontrivial(want)
	c.Max("largest_value", int64(len(want)))
	if c.Idx%500 < 2 {
		c.Sample(what)
	}
	before := dump(sx)
	defer func() {
		if d := dump(sx); d != before {
			c.Violate("mutated", "encoding changed the value\nbefore %s\nafter  %s", before, d)
		}
	}()
	// JSON text
	o := evalStr(env, 200000, "(json v11)")
	raw, ok := o.Val.(*zygo.SexpRaw)
	if !o.ok() || !ok {
		c.Violate("json-fails", "(json v) failed\nv = %s\nresult %s", what, o.String())
		return
	}
	text := append([]byte{}, raw.Val...)
	std, err := c11Std(text, true)
	if err != nil {
		c.Violate("json-malformed", "JSON text is not well-formed: %v\nv = %s\ntext = %q", err, what, text)
	} else if std.norm() != want {
		c.Violate("json-denotes", "JSON text denotes other data\nv    = %s\nwant = %s\ngot  = %s\ntext = %q", what, want, std.norm(), text)
	}
	c.Count("json_texts_checked", 1)
	// json2: display form
	o = evalStr(env, 200000, "(json2 v11)")
	st, ok := o.Val.(*zygo.SexpStr)
	if !o.ok() || !ok {
		c.Violate("json2-fails", "(json2 v) failed\nv = %s\nresult %s", what, o.String())
	} else if std, err := c11Std([]byte(st.S), false); err != nil {
		c.Violate("json2-malformed", "json2 text is not well-formed: %v\nv = %s\ntext = %q", err, what, st.S)
	} else if std.norm() != v.untyped().norm() {
		c.Violate("json2-denotes", "json2 text denotes other data\nv    = %s\nwant = %s\ngot  = %s\ntext = %q", what, v.untyped().norm(), std.norm(), st.S)
	}
	if strKeys {
		return
	}
	for _, src := range []string{"(unjson (json v11))", "(unmsgpack (msgpack v11))"} {
		o := evalStr(env, 200000, src)
		var sb strings.Builder
		if o.ok() {
			c11normSexp(&sb, o.Val)
		} else {
			sb.WriteString(o.String())
		}
		sig := "roundtrip-json"
		if strings.Contains(src, "msgpack") {
			sig = "roundtrip-msgpack"
		}
		if sb.String() != want {
			c.Violate(sig, "%s is not the value\nv    = %s\nwant = %s\ngot  = %s", src, what, want, sb.String())
			continue
		}
		c.Count("round_trips", 1)
		// a second trip through the other encoding must agree too
		if c.chance(1, 4) {
			env.AddGlobal("w11", o.Val)
			other := "(unmsgpack (msgpack w11))"
			if strings.Contains(src, "msgpack") {
				other = "(unjson (json w11))"
			}
			o2 := evalStr(env, 200000, other)
			var sb2 strings.Builder
			if o2.ok() {
				c11normSexp(&sb2, o2.Val)
			} else {
				sb2.WriteString(o2.String())
			}
			if sb2.String() != want {
				c.Violate(sig+"-second", "second trip %s after %s is not the value\nv    = %s\nwant = %s\ngot  = %s", other, src, what, want, sb2.String())
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C11",
		Rule: "random values (strings over hostile characters and any rune, boundary integers and floats, nested arrays, hashes and records) encoded by json, json2 and msgpack; decoded by the library and by encoding/json and compared structurally with the generated value, including type names and member order; JSON-style source literals likewise; every distinct value counts as non-trivial",
		N: func(t string) int {
			if t == "thorough" {
				return 6000000
			}
			return 300000
		},
		Run: c11Run, Init: c11Init,
		MinDistinct: func(t string) int { return 40000 },
	})
}
