package main

// C10: a Go value is generated from the types (demo structs and structs of the
// harness covering every kind of field), with shared and circular pointers; a
// script builds the record for it, and the library converts it: explicitly, by
// passing it to a Go method, and back by returning it from one. What arrives
// on the Go side must be the same graph as the one generated, and the record
// that comes back must hold the same values.

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

type ZShape interface{ Area() float64 }

type ZColor int16

type ZRoot struct {
	RootX int64
	RootS string `json:"rootS"`
	RootF float64
}
type ZBase struct {
	ZRoot
	BaseId   int64 `json:"baseId"`
	BaseName string
	BaseF    float64 `json:"bf"`
}

type ZMid struct {
	ZBase
	Tags   []string `json:"tags"`
	MidRaw []byte   `json:"midRaw"`
	MidP   *ZVal    `json:"midP"`
}

type ZSq struct {
	Side float64 `json:"side"`
	Name string  `json:"name"`
	Peer *ZNode  `json:"peer"`
}

func (s *ZSq) Area() float64 { return s.Side * s.Side }

type ZCirc struct {
	ZBase
	R   int    `json:"r"`
	Sub ZShape `json:"sub"`
}

func (s *ZCirc) Area() float64 { return float64(s.R) }

type ZVal struct {
	A   int64     `json:"a"`
	S   string    `json:"s"`
	T   time.Time `json:"t"`
	Raw []byte    `json:"raw"`
	F   float64   `json:"f"`
	B   bool      `json:"b"`
	P   *ZSq      `json:"p"`
}

type ZNode struct {
	I    int   `json:"i"`
	I64  int64 `json:"i64"`
	I32  int32 `json:"i32"`
	I16  int16 `json:"i16"`
	I8   int8
	F64  float64 `json:"f64"`
	F32  float32 `json:"f32"`
	Flag bool    `json:"flag"`
	Str  string
	ZMid
	Ch    rune          `json:"ch"`
	Rawb  []byte        `json:"rawb"`
	When  time.Time     `json:"when"`
	Dur   time.Duration `json:"dur"`
	Ints  []int         `json:"ints"`
	I64s  []int64       `json:"i64s"`
	Fs    []float64     `json:"fs"`
	Ss    []string
	Bs    []bool        `json:"bs"`
	Raws  [][]byte      `json:"raws"`
	Whens []time.Time   `json:"whens"`
	Mat   [][]int64     `json:"mat"`
	V     ZVal          `json:"v"`
	Vs    []ZVal        `json:"vs"`
	P     *ZVal         `json:"p"`
	Ps    []*ZVal       `json:"ps"`
	Next  *ZNode        `json:"next"`
	Kids  []*ZNode      `json:"kids"`
	Sh    ZShape        `json:"sh"`
	Shs   []ZShape      `json:"shs"`
	Any   interface{}   `json:"any"`
	Anys  []interface{} `json:"anys"`
	MSS   map[string]string
	MSF   map[string]float64     `json:"msf"`
	MIF   map[int64]float64      `json:"mif"`
	MSh   map[string]ZShape      `json:"msh"`
	MAny  map[string]interface{} `json:"many"`
	U64   uint64                 `json:"u64"`
	U8    uint8                  `json:"u8"`
	U32s  []uint32               `json:"u32s"`
	Arr   [3]int64               `json:"arr"`
	Om    string                 `json:"om,omitempty"`
	hid   string
	hidp  *ZSq `json:"hidp"`
	Col   ZColor
	Nest  struct{ X int } `json:"-"`
}

// ZProbe has the methods that let the harness see what Go is given.
type ZProbe struct {
	Dummy int `json:"dummy"`
}

var c10took []interface{}
var c10give interface{}

func c10take(x ...interface{}) { c10took = append([]interface{}(nil), x...) }

func (p *ZProbe) EchoNode(x *ZNode) *ZNode                         { c10take(x); return x }
func (p *ZProbe) EchoVal(x ZVal) ZVal                              { c10take(x); return x }
func (p *ZProbe) EchoValP(x *ZVal) *ZVal                           { c10take(x); return x }
func (p *ZProbe) EchoShape(x ZShape) ZShape                        { c10take(x); return x }
func (p *ZProbe) EchoAny(x interface{}) interface{}                { c10take(x); return x }
func (p *ZProbe) EchoTwo(x *ZNode, n int64, y *ZSq, s string) *ZSq { c10take(x, n, y, s); return y }
func (p *ZProbe) EchoBoth(x *ZNode, y *ZCirc) (*ZCirc, *ZNode)     { c10take(x, y); return y, x }
func (p *ZProbe) EchoSnoopy(x *zygo.Snoopy) *zygo.Snoopy           { c10take(x); return x }
func (p *ZProbe) EchoEvent(x *zygo.Event) *zygo.Event              { c10take(x); return x }
func (p *ZProbe) EchoWeather(x *zygo.Weather) *zygo.Weather        { c10take(x); return x }
func (p *ZProbe) EchoPlanes(x *zygo.SetOfPlanes) *zygo.SetOfPlanes {
	c10take(x)
	return x
}
func (p *ZProbe) EchoOuter(x *zygo.NestOuter) *zygo.NestOuter { c10take(x); return x }
func (p *ZProbe) Give() interface{}                           { return c10give }
func (p *ZProbe) GiveNone() (*ZNode, ZShape, *ZSq, error)     { return nil, nil, nil, nil }
func (p *ZProbe) GiveSlice() []*ZNode                         { return []*ZNode{c10give.(*ZNode), c10give.(*ZNode)} }

// Self gives the receiver back.
func (n *ZNode) Self() *ZNode { c10take(n); return n }
func (n *ZVal) Self() *ZVal   { c10take(n); return n }
func (n *ZSq) Self() *ZSq     { c10take(n); return n }
func (n *ZCirc) Self() *ZCirc { c10take(n); return n }

var c10types = []struct {
	name string
	v    interface{}
	echo string
}{
	{"znode", ZNode{}, "EchoNode"}, {"zval", ZVal{}, "EchoValP"}, {"zsq", ZSq{}, "EchoShape"}, {"zcirc", ZCirc{}, "EchoShape"},
	{"snoopy", zygo.Snoopy{}, "EchoSnoopy"}, {"hornet", zygo.Hornet{}, "EchoAny"}, {"hellcat", zygo.Hellcat{}, "EchoAny"}, {"weather", zygo.Weather{}, "EchoWeather"},
	{"persondemo", zygo.Person{}, "EchoAny"}, {"eventdemo", zygo.Event{}, "EchoEvent"}, {"setOfPlanes", zygo.SetOfPlanes{}, "EchoPlanes"}, {"nestouter", zygo.NestOuter{}, "EchoOuter"}, {"nestinner", zygo.NestInner{}, "EchoAny"},
}

var c10name = map[reflect.Type]string{}

func c10typeOf(name string) reflect.Type {
	for _, t := range c10types {
		if t.name == name {
			return reflect.TypeOf(t.v)
		}
	}
	return nil
}

var (
	tTime  = reflect.TypeOf(time.Time{})
	tDur   = reflect.TypeOf(time.Duration(0))
	tBytes = reflect.TypeOf([]byte(nil))
)

type c10field struct {
	keys  []string // the names a record may use
	path  []int
	typ   reflect.Type
	owner reflect.Type
}

// c10fields are the fields of a struct, those of embedded structs included.
func c10fields(t reflect.Type) (out []c10field) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		if tag == "-" {
			continue
		}
		if i := strings.IndexByte(tag, ','); i >= 0 {
			tag = tag[:i]
		}
		if f.Anonymous {
			for _, s := range c10fields(f.Type) {
				s.path = append([]int{i}, s.path...)
				out = append(out, s)
			}
			continue
		}
		keys := []string{tag}
		if tag == "" {
			keys = []string{f.Name, strings.ToLower(f.Name[:1]) + f.Name[1:]}
		}
		out = append(out, c10field{keys: keys, path: []int{i}, typ: f.Type, owner: t})
	}
	return
}

// c10fld is a field of an addressable struct, open to reading and writing.
func c10fld(v reflect.Value, path []int) reflect.Value {
	f := v.FieldByIndex(path)
	if !f.CanInterface() && f.CanAddr() {
		f = reflect.NewAt(f.Type(), f.Addr().UnsafePointer()).Elem()
	}
	return f
}

// c10obj is one record and the Go object it stands for.
type c10obj struct {
	name string
	ptr  reflect.Value // *T
	set  []string      // key value pairs of the constructor
	done bool          // all its fields are known
}

type c10gen struct {
	c      *Ctx
	objs   []*c10obj
	lits   []zygo.Sexp
	limit  int
	cyclic bool
	plain  bool // a value of a right kind only, no nil
	slots  []c10slot
}

// c10slot is a place in a record that was given a value.
type c10slot struct {
	obj *c10obj
	key string
	f   c10field
	pos int // index in obj.set
}

func (g *c10gen) lit(x zygo.Sexp) string {
	g.lits = append(g.lits, x)
	return fmt.Sprintf("(lit %d)", len(g.lits)-1)
}

var c10ints = []int64{0, 1, -1, 2, 7, 42, 127, -128, 128, 255, 32767, -32768, 32768, 65536, 1<<31 - 1, -1 << 31, 1 << 31, 1<<53 - 1, 1 << 53, math.MaxInt64, math.MinInt64, 1234567890123}
var c10floats = []float64{0, 1, -1, 0.5, 2.25, -3.75, 1e10, 0.1, 1e-7, 1e300, -1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 123456789.125, math.Inf(1), math.Inf(-1)}
var c10strs = []string{"", "a", "hello", "two words", "q\"uo\\te", "line\nnext", "tab\t", "été 日本", "`tick`", "'", "a:b", "{}", "\x00\x01", "long " + strings.Repeat("x", 300)}

func (g *c10gen) str() string {
	if g.c.chance(1, 2) {
		return pick(g.c.Rng, c10strs)
	}
	var b []rune
	for n := g.c.intn(8); n > 0; n-- {
		b = append(b, pick(g.c.Rng, []rune("abcXYZ019 _-:;.,()[]{}\"'\\\n日é")))
	}
	return string(b)
}

func (g *c10gen) time() time.Time {
	switch g.c.intn(4) {
	case 0:
		return time.Unix(int64(g.c.intn(2000000000)), int64(g.c.intn(1000000000))).UTC()
	case 1:
		return time.Date(1+g.c.intn(3000), 3, 4, 5, 6, 7, 8, time.FixedZone("Z", 3600*(g.c.intn(20)-10)))
	case 2:
		return time.Unix(int64(g.c.intn(2000000000)), 0)
	}
	return time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.UTC)
}

// obj makes a record for a new Go object of type t.
func (g *c10gen) obj(t reflect.Type, d int) *c10obj {
	o := &c10obj{name: fmt.Sprintf("r%d", len(g.objs)), ptr: reflect.New(t)}
	g.objs = append(g.objs, o)
	fs := c10fields(t)
	g.c.Rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	dens := 1 + g.c.intn(4)
	for _, f := range fs {
		if !g.c.chance(dens, 6) {
			continue
		}
		key := pick(g.c.Rng, f.keys)
		v, src, ok := g.val(f.typ, d-1, o)
		if !ok {
			continue
		}
		c10fld(o.ptr.Elem(), f.path).Set(v)
		k := key + ":"
		if g.c.chance(1, 8) {
			k = strconv.Quote(key)
		}
		g.slots = append(g.slots, c10slot{o, k, f, len(o.set)})
		o.set = append(o.set, k+src)
	}
	o.done = true
	return o
}

// ref gives a pointer of type *t: a new object, one made already, or one
// still being made, in which case the record is completed later.
func (g *c10gen) ref(t reflect.Type, d int) (reflect.Value, string, bool) {
	var had []*c10obj
	for _, o := range g.objs {
		if o.ptr.Type().Elem() == t && (g.cyclic || o.done) {
			had = append(had, o)
		}
	}
	if len(had) > 0 && g.c.chance(2, 5) {
		o := pick(g.c.Rng, had)
		return o.ptr, o.name, true
	}
	if d <= 0 || len(g.objs) >= g.limit {
		return reflect.Value{}, "", false
	}
	o := g.obj(t, d)
	return o.ptr, o.name, true
}

func (g *c10gen) shapes(t reflect.Type) []reflect.Type {
	var r []reflect.Type
	for _, x := range c10types {
		ty := reflect.TypeOf(x.v)
		if reflect.PtrTo(ty).Implements(t) {
			r = append(r, ty)
		}
	}
	return r
}

// val makes a value of a type and the source that stands for it; ok is false
// where the value is left out.
func (g *c10gen) val(t reflect.Type, d int, owner *c10obj) (v reflect.Value, src string, ok bool) {
	c := g.c
	v = reflect.New(t).Elem()
	switch {
	case t == tTime:
		tm := g.time()
		return reflect.ValueOf(tm), g.lit(&zygo.SexpTime{Tm: tm}), true
	case t == tDur:
		n := pick(c.Rng, c10ints)
		return reflect.ValueOf(time.Duration(n)), g.lit(&zygo.SexpDur{Dur: time.Duration(n)}), true
	case t == tBytes:
		s := g.str()
		v.SetBytes([]byte(s))
		return v, g.lit(&zygo.SexpRaw{Val: []byte(s)}), true
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		if t.Kind() == reflect.Int32 && c.chance(1, 2) {
			r := pick(c.Rng, []rune{'a', 'Z', '日', ' '})
			v.SetInt(int64(r))
			return v, g.lit(&zygo.SexpChar{Val: r}), true
		}
		n := pick(c.Rng, c10ints)
		for v.OverflowInt(n) {
			n = pick(c.Rng, c10ints)
		}
		v.SetInt(n)
		return v, strconv.FormatInt(n, 10), true
	case reflect.Uint64, reflect.Uint32, reflect.Uint8:
		n := pick(c.Rng, c10ints)
		for n < 0 || v.OverflowUint(uint64(n)) {
			n = pick(c.Rng, c10ints)
		}
		if t.Kind() == reflect.Uint64 && c.chance(1, 3) {
			u := pick(c.Rng, []uint64{0, 5, 1 << 63, math.MaxUint64, math.MaxInt64})
			v.SetUint(u)
			return v, g.lit(&zygo.SexpUint64{Val: u}), true
		}
		v.SetUint(uint64(n))
		return v, strconv.FormatInt(n, 10), true
	case reflect.Array:
		if d <= 0 {
			return v, "", false
		}
		var p []string
		for i := 0; i < t.Len(); i++ {
			e, s, ok := g.val(t.Elem(), d-1, owner)
			if !ok {
				return v, "", false
			}
			v.Index(i).Set(e)
			p = append(p, s)
		}
		return v, "[" + strings.Join(p, " ") + "]", true
	case reflect.Float64, reflect.Float32:
		f := pick(c.Rng, c10floats)
		if t.Kind() == reflect.Float32 {
			f = pick(c.Rng, []float64{0, 1, -1, 0.5, 2.25, 1e10, -3.75, math.Inf(1)})
		}
		v.SetFloat(f)
		if f == math.Trunc(f) && math.Abs(f) < 1e6 && c.chance(1, 2) {
			return v, strconv.Itoa(int(f)), true
		}
		return v, g.lit(&zygo.SexpFloat{Val: f}), true
	case reflect.String:
		s := g.str()
		v.SetString(s)
		return v, g.lit(&zygo.SexpStr{S: s}), true
	case reflect.Bool:
		b := c.chance(1, 2)
		v.SetBool(b)
		return v, strconv.FormatBool(b), true
	case reflect.Ptr:
		if !g.plain && c.chance(1, 10) {
			return v, "nil", true
		}
		p, src, ok := g.ref(t.Elem(), d)
		return p, src, ok
	case reflect.Interface:
		if !g.plain && c.chance(1, 10) {
			return v, "nil", true
		}
		ts := g.shapes(t)
		if len(ts) == 0 {
			return v, "", false
		}
		p, src, ok := g.ref(pick(c.Rng, ts), d)
		if ok {
			v.Set(p)
		}
		return v, src, ok
	case reflect.Struct:
		if c10name[t] == "" || d <= 0 || len(g.objs) >= g.limit {
			return v, "", false
		}
		// a record of its own, or one that others refer to as well, once complete
		for _, o := range g.objs {
			if o != owner && o.ptr.Type().Elem() == t && o.done && c.chance(1, 3) {
				v.Set(o.ptr.Elem())
				return v, o.name, true
			}
		}
		cyc := g.cyclic
		g.cyclic = false // a value that is copied is complete
		o := g.obj(t, d)
		g.cyclic = cyc
		v.Set(o.ptr.Elem())
		return v, o.name, true
	case reflect.Slice:
		if d <= 0 {
			return v, "", false
		}
		n := c.intn(4)
		v = reflect.MakeSlice(t, 0, n)
		var p []string
		for i := 0; i < n; i++ {
			e, s, ok := g.val(t.Elem(), d-1, owner)
			if ok {
				v = reflect.Append(v, e)
				p = append(p, s)
			}
		}
		return v, "[" + strings.Join(p, " ") + "]", true
	case reflect.Map:
		if d <= 0 {
			return v, "", false
		}
		n := c.intn(4)
		v = reflect.MakeMap(t)
		var p []string
		for i := 0; i < n; i++ {
			k, ks := reflect.Value{}, ""
			if t.Key().Kind() == reflect.String {
				s := pick(c.Rng, []string{"a", "b", "key", "Zz", "é", "two words"})
				k = reflect.ValueOf(s)
				ks = strconv.Quote(s) + " "
				if !strings.Contains(s, " ") && c.chance(1, 2) {
					ks = s + ":"
				}
			} else {
				n := pick(c.Rng, c10ints)
				k = reflect.ValueOf(n)
				ks = strconv.FormatInt(n, 10) + " "
			}
			if v.MapIndex(k).IsValid() {
				continue
			}
			e, s, ok := g.val(t.Elem(), d-1, owner)
			if ok {
				v.SetMapIndex(k, e)
				p = append(p, ks+s)
			}
		}
		return v, "(hash " + strings.Join(p, " ") + ")", true
	}
	return v, "", false
}

// texts build the records: those without references to unfinished ones first.
func (g *c10gen) texts() (out []string) {
	done := map[string]bool{}
	var late []string
	// objects refer to objects by name; one that is not there yet is set later
	for i := len(g.objs) - 1; i >= 0; i-- {
		o := g.objs[i]
		var now []string
		for _, s := range o.set {
			ok := true
			for _, w := range c10word.FindAllString(s, -1) {
				if !done[w] {
					ok = false
				}
			}
			if ok && !g.c.chance(1, 10) {
				now = append(now, s)
			} else {
				late = append(late, fmt.Sprintf("(hset %s %s)", o.name, c10spaced(s)))
			}
		}
		tn := c10name[o.ptr.Type().Elem()]
		switch g.c.intn(4) {
		case 0:
			if !strings.HasPrefix(tn, "nest") {
				out = append(out, fmt.Sprintf("(def %s (msgmap \"%s\" (list %s)))", o.name, tn, strings.Join(c10spacedAll(now), " ")))
				break
			}
			fallthrough
		default:
			if strings.HasPrefix(tn, "nest") && len(now) == 0 {
				out = append(out, fmt.Sprintf("(def %s (msgmap \"%s\" (list)))", o.name, tn))
			} else {
				out = append(out, fmt.Sprintf("(def %s (%s %s))", o.name, tn, strings.Join(c10spacedAll(now), " ")))
			}
		}
		done[o.name] = true
	}
	return append(out, late...)
}

var c10word = mustRe(`\br[0-9]+\b`)

// c10spaced puts the value a blank apart from its key.
func c10spaced(s string) string {
	i := 0
	if s[0] == '"' {
		i = 1 + strings.IndexByte(s[1:], '"')
	} else {
		i = strings.IndexByte(s, ':')
	}
	return s[:i+1] + " " + s[i+1:]
}

func c10spacedAll(l []string) []string {
	r := make([]string, len(l))
	for i := range l {
		r[i] = c10spaced(l[i])
	}
	return r
}

type c10ptr struct {
	addr uintptr
	typ  reflect.Type
}

// c10iso compares two Go values as graphs.
type c10iso struct {
	to, from map[c10ptr]c10ptr
	bad      string
	nodes    int
	shared   int
}

func (s *c10iso) fail(path, format string, a ...interface{}) bool {
	if s.bad == "" {
		s.bad = path + ": " + fmt.Sprintf(format, a...)
	}
	return false
}

func (s *c10iso) eq(path string, want, got reflect.Value) bool {
	if want.IsValid() != got.IsValid() {
		return s.fail(path, "want %v got %v", want, got)
	}
	if !want.IsValid() {
		return true
	}
	if want.Type() != got.Type() {
		return s.fail(path, "want a %v, got a %v", want.Type(), got.Type())
	}
	t := want.Type()
	if t == tTime {
		a, b := want.Interface().(time.Time), got.Interface().(time.Time)
		if !a.Equal(b) || a.String() != b.String() {
			return s.fail(path, "want time %v, got %v", a, b)
		}
		return true
	}
	switch t.Kind() {
	case reflect.Ptr:
		if want.IsNil() || got.IsNil() {
			if want.IsNil() != got.IsNil() {
				return s.fail(path, "want nil: %v, got nil: %v", want.IsNil(), got.IsNil())
			}
			return true
		}
		a, b := c10ptr{want.Pointer(), t}, c10ptr{got.Pointer(), t}
		if x, ok := s.to[a]; ok {
			s.shared++
			if x != b {
				return s.fail(path, "the record is referenced twice but became two Go objects")
			}
			return true
		}
		if _, ok := s.from[b]; ok {
			return s.fail(path, "two records became one Go object")
		}
		s.to[a], s.from[b] = b, a
		s.nodes++
		return s.eq(path+".*", want.Elem(), got.Elem())
	case reflect.Interface:
		if want.IsNil() || got.IsNil() {
			if want.IsNil() != got.IsNil() {
				return s.fail(path, "want %v, got %v", want, got)
			}
			return true
		}
		return s.eq(path, want.Elem(), got.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !s.eq(path+"."+t.Field(i).Name, c10fld(want, []int{i}), c10fld(got, []int{i})) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if want.Len() != got.Len() {
			return s.fail(path, "want %d elements, got %d", want.Len(), got.Len())
		}
		for i := 0; i < want.Len(); i++ {
			if !s.eq(fmt.Sprintf("%s[%d]", path, i), want.Index(i), got.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if want.Len() != got.Len() {
			return s.fail(path, "want %d entries, got %d", want.Len(), got.Len())
		}
		ks := want.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			b := got.MapIndex(k)
			if !b.IsValid() {
				return s.fail(path, "no entry for %v", k)
			}
			if !s.eq(fmt.Sprintf("%s[%v]", path, k), want.MapIndex(k), b) {
				return false
			}
		}
		return true
	case reflect.String:
		if want.String() != got.String() {
			return s.fail(path, "want %q, got %q", want.String(), got.String())
		}
	case reflect.Bool:
		if want.Bool() != got.Bool() {
			return s.fail(path, "want %v, got %v", want, got)
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		if want.Int() != got.Int() {
			return s.fail(path, "want %v, got %v", want.Int(), got.Int())
		}
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		if want.Uint() != got.Uint() {
			return s.fail(path, "want %v, got %v", want.Uint(), got.Uint())
		}
	case reflect.Float64, reflect.Float32:
		if want.Float() != got.Float() && !(math.IsNaN(want.Float()) && math.IsNaN(got.Float())) {
			return s.fail(path, "want %v, got %v", want.Float(), got.Float())
		}
	default:
		return s.fail(path, "kind %v", t.Kind())
	}
	return true
}

func c10same(want, got reflect.Value) (string, *c10iso) {
	s := &c10iso{to: map[c10ptr]c10ptr{}, from: map[c10ptr]c10ptr{}}
	s.eq("value", want, got)
	return s.bad, s
}

// c10rec compares what came back to the script with the Go value.
type c10back struct {
	seen map[c10ptr]*zygo.SexpHash
	bad  string
	lost bool // a time that came back as nil, which is known
	n    int
}

func (s *c10back) fail(path, format string, a ...interface{}) bool {
	if s.bad == "" {
		s.bad = path + ": " + fmt.Sprintf(format, a...)
	}
	return false
}

func (s *c10back) eq(path string, want reflect.Value, got zygo.Sexp) bool {
	t := want.Type()
	mism := func() bool {
		return s.fail(path, "Go has %s, the record has %s", clip(fmt.Sprintf("%#v", want.Interface())), clip(dump(got)))
	}
	s.n++
	switch x := got.(type) {
	case *zygo.SexpReflect:
		// a Go value as such: nothing is lost, but it is no record
		if x.Val.IsValid() && t.Kind() != reflect.Struct && t.Kind() != reflect.Ptr && t.Kind() != reflect.Interface {
			if bad, _ := c10same(want, x.Val); bad == "" {
				return true
			}
		}
		return mism()
	}
	if t == tTime {
		tm, ok := got.(*zygo.SexpTime)
		if !ok {
			if got == zygo.SexpNull && !strings.HasSuffix(path, "]") {
				s.lost = true // a field; known
				return true
			}
			return mism()
		}
		if !tm.Tm.Equal(want.Interface().(time.Time)) {
			return mism()
		}
		return true
	}
	if t == tDur {
		d, ok := got.(*zygo.SexpDur)
		if !ok || int64(d.Dur) != want.Int() {
			return mism()
		}
		return true
	}
	if t == tBytes {
		if want.Len() == 0 && got == zygo.SexpNull {
			return true
		}
		r, ok := got.(*zygo.SexpRaw)
		if !ok || string(r.Val) != string(want.Bytes()) {
			return mism()
		}
		return true
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		switch x := got.(type) {
		case *zygo.SexpInt:
			if x.Val == want.Int() {
				return true
			}
		case *zygo.SexpChar:
			if t.Kind() == reflect.Int32 && int64(x.Val) == want.Int() {
				return true
			}
		}
		return mism()
	case reflect.Uint64, reflect.Uint32, reflect.Uint8:
		switch x := got.(type) {
		case *zygo.SexpInt:
			if x.Val >= 0 && uint64(x.Val) == want.Uint() {
				return true
			}
		case *zygo.SexpUint64:
			if x.Val == want.Uint() {
				return true
			}
		}
		return mism()
	case reflect.Float64, reflect.Float32:
		if x, ok := got.(*zygo.SexpFloat); ok && math.IsNaN(x.Val) && math.IsNaN(want.Float()) {
			return true
		}
		if x, ok := got.(*zygo.SexpFloat); ok && x.Val == want.Float() {
			return true
		}
		return mism()
	case reflect.String:
		if x, ok := got.(*zygo.SexpStr); ok && x.S == want.String() {
			return true
		}
		return mism()
	case reflect.Bool:
		if x, ok := got.(*zygo.SexpBool); ok && x.Val == want.Bool() {
			return true
		}
		return mism()
	case reflect.Interface:
		if want.IsNil() {
			if got == zygo.SexpNull {
				return true
			}
			return mism()
		}
		return s.eq(path, want.Elem(), got)
	case reflect.Ptr:
		if want.IsNil() {
			if got == zygo.SexpNull {
				return true
			}
			return mism()
		}
		h, ok := got.(*zygo.SexpHash)
		if !ok {
			return mism()
		}
		if o, ok := s.seen[c10ptr{want.Pointer(), t}]; ok {
			if o != h {
				return s.fail(path, "one Go object came back as two records")
			}
			return true
		}
		s.seen[c10ptr{want.Pointer(), t}] = h
		return s.eq(path, want.Elem(), got)
	case reflect.Struct:
		h, ok := got.(*zygo.SexpHash)
		if !ok {
			return mism()
		}
		if h.TypeName != c10name[t] {
			return s.fail(path, "a %s came back as a %s", c10name[t], h.TypeName)
		}
		for _, f := range c10fields(t) {
			v, ok := c10get(h, f.keys)
			if !ok {
				return s.fail(path, "the record has no field %v", f.keys)
			}
			if !s.eq(path+"."+f.keys[0], c10fld(want, f.path), v) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && want.IsNil() && got == zygo.SexpNull {
			return true
		}
		a, ok := got.(*zygo.SexpArray)
		if !ok || len(a.Val) != want.Len() {
			return mism()
		}
		for i := range a.Val {
			if !s.eq(fmt.Sprintf("%s[%d]", path, i), want.Index(i), a.Val[i]) {
				return false
			}
		}
		return true
	case reflect.Map:
		if want.IsNil() && got == zygo.SexpNull {
			return true
		}
		h, ok := got.(*zygo.SexpHash)
		if !ok || h.NumKeys != want.Len() {
			return mism()
		}
		for _, k := range want.MapKeys() {
			var v zygo.Sexp
			if k.Kind() == reflect.String {
				v, ok = c10get(h, []string{k.String()})
			} else {
				v, ok = hashLookup(h, &zygo.SexpInt{Val: k.Int()})
			}
			if !ok {
				return s.fail(path, "the record has no entry %v", k)
			}
			if !s.eq(fmt.Sprintf("%s[%v]", path, k), want.MapIndex(k), v) {
				return false
			}
		}
		return true
	}
	return s.fail(path, "kind %v", t.Kind())
}

// c10get finds a field under any of its names, as a symbol or a string.
func c10get(h *zygo.SexpHash, keys []string) (zygo.Sexp, bool) {
	for _, arr := range h.Map {
		for _, p := range arr {
			var n string
			switch k := p.Head.(type) {
			case *zygo.SexpSymbol:
				n = k.Name()
			case *zygo.SexpStr:
				n = k.S
			}
			for _, k := range keys {
				if n == k {
					return p.Tail, true
				}
			}
		}
	}
	return nil, false
}

// c10wrong is a value that the field cannot hold.
func (g *c10gen) wrong(t reflect.Type) string {
	c := g.c
	type cand struct {
		src  string
		kind string
	}
	var rec []cand
	for _, x := range c10types {
		if !strings.HasPrefix(x.name, "nest") {
			rec = append(rec, cand{"(" + x.name + ")", "rec:" + x.name})
		}
	}
	all := append([]cand{
		{"3", "int"}, {"300", "int"}, {"9223372036854775807", "bigint"}, {"9007199254740993", "bigodd"}, {"-1", "neg"}, {"2.5", "frac"}, {"1e300", "huge"}, {`"str"`, "str"}, {"'c'", "char"}, {"true", "bool"},
		{"[1 2]", "ints"}, {`["a" "b"]`, "strs"}, {"[2.5]", "fracs"}, {"[nil]", "nils"}, {"[[1]]", "intss"}, {`[1 "a"]`, "mixed"}, {"(hash a:1)", "hash"}, {`(hash a:"x")`, "hashs"}, {"(hash 1 2.5)", "hashi"}, {"(hash 3 (zsq))", "hashkr"}, {"(hash a:(zsq) 3 (zsq))", "hashkr"}, {"(hash 1 \"x\")", "hashks"}, {"(hash a:\"x\" 'c' \"y\")", "hashks"}, {"(hash a:1 3 2)", "hashkn"}, {"(hash [1 2] 3)", "hashkn"}, {`(hash a:1 b:"x")`, "hashx"}, {"(list 1 2)", "list"},
		{"(fn [x] x)", "fn"}, {"5ULL", "uint"}, {"18446744073709551615ULL", "biguint"}, {"(raw \"ab\")", "raw"}, {"(astm \"2020-01-02T03:04:05Z\")", "time"}, {"(dur \"3h\")", "dur"}, {"[(zsq) 3]", "recmixed"}, {"(& zzv)", "ptr"}, {"(package \"qq\" (def X 1))", "pkg"}, {"int64", "type"}, {"[(weather)]", "weathers"}, {"(regexpCompile \"a\")", "re"},
		{"(hash a:(zsq) b:3)", "hashr"}, {"(hash a:(weather))", "hashw"}, {"(hash a: 1 \"a\" 2)", "hashdup"}, {"[5ULL]", "uints"}, {"(makeChan)", "chan"}, {"[(fn [] 1)]", "fns"}, {"(hash a:5ULL)", "hashu"}, {"(hash a:nil)", "hashnil"}, {"'日'", "char"},
	}, rec...)
	for try := 0; try < 60; try++ {
		x := pick(c.Rng, all)
		if t.Kind() == reflect.Map && try < 25 && !strings.HasPrefix(x.kind, "hash") {
			continue // nearly right
		}
		if c10cannot(t, x.kind) {
			return x.src
		}
	}
	return ""
}

// c10cannot says of kinds of values whether a type certainly cannot hold them.
func c10cannot(t reflect.Type, k string) bool {
	in := func(l ...string) bool {
		for _, s := range l {
			if s == k || strings.HasSuffix(s, "*") && strings.HasPrefix(k, s[:len(s)-1]) {
				return true
			}
		}
		return false
	}
	odd := in("fn", "ptr", "pkg", "type", "re", "list", "chan")
	switch {
	case odd:
		return true
	case t == tTime:
		return !in("time")
	case t == tDur:
		return !in("dur", "int", "neg", "bigodd", "bigint", "uint")
	case t == tBytes:
		return !in("raw", "str", "ints", "uints", "nils")
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int64:
		return !in("int", "bigint", "bigodd", "neg", "char", "dur", "uint")
	case reflect.Int32:
		return !in("int", "char", "uint", "neg")
	case reflect.Int16:
		return !in("int", "char", "uint", "neg")
	case reflect.Int8:
		return in("bigint", "frac", "huge", "str", "bool", "biguint", "raw", "time") || strings.HasPrefix(k, "rec:") || strings.HasPrefix(k, "hash") || in("ints", "strs")
	case reflect.Uint64, reflect.Uint32, reflect.Uint8:
		return in("frac", "huge", "str", "bool", "raw", "time", "ints", "strs", "neg") || strings.HasPrefix(k, "rec:") || strings.HasPrefix(k, "hash")
	case reflect.Array:
		return in("ints", "strs", "int", "fracs", "raw", "str", "mixed", "bool", "time") || strings.HasPrefix(k, "rec:") || strings.HasPrefix(k, "hash")
	case reflect.Float64, reflect.Float32:
		return k == "bigodd" || k == "huge" && t.Kind() == reflect.Float32 || !in("int", "neg", "frac", "huge", "uint", "char", "bigint", "dur", "biguint")
	case reflect.String:
		return in("int", "neg", "bigodd", "bigint", "frac", "huge", "char", "bool", "ints", "strs", "uint", "biguint", "raw", "time", "dur", "fns")
	case reflect.Bool:
		return !in("bool")
	case reflect.Ptr:
		return !in("rec:" + c10name[t.Elem()])
	case reflect.Struct:
		return !in("rec:" + c10name[t])
	case reflect.Interface:
		if t.NumMethod() == 0 {
			return in("fn", "ptr", "pkg", "type", "list", "re", "chan")
		}
		if strings.HasPrefix(k, "rec:") {
			return !reflect.PtrTo(c10typeOf(k[4:])).Implements(t)
		}
		return true
	case reflect.Slice:
		e := t.Elem()
		switch k {
		case "ints":
			return c10cannot(e, "int")
		case "uints":
			return c10cannot(e, "uint")
		case "strs":
			return c10cannot(e, "str")
		case "fracs":
			return c10cannot(e, "frac")
		case "fns":
			return true
		case "intss":
			return c10cannot(e, "ints")
		case "nils":
			return false
		case "mixed":
			return c10cannot(e, "int") || c10cannot(e, "str")
		case "recmixed":
			return c10cannot(e, "rec:zsq") || c10cannot(e, "int")
		case "weathers":
			return c10cannot(e, "rec:weather")
		}
		return true
	case reflect.Map:
		e := t.Elem()
		if t.Key().Kind() != reflect.String {
			switch k {
			case "hashkr", "hashks", "hash", "hashs", "hashx", "hashr", "hashw", "hashdup", "hashu":
				return true
			case "hashi", "hashnil":
				return k == "hashnil"
			case "hashkn":
				return true // one key is no integer
			}
			return true
		}
		switch k {
		case "hash":
			return c10cannot(e, "int")
		case "hashs":
			return c10cannot(e, "str")
		case "hashi", "hashkr", "hashks", "hashkn":
			return true
		case "hashx":
			return c10cannot(e, "int") || c10cannot(e, "str")
		case "hashr":
			return c10cannot(e, "rec:zsq") || c10cannot(e, "int")
		case "hashw":
			return c10cannot(e, "rec:weather")
		case "hashdup":
			return true
		case "hashu":
			return c10cannot(e, "uint")
		case "hashnil":
			return e.Kind() != reflect.Interface
		}
		return true
	}
	return false
}

type c10world struct {
	env *zygo.Zlisp
	g   *c10gen
	out *outCapture
	log []string
}

func (w *c10world) ev(s string) Outcome {
	w.log = append(w.log, s)
	w.out.start()
	o := evalStr(w.env, 200_000, s)
	w.out.stop()
	if o.Kind == "error" {
		w.log = append(w.log, "   error: "+clip(strings.SplitN(strings.TrimSpace(o.Err), "\n", 2)[0]))
		w.env.Clear()
	}
	return o
}

func (w *c10world) fail(c *Ctx, sig, format string, a ...interface{}) {
	var sb strings.Builder
	for i, l := range w.g.lits {
		fmt.Fprintf(&sb, "(lit %d) is %s %s\n", i, dump(l), clip(l.SexpString(nil)))
	}
	c.Violate(sig, "%s\ntexts:\n%s\n%s", fmt.Sprintf(format, a...), strings.Join(w.log, "\n"), sb.String())
}

var c10out *outCapture

func c10newWorld(c *Ctx) *c10world {
	w := &c10world{env: newFull(), out: c10out}
	w.env.ImportDemoData()
	w.g = &c10gen{c: c, limit: 2 + c.intn(7), cyclic: c.chance(1, 3)}
	w.env.AddFunction("lit", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		return w.g.lits[args[0].(*zygo.SexpInt).Val], nil
	})
	for _, x := range c10types {
		if !strings.HasPrefix(x.name, "nest") {
			w.ev("(defmap " + x.name + ")")
		}
	}
	w.ev("(defmap zprobe)")
	w.ev("(def probe (zprobe dummy:3))")
	w.ev("(def zzv (zval))")
	w.log = nil
	return w
}

// goOf is the Go object the library made for a record.
func (w *c10world) goOf(name string) (reflect.Value, bool) {
	o := evalStr(w.env, 10000, name)
	h, ok := o.Val.(*zygo.SexpHash)
	if !ok || h.GoShadowStruct == nil {
		return reflect.Value{}, false
	}
	return reflect.ValueOf(h.GoShadowStruct), true
}

func c10head(s string) string {
	s = mustRe(`\[[^\]]*\]|'[^']*'|[0-9]+`).ReplaceAllString(strings.SplitN(s, " ", 2)[0], "")
	if len(s) > 60 {
		s = s[len(s)-60:]
	}
	return s
}

func c10case(c *Ctx, idx int) {
	w := c10newWorld(c)
	g := w.g
	if idx == 0 {
		c10times(c, w)
		return
	}
	ti := c.intn(len(c10types))
	if c.chance(1, 2) {
		ti = c.intn(4)
	}
	x := c10types[ti]
	root := g.obj(reflect.TypeOf(x.v), 4)
	for _, t := range g.texts() {
		if o := w.ev(t); !o.ok() {
			w.fail(c, "build:"+x.name, "a record could not be built: %s", o)
			return
		}
	}
	c.Count("objects", int64(len(g.objs)))
	c.Sample(strings.Join(w.log, "\n"))
	defer func() { c.Nontrivial(strings.Join(w.log, "\n")) }()
	mode := c.intn(12)
	if mode == 10 {
		c10gives(c, w, root)
		return
	}
	if mode == 11 {
		c10others(c, w, root, x.name)
		return
	}
	if mode == 9 && c.chance(1, 2) {
		c10near(c, w, root, x.name)
		return
	}
	if mode >= 8 {
		c10errors(c, w, root, x.name, x.echo)
		return
	}
	if !c10explicit(c, w, root, x.name) {
		return
	}
	if mode >= 3 {
		if !c10method(c, w, root, x.name, x.echo) {
			return
		}
	}
	if mode >= 6 {
		c10update(c, w, root, x.name, x.echo)
	}
}

// c10near: a number of another type in a field for numbers is either refused
// or arrives with its value.
func c10near(c *Ctx, w *c10world, root *c10obj, tn string) {
	reach := map[uintptr]bool{}
	c10reach(root.ptr, reach)
	var slots []c10slot
	for _, s := range w.g.slots {
		switch s.f.typ.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
			if reach[s.obj.ptr.Pointer()] && !w.copied(s.obj) {
				slots = append(slots, s)
			}
		}
	}
	if len(slots) == 0 {
		return
	}
	s := pick(c.Rng, slots)
	n := int64(1 + c.intn(120))
	src := pick(c.Rng, []string{fmt.Sprintf("%d.0", n), fmt.Sprintf("%de0", n), fmt.Sprintf("%dULL", n), fmt.Sprintf("0x%x", n), w.g.lit(&zygo.SexpChar{Val: rune(n)})})
	if out := w.ev(fmt.Sprintf("(hset %s %s %s)", s.obj.name, c10spaced(s.key + " ")[:len(s.key)], src)); !out.ok() {
		return
	}
	out := w.ev("(togo " + root.name + ")")
	c.Eval()
	if out.Kind == "error" {
		c.Count("near_numbers_refused", 1)
		return
	}
	v := c10fld(s.obj.ptr.Elem(), s.f.path)
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(n))
	case reflect.Uint8, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(n))
	default:
		v.SetInt(n)
	}
	c.Count("near_numbers_taken", 1)
	c10explicit(c, w, root, tn)
}

// c10times: a time that a struct of Go holds is there in the record.
func c10times(c *Ctx, w *c10world) {
	tm := time.Date(2020, 2, 29, 23, 59, 59, 999999999, time.UTC)
	w.ev("(def r0 (weather time: " + w.g.lit(&zygo.SexpTime{Tm: tm}) + "))")
	out := w.ev("(def back (_method probe EchoWeather: r0))")
	c.Eval()
	if a, ok := out.Val.(*zygo.SexpArray); ok && len(a.Val) == 1 {
		if h, ok := a.Val[0].(*zygo.SexpHash); ok {
			v, ok := c10get(h, []string{"time"})
			if t, is := v.(*zygo.SexpTime); ok && is && t.Tm.Equal(tm) {
				return
			}
			w.fail(c, "time-field-lost", "the time field of a struct that came back from Go is %s", dump(v))
			return
		}
	}
	w.fail(c, "time-call", "a record with a time could not be passed: %s", out)
}

// c10gives: values made on the Go side, with contents that no record can give
// them, come back whole.
func c10gives(c *Ctx, w *c10world, root *c10obj) {
	any := func(d int) interface{} {
		switch c.intn(12) {
		case 0:
			return int64(c.intn(1000))
		case 1:
			return w.g.str()
		case 2:
			return math.NaN()
		case 3:
			return true
		case 4:
			return w.g.time()
		case 5:
			return []byte(w.g.str())
		case 6:
			return []string{"a", w.g.str()}
		case 7:
			return map[string]int{"a": c.intn(9), "b": -1}
		case 8:
			return []interface{}{1, "x", nil, root.ptr.Interface()}
		case 9:
			return (*ZSq)(nil)
		case 10:
			return time.Duration(c.intn(100000))
		}
		return float32(2.5)
	}
	for _, o := range w.g.objs {
		if n, ok := o.ptr.Interface().(*ZNode); ok {
			if c.chance(1, 2) {
				n.Any = any(1)
			}
			if c.chance(1, 2) {
				n.Anys = append(append([]interface{}(nil), n.Anys...), any(1), nil, any(1))
			}
			if c.chance(1, 2) {
				n.MAny = map[string]interface{}{"k": any(1), "l": any(1)}
			}
			if c.chance(1, 4) {
				n.Kids = append(append([]*ZNode(nil), n.Kids...), nil, n)
				n.Shs = append(append([]ZShape(nil), n.Shs...), nil)
				n.F64 = math.NaN()
				n.Whens = append(append([]time.Time(nil), n.Whens...), time.Time{})
			}
		}
	}
	c10give = root.ptr.Interface()
	want := reflect.ValueOf(c10give)
	var out Outcome
	var got zygo.Sexp
	switch _, isNode := c10give.(*ZNode); {
	case isNode && c.chance(1, 4):
		out = w.ev("(def given (fromgo (aget (_method probe GiveSlice:) 0)))")
		c.Eval()
		a, ok := out.Val.(*zygo.SexpArray)
		if !ok || len(a.Val) != 2 || a.Val[0] != a.Val[1] {
			w.fail(c, "give-slice", "a slice that holds a struct twice came back as %s", clip(out.String()))
			return
		}
		got = a.Val[0]
	case c.chance(1, 8):
		out = w.ev("(_method probe GiveNone:)")
		c.Eval()
		a, ok := out.Val.(*zygo.SexpArray)
		if !ok || len(a.Val) != 4 {
			w.fail(c, "give-none", "nil results: %s", out)
			return
		}
		for _, x := range a.Val {
			if x != zygo.SexpNull {
				w.fail(c, "give-none", "a nil result came back as %s", dump(x))
				return
			}
		}
		return
	default:
		out = w.ev("(def given (_method probe Give:))")
		c.Eval()
		a, ok := out.Val.(*zygo.SexpArray)
		if !ok || len(a.Val) != 1 {
			w.fail(c, "give", "a struct could not be returned: %s", clip(out.String()))
			return
		}
		got = a.Val[0]
	}
	s := &c10back{seen: map[c10ptr]*zygo.SexpHash{}}
	s.eq("given", want, got)
	if s.bad != "" {
		w.fail(c, "give-differs:"+c10head(s.bad), "the record is not what Go returned: %s", s.bad)
		return
	}
	c.Count("given", 1)
	c.Count("fields_compared_back", int64(s.n))
}

// c10others: a record of another type than the one the method takes, or than
// the struct it is a field of, is refused.
func c10others(c *Ctx, w *c10world, root *c10obj, tn string) {
	takes := map[string]string{"EchoNode": "znode", "EchoVal": "zval", "EchoValP": "zval", "EchoSnoopy": "snoopy", "EchoEvent": "eventdemo", "EchoWeather": "weather", "EchoPlanes": "setOfPlanes", "EchoOuter": "nestouter"}
	var names []string
	for n := range takes {
		names = append(names, n)
	}
	sort.Strings(names)
	m := pick(c.Rng, names)
	if takes[m] == tn || takes[m] == "nestouter" && tn == "NestOuter" {
		return
	}
	c10took = nil
	arg := root.name
	if c.chance(1, 3) {
		arg = pick(c.Rng, []string{"3", `"s"`, "[1]", "true", "2.5", "(fn [x] x)", "(hash)", "(hash a: 1)", "'c'", "(list 1)", "(zprobe)", `(raw "x")`, "5ULL"})
	}
	out := w.ev(fmt.Sprintf("(_method probe %s: %s)", m, arg))
	c.Eval()
	if out.ok() || c10took != nil {
		w.fail(c, "other:"+m+":"+tn, "a method that takes a %s was called with something else", takes[m])
		return
	}
	c.Count("others_refused", 1)
	c10explicit(c, w, root, tn)
}

// c10explicit: (togo r) makes the object that was meant.
func c10explicit(c *Ctx, w *c10world, o *c10obj, tn string) bool {
	out := w.ev("(togo " + o.name + ")")
	c.Eval()
	if !out.ok() {
		w.fail(c, "togo-refused:"+tn, "a record that fits its struct was not converted: %s", out)
		return false
	}
	got, ok := w.goOf(o.name)
	if !ok {
		w.fail(c, "togo-nothing:"+tn, "no Go object was made")
		return false
	}
	bad, s := c10same(o.ptr, got)
	if bad != "" {
		w.fail(c, "togo-differs:"+c10head(bad), "the Go object is not what the record says: %s", bad)
		return false
	}
	c.Count("conversions", 1)
	c.Count("nodes_compared", int64(s.nodes))
	c.Count("shared_references", int64(s.shared))
	return true
}

// c10method: the record reaches a Go method whole and comes back whole.
func c10method(c *Ctx, w *c10world, o *c10obj, tn, echo string) bool {
	c10took = nil
	want := []reflect.Value{o.ptr}
	call := fmt.Sprintf("(_method probe %s: %s)", echo, o.name)
	ret := []int{0}
	pickObj := func(v interface{}) *c10obj {
		for _, p := range w.g.objs {
			if p.ptr.Type() == reflect.TypeOf(v) {
				return p
			}
		}
		return nil
	}
	switch c.intn(7) {
	case 0:
		call = fmt.Sprintf("(_method probe \"EchoAny\" %s)", o.name)
	case 1:
		if p := pickObj(&ZVal{}); p != nil {
			call = fmt.Sprintf("(_method probe EchoVal: %s)", p.name)
			want = []reflect.Value{p.ptr.Elem()}
		}
	case 2:
		n, q := pickObj(&ZNode{}), pickObj(&ZSq{})
		if n != nil && q != nil {
			s := w.g.str()
			k := pick(c.Rng, c10ints)
			call = fmt.Sprintf("(_method probe EchoTwo: %s %d %s %s)", n.name, k, q.name, w.g.lit(&zygo.SexpStr{S: s}))
			want = []reflect.Value{n.ptr, reflect.ValueOf(k), q.ptr, reflect.ValueOf(s)}
			ret = []int{2}
		}
	case 3:
		n, q := pickObj(&ZNode{}), pickObj(&ZCirc{})
		if n != nil && q != nil {
			call = fmt.Sprintf("(_method probe EchoBoth: %s %s)", n.name, q.name)
			want = []reflect.Value{n.ptr, q.ptr}
			ret = []int{1, 0}
		}
	case 4:
		if ti := tn; ti == "znode" || ti == "zval" || ti == "zsq" || ti == "zcirc" {
			call = fmt.Sprintf("(_method %s Self:)", o.name)
		}
	}
	out := w.ev("(def back " + call + ")")
	c.Eval()
	if !out.ok() {
		w.fail(c, "method-refused:"+strings.Fields(call)[2], "a record that fits was not passed to the method: %s", out)
		return false
	}
	if len(c10took) != len(want) {
		w.fail(c, "method-not-called", "the method took %d arguments", len(c10took))
		return false
	}
	for i := range want {
		bad, s := c10same(want[i], reflect.ValueOf(c10took[i]))
		if bad != "" {
			w.fail(c, "method-differs:"+c10head(bad), "the Go method was not given what the record says: %s", bad)
			return false
		}
		c.Count("nodes_compared", int64(s.nodes))
	}
	arr, ok := out.Val.(*zygo.SexpArray)
	if !ok || len(arr.Val) != len(ret) {
		w.fail(c, "method-result", "the method's results came back as %s", dump(out.Val))
		return false
	}
	for i, k := range ret {
		s := &c10back{seen: map[c10ptr]*zygo.SexpHash{}}
		s.eq("result", want[k], arr.Val[i])
		if s.bad != "" {
			w.fail(c, "back-differs:"+c10head(s.bad), "the record that came back is not what was passed: %s", s.bad)
			return false
		}
		if s.lost {
			c.Count("times_lost", 1)
		}
		c.Count("fields_compared_back", int64(s.n))
	}
	c.Count("method_calls", 1)
	if want[ret[0]].Kind() != reflect.Ptr {
		return true
	}
	// the record that came back converts to the same object again
	c10took = nil
	out = w.ev("(def b0 (aget back 0))")
	out = w.ev("(def back2 (_method probe EchoAny: b0))")
	c.Eval()
	if !out.ok() || len(c10took) != 1 {
		w.fail(c, "again-refused", "a record that came back from Go could not be passed again: %s", out)
		return false
	}
	if !c10lostTime(want[ret[0]], map[uintptr]bool{}) {
		bad, _ := c10same(want[ret[0]], reflect.ValueOf(c10took[0]))
		if bad != "" {
			w.fail(c, "again-differs:"+c10head(bad), "after the round trip the record means something else: %s", bad)
			return false
		}
	}
	c.Count("second_trips", 1)
	// a method on it runs
	if c.chance(1, 2) {
		switch want[ret[0]].Interface().(type) {
		case *ZNode, *ZVal, *ZSq, *ZCirc:
			c10took = nil
			out = w.ev("(_method b0 Self:)")
			c.Eval()
			if !out.ok() || len(c10took) != 1 {
				w.fail(c, "again-method", "a method of a record that came back from Go could not be called: %s", out)
				return false
			}
		}
	}
	return true
}

// c10lostTime: the object holds a time other than the zero one.
func c10lostTime(v reflect.Value, seen map[uintptr]bool) bool {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return false
		}
		seen[v.Pointer()] = true
		return c10lostTime(v.Elem(), seen)
	case reflect.Interface:
		return !v.IsNil() && c10lostTime(v.Elem(), seen)
	case reflect.Struct:
		if v.Type() == tTime {
			return !v.Interface().(time.Time).IsZero()
		}
		for i := 0; i < v.NumField(); i++ {
			if c10lostTime(c10fld(v, []int{i}), seen) {
				return true
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if c10lostTime(v.Index(i), seen) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if c10lostTime(v.MapIndex(k), seen) {
				return true
			}
		}
	}
	return false
}

// c10update: after a change of the record the conversion shows the change.
func c10update(c *Ctx, w *c10world, o *c10obj, tn, echo string) {
	fs := c10fields(o.ptr.Type().Elem())
	for n := 1 + c.intn(3); n > 0; n-- {
		f := pick(c.Rng, fs)
		v, src, ok := w.g.val(f.typ, 1, o)
		if !ok || len(c10word.FindAllString(src, -1)) > 0 {
			continue
		}
		key := ""
		for _, s := range w.g.slots {
			if s.obj == o && reflect.DeepEqual(s.f.path, f.path) {
				key = s.key
			}
		}
		if key == "" {
			key = f.keys[0] + ":"
			w.g.slots = append(w.g.slots, c10slot{obj: o, key: key, f: f})
		}
		if out := w.ev(fmt.Sprintf("(hset %s %s %s)", o.name, key, src)); !out.ok() {
			w.fail(c, "hset", "hset failed: %s", out)
			return
		}
		c10fld(o.ptr.Elem(), f.path).Set(v)
		// copies of o inside others are no longer equal to it: only o is looked at
	}
	for _, p := range w.g.objs {
		if p != o && c10copies(p.ptr.Type().Elem(), o.ptr.Type().Elem(), 0) {
			return
		}
	}
	if c10copies(o.ptr.Type().Elem(), o.ptr.Type().Elem(), 0) {
		return
	}
	if c10explicit(c, w, o, tn) {
		c.Count("updates", 1)
	}
}

// c10copies: a t may hold a u by value.
func c10copies(t, u reflect.Type, d int) bool {
	if d > 3 {
		return false
	}
	switch t.Kind() {
	case reflect.Struct:
		if d > 0 && t == u {
			return true
		}
		for i := 0; i < t.NumField(); i++ {
			if c10copies(t.Field(i).Type, u, d+1) {
				return true
			}
		}
	case reflect.Slice:
		return c10copies(t.Elem(), u, d+1)
	}
	return false
}

// c10errors: what does not fit is reported, wherever it is, and once put right
// the record converts.
func c10errors(c *Ctx, w *c10world, root *c10obj, tn, echo string) {
	// objects reachable from the root
	reach := map[uintptr]bool{}
	c10reach(root.ptr, reach)
	var slots []c10slot
	for _, s := range w.g.slots {
		if reach[s.obj.ptr.Pointer()] && !w.copied(s.obj) {
			slots = append(slots, s)
		}
	}
	var undo, what string
	if len(slots) == 0 || c.chance(1, 4) {
		o := root
		key := pick(c.Rng, []string{"nosuch:", "Nosuch:", "zmid:", "Plan:", "\"nosuch\"", "3", "baseid:", "i65:", "'c'", "[1]", "\"\""})
		val := pick(c.Rng, []string{"1", "nil", `"x"`, "[1 2]", "(zsq)", "0", "false"})
		what = fmt.Sprintf("(hset %s %s %s)", o.name, key, val)
		undo = fmt.Sprintf("(hdel %s %s)", o.name, key)
		c.Count("unknown_fields", 1)
	} else {
		s := pick(c.Rng, slots)
		if c.chance(1, 12) {
			// the same field under two names
			alt := ""
			for _, k := range s.f.keys {
				if k+":" != s.key && strconv.Quote(k) != s.key {
					alt = k + ":"
				}
			}
			if alt == "" && strings.HasSuffix(s.key, ":") {
				alt = strconv.Quote(s.f.keys[0])
			} else if alt == "" {
				alt = s.f.keys[0] + ":"
			}
			w.g.plain = true
			_, src, ok := w.g.val(s.f.typ, 1, s.obj)
			if !ok || len(c10word.FindAllString(src, -1)) > 0 {
				return
			}
			what = fmt.Sprintf("(hset %s %s %s)", s.obj.name, alt, src)
			undo = fmt.Sprintf("(hdel %s %s)", s.obj.name, alt)
			c.Count("fields_named_twice", 1)
		} else {
			bad := w.g.wrong(s.f.typ)
			if bad == "" {
				return
			}
			what = fmt.Sprintf("(hset %s %s %s)", s.obj.name, c10spaced(s.key + " ")[:len(s.key)], bad)
			undo = fmt.Sprintf("(hset %s %s)", s.obj.name, c10spaced(s.obj.set[s.pos]))
			c.Count("wrong_kinds", 1)
		}
	}
	if out := w.ev(what); !out.ok() {
		return // refused already
	}
	conv := "(togo " + root.name + ")"
	if c.chance(1, 2) {
		conv = fmt.Sprintf("(_method probe %s: %s)", echo, root.name)
	}
	c10took = nil
	out := w.ev(conv)
	c.Eval()
	if out.ok() {
		w.fail(c, "silent:"+c10silentSig(what, w), "a field that the struct does not have, or a value it cannot hold, was not reported")
		return
	}
	if out.Kind != "error" {
		w.fail(c, "error-"+out.Kind, "a bad record gave no error: %s", out)
		return
	}
	if c10took != nil {
		w.fail(c, "called-anyway", "the method was called all the same")
		return
	}
	c.Count("errors_reported", 1)
	if out := w.ev(undo); !out.ok() {
		return
	}
	if c.chance(1, 2) {
		c10method(c, w, root, tn, echo)
	} else {
		c10explicit(c, w, root, tn)
	}
}

func c10silentSig(what string, w *c10world) string {
	f := strings.Fields(what)
	if len(f) < 4 {
		return what
	}
	s := strings.Join(f[2:], "-")
	if len(s) > 50 {
		s = s[:50]
	}
	return s
}

// copied: the record's content may also have been copied into another.
func (w *c10world) copied(o *c10obj) bool {
	for _, p := range w.g.objs {
		if c10copies(p.ptr.Type().Elem(), o.ptr.Type().Elem(), 0) {
			for _, s := range p.set {
				for _, n := range c10word.FindAllString(s, -1) {
					if n == o.name {
						return true
					}
				}
			}
		}
	}
	return false
}

func c10reach(v reflect.Value, m map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || m[v.Pointer()] {
			return
		}
		m[v.Pointer()] = true
		c10reach(v.Elem(), m)
	case reflect.Interface:
		if !v.IsNil() {
			c10reach(v.Elem(), m)
		}
	case reflect.Struct:
		if v.Type() == tTime {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			c10reach(v.Field(i), m)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c10reach(v.Index(i), m)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			c10reach(v.MapIndex(k), m)
		}
	}
}

func init() {
	register(&Prop{
		ID:    "C10",
		Rule:  "graphs of Go objects are generated from the demo structs and from harness structs with every supported kind of field (embedded two deep, pointers, slices, maps, byte slices, times, interfaces, by-value structs), shared and circular references included; scripts build the records in several ways; (togo r), Go methods that take and return them, second trips, updates, and records spoilt with one wrong value, unknown or doubled field; oracle: graph isomorphism of the Go object with the generated one, field-wise equality of the record that comes back, an error for every spoilt record and correct conversion once it is put right",
		Level: "bounded",
		Assumptions: []string{
			"int32 and rune are one type in Go: either an int or a char of the same value may come back",
			"nil for a field that is no pointer, slice, map or interface, symbols for strings, and records for string fields are not judged",
		},
		Init: func(c *Ctx) {
			dir, err := os.MkdirTemp("", "c10")
			if err != nil {
				panic(err)
			}
			c10out = newOutCapture(dir + "/out")
			zygo.RegisterDemoStructs()
			for _, x := range c10types {
				t := reflect.TypeOf(x.v)
				c10name[t] = x.name
				if strings.HasPrefix(x.name, "z") {
					zygo.GoStructRegistry.RegisterUserdef(&zygo.RegisteredType{GenDefMap: true, Factory: func(env *zygo.Zlisp, h *zygo.SexpHash) (interface{}, error) {
						return reflect.New(t).Interface(), nil
					}}, true, x.name)
				}
			}
			zygo.GoStructRegistry.RegisterUserdef(&zygo.RegisteredType{GenDefMap: true, Factory: func(env *zygo.Zlisp, h *zygo.SexpHash) (interface{}, error) {
				return &ZProbe{}, nil
			}}, true, "zprobe")
		},
		N:           func(t string) int { return tierN(t, 40000, 1500000) },
		Run:         c10case,
		MinDistinct: func(t string) int { return 20000 },
	})
}
