package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// dump renders a value canonically and with its types, independent of the
// library's own printer and equality. Cycle- and depth-safe.
func dump(x zygo.Sexp) string {
	var sb strings.Builder
	d := dumper{sb: &sb, on: map[interface{}]bool{}}
	d.dump(x, 0)
	return sb.String()
}

type dumper struct {
	sb *strings.Builder
	on map[interface{}]bool
}

const maxDump = 1 << 20

func (d *dumper) dump(x zygo.Sexp, depth int) {
	sb := d.sb
	if sb.Len() > maxDump {
		return
	}
	if depth > 2000 {
		sb.WriteString("<deep>")
		return
	}
	if x == nil {
		sb.WriteString("<gonil>")
		return
	}
	switch t := x.(type) {
	case *zygo.SexpSentinel:
		switch t {
		case zygo.SexpNull:
			sb.WriteString("nil")
		case zygo.SexpEnd:
			sb.WriteString("<end>")
		case zygo.SexpMarker:
			sb.WriteString("<marker>")
		default:
			sb.WriteString("<sentinel>")
		}
	case *zygo.SexpInt:
		sb.WriteString(strconv.FormatInt(t.Val, 10))
	case *zygo.SexpUint64:
		sb.WriteString("u" + strconv.FormatUint(t.Val, 10))
	case *zygo.SexpFloat:
		sb.WriteString("f" + fkey(t.Val))
	case *zygo.SexpBool:
		sb.WriteString(strconv.FormatBool(t.Val))
	case *zygo.SexpChar:
		sb.WriteString("c" + strconv.Itoa(int(t.Val)))
	case *zygo.SexpStr:
		sb.WriteString(strconv.QuoteToASCII(t.S))
		if strings.ToValidUTF8(t.S, "") != t.S {
			fmt.Fprintf(sb, "<%x>", t.S)
		}
	case *zygo.SexpSymbol:
		sb.WriteString("'" + strconv.Quote(t.Name()))
	case *zygo.SexpRaw:
		fmt.Fprintf(sb, "raw<%x>", t.Val)
	case *zygo.SexpPair:
		if d.on[x] {
			sb.WriteString("<cycle>")
			return
		}
		d.on[x] = true
		seen := []*zygo.SexpPair{t}
		sb.WriteString("(")
		d.dump(t.Head, depth+1)
		cur := t
		for {
			nx, ok := cur.Tail.(*zygo.SexpPair)
			if !ok {
				break
			}
			if d.on[zygo.Sexp(nx)] {
				sb.WriteString(" <cycle>")
				break
			}
			d.on[zygo.Sexp(nx)] = true
			seen = append(seen, nx)
			cur = nx
			sb.WriteString(" ")
			d.dump(cur.Head, depth+1)
			if sb.Len() > maxDump {
				break
			}
		}
		if _, ok := cur.Tail.(*zygo.SexpPair); !ok && cur.Tail != zygo.SexpNull {
			sb.WriteString(" . ")
			d.dump(cur.Tail, depth+1)
		}
		sb.WriteString(")")
		for _, p := range seen {
			delete(d.on, zygo.Sexp(p))
		}
	case *zygo.SexpArray:
		if d.on[x] {
			sb.WriteString("<cycle>")
			return
		}
		d.on[x] = true
		o, c := "[", "]"
		if t.Infix {
			o, c = "{", "}"
		}
		sb.WriteString(o)
		for i, e := range t.Val {
			if i > 0 {
				sb.WriteString(" ")
			}
			d.dump(e, depth+1)
			if sb.Len() > maxDump {
				break
			}
		}
		sb.WriteString(c)
		delete(d.on, x)
	case *zygo.SexpHash:
		if d.on[x] {
			sb.WriteString("<cycle>")
			return
		}
		d.on[x] = true
		sb.WriteString("(" + t.TypeName)
		for _, k := range t.KeyOrder {
			v, ok := hashLookup(t, k)
			if !ok {
				continue
			}
			sb.WriteString(" ")
			d.dump(k, depth+1)
			sb.WriteString(":")
			d.dump(v, depth+1)
			if sb.Len() > maxDump {
				break
			}
		}
		sb.WriteString(")")
		delete(d.on, x)
	case *zygo.SexpFunction:
		sb.WriteString("<fn>")
	case *zygo.SexpLazyArg:
		sb.WriteString("<lazy>")
	case *zygo.SexpError:
		sb.WriteString("<err " + strconv.Quote(t.Error()) + ">")
	case *zygo.SexpSemicolon:
		sb.WriteString("<;>")
	case *zygo.SexpComma:
		sb.WriteString("<,>")
	case *zygo.SexpComment:
		sb.WriteString("<comment>")
	case *zygo.RegisteredType:
		sb.WriteString("<type " + t.RegisteredName + ">")
	case *zygo.SexpArraySelector:
		sb.WriteString("<asel ")
		d.dump(t.Container, depth+1)
		sb.WriteString(" ")
		d.dump(t.Select, depth+1)
		sb.WriteString(">")
	case *zygo.SexpHashSelector:
		sb.WriteString("<hsel ")
		d.dump(t.Container, depth+1)
		sb.WriteString(" ")
		d.dump(t.Select, depth+1)
		sb.WriteString(">")
	default:
		fmt.Fprintf(sb, "<%T>", x)
	}
}

func fkey(f float64) string {
	if f != f {
		return "NaN"
	}
	if f == 0 && math.Signbit(f) {
		return "-0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// hashLookup finds the live entry of a key by scanning the buckets, without
// using the library's own lookup.
func hashLookup(h *zygo.SexpHash, k zygo.Sexp) (zygo.Sexp, bool) {
	for _, b := range h.Map {
		for _, p := range b {
			if p == nil {
				continue
			}
			if sameKey(p.Head, k) {
				return p.Tail, true
			}
		}
	}
	return nil, false
}

func sameKey(a, b zygo.Sexp) bool {
	switch x := a.(type) {
	case *zygo.SexpInt:
		y, ok := b.(*zygo.SexpInt)
		return ok && x.Val == y.Val
	case *zygo.SexpChar:
		y, ok := b.(*zygo.SexpChar)
		return ok && x.Val == y.Val
	case *zygo.SexpStr:
		y, ok := b.(*zygo.SexpStr)
		return ok && x.S == y.S
	case *zygo.SexpSymbol:
		y, ok := b.(*zygo.SexpSymbol)
		return ok && x.Name() == y.Name()
	case *zygo.SexpUint64:
		y, ok := b.(*zygo.SexpUint64)
		return ok && x.Val == y.Val
	case *zygo.SexpArray:
		y, ok := b.(*zygo.SexpArray)
		if !ok || len(x.Val) != len(y.Val) {
			return false
		}
		for i := range x.Val {
			if !sameKey(x.Val[i], y.Val[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}
