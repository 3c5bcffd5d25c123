package main

// C19: random histories of symbol creation over a family of interpreters made
// by Clone and Duplicate; an online monitor keeps name<->number and checks
// every symbol the library hands out, and generated ones for freshness.

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"

	"github.com/glycerine/zygomys/v9/zygo"
)

var c19base map[string]bool // names a fresh interpreter already holds

func c19Names(env *zygo.Zlisp) map[string]bool {
	r, w, err := os.Pipe()
	if err != nil {
		return nil
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() {
		var sb strings.Builder
		buf := make([]byte, 1<<16)
		for {
			n, err := r.Read(buf)
			sb.Write(buf[:n])
			if err != nil {
				break
			}
		}
		done <- sb.String()
	}()
	env.DumpSymTable()
	os.Stdout = old
	w.Close()
	out := <-done
	r.Close()
	m := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		const p = "symtable entry: kk: '"
		if i := strings.Index(l, p); i >= 0 {
			l = l[i+len(p):]
			if j := strings.LastIndex(l, "' -> "); j >= 0 {
				m[l[:j]] = true
			}
		}
	}
	return m
}

func c19Init(c *Ctx) {
	c19base = c19Names(zygo.NewZlisp())
	c.Max("names_in_a_fresh_interpreter", int64(len(c19base)))
}

var c19pool = []string{"a", "b", "x", "foo", "Foo", "été", "日", "x!", "+", "==", "println", "map", "def", "q1", "q2", "__gensym", "__gensym1", "func", "func1", "zz", "k", "name", "hash", "int64", "#lz", "?opt", "str", "A", "AA", "aA", "symtab", "s0", "s1", "s10", "s100"}

func c19Run(c *Ctx, idx int) {
	r := c.Rng
	root := zygo.NewZlisp()
	defang(root)
	envs := []*zygo.Zlisp{root}
	num := map[string]int{}
	name := map[int]string{}
	known := map[string]bool{}
	for n := range c19base {
		known[n] = true
	}
	holder := map[string]*zygo.SexpSymbol{}
	var hist []string
	fail := func(sig, format string, a ...interface{}) {
		h := hist
		if len(h) > 60 {
			h = append([]string{"..."}, h[len(h)-60:]...)
		}
		c.Violate(sig, "%s\nhistory:\n  %s", fmt.Sprintf(format, a...), strings.Join(h, "\n  "))
	}
	bad := false
	// every symbol handed out passes through here
	saw := func(s *zygo.SexpSymbol, want string, how string) {
		c.Eval()
		if s == nil {
			fail("nil", "%s gave no symbol", how)
			bad = true
			return
		}
		if want != "" && s.Name() != want {
			fail("name", "%s: asked for %q, got %q", how, want, s.Name())
			bad = true
		}
		if n, ok := num[s.Name()]; ok && n != s.Number() {
			fail("two-numbers", "%s: %q was symbol %d and is now %d", how, s.Name(), n, s.Number())
			bad = true
		}
		if n, ok := name[s.Number()]; ok && n != s.Name() {
			fail("two-names", "%s: symbol %d was %q and is now %q", how, s.Number(), n, s.Name())
			bad = true
		}
		num[s.Name()] = s.Number()
		name[s.Number()] = s.Name()
		known[s.Name()] = true
		holder[s.Name()] = s
	}
	fresh := func(s *zygo.SexpSymbol, how string) {
		if s == nil {
			return
		}
		if known[s.Name()] {
			fail("gensym-stale", "%s returned %q, a name that already existed", how, s.Name())
			bad = true
		}
		if n, ok := name[s.Number()]; ok {
			fail("gensym-number", "%s returned number %d, already %q", how, s.Number(), n)
			bad = true
		}
		c.Count("generated_symbols", 1)
	}
	note := func(names ...string) {
		for _, n := range names {
			known[n] = true
		}
	}
	symOf := func(o Outcome) *zygo.SexpSymbol {
		s, _ := o.Val.(*zygo.SexpSymbol)
		return s
	}
	prefixes := []string{"__gensym", "p", "func", "__anon", "s", "s1", "a", "", "q"}
	quotable := func(n string) bool {
		// a name the reader reads as one symbol token
		for i, r := range n {
			if r != '_' && !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
				return n == "+" || n == "=="
			}
		}
		return n != "" && n != "def"
	}
	steps := 10 + r.Intn(60)
	kinds := 0
	for i := 0; i < steps && !bad; i++ {
		ei := r.Intn(len(envs))
		env := envs[ei]
		tag := fmt.Sprintf("env%d", ei)
		nm := pick(r, c19pool)
		if c.chance(1, 3) {
			nm = pick(r, prefixes) + strconv.Itoa(r.Intn(200))
		} else if c.chance(1, 6) {
			nm = "u" + strconv.Itoa(r.Intn(100000))
		}
		op := r.Intn(16)
		switch op {
		case 0:
			if len(envs) < 10 {
				hist = append(hist, tag+" Duplicate -> env"+strconv.Itoa(len(envs)))
				envs = append(envs, env.Duplicate())
				kinds |= 1
			}
		case 1:
			if len(envs) < 10 {
				hist = append(hist, tag+" Clone -> env"+strconv.Itoa(len(envs)))
				envs = append(envs, env.Clone())
				kinds |= 2
			}
		case 2, 3:
			hist = append(hist, tag+" MakeSymbol "+nm)
			saw(env.MakeSymbol(nm), nm, hist[len(hist)-1])
		case 4, 5:
			p := pick(r, prefixes)
			hist = append(hist, tag+" GenSymbol "+strconv.Quote(p))
			s := env.GenSymbol(p)
			fresh(s, hist[len(hist)-1])
			saw(s, "", hist[len(hist)-1])
		case 6:
			if !quotable(nm) {
				continue
			}
			hist = append(hist, tag+" read (quote "+nm+")")
			o := evalStr(env, 10000, "(quote "+nm+")")
			if !o.ok() {
				fail("read", "%s failed: %s", hist[len(hist)-1], o.String())
				return
			}
			saw(symOf(o), nm, hist[len(hist)-1])
		case 7:
			hist = append(hist, tag+" (str2sym "+nm+")")
			o := evalStr(env, 10000, "(str2sym "+strconv.Quote(nm)+")")
			saw(symOf(o), nm, hist[len(hist)-1])
		case 8, 9:
			p := pick(r, prefixes)
			src := "(gensym " + strconv.Quote(p) + ")"
			if c.chance(1, 3) {
				src = "(gensym)"
			}
			hist = append(hist, tag+" "+src)
			o := evalStr(env, 10000, src)
			s := symOf(o)
			fresh(s, hist[len(hist)-1])
			saw(s, "", hist[len(hist)-1])
		case 10: // generated while a macro expands (runs in a duplicate)
			p := pick(r, prefixes)
			note("gm19", "p19", "s19", "defmac", "let", "gensym", "quote", "syntaxQuote", "unquote")
			src := "(defmac gm19 [p19] (let [s19 (gensym p19)] ^(quote ~s19))) (gm19 " + strconv.Quote(p) + ")"
			hist = append(hist, tag+" "+src)
			o := evalStr(env, 50000, src)
			if !o.ok() {
				fail("macro", "%s failed: %s", src, o.String())
				return
			}
			s := symOf(o)
			fresh(s, hist[len(hist)-1])
			saw(s, "", hist[len(hist)-1])
			kinds |= 4
		case 11: // guess the next generated names, then generate
			p := pick(r, prefixes)
			probe := env.MakeSymbol(fmt.Sprintf("probe%d_%d", i, ei))
			saw(probe, "", "probe")
			other := pick(r, envs)
			k := 1 + r.Intn(6)
			hist = append(hist, fmt.Sprintf("%s intern %s%d..+%d by a sibling, then gensym", tag, p, probe.Number(), k))
			for j := -1; j < k; j++ {
				n := p + strconv.Itoa(probe.Number()+j)
				saw(other.MakeSymbol(n), n, hist[len(hist)-1])
			}
			s := env.GenSymbol(p)
			fresh(s, hist[len(hist)-1])
			saw(s, "", hist[len(hist)-1])
			kinds |= 8
		case 12: // library equality and order of two symbols
			var a, b *zygo.SexpSymbol
			x, y := pick(r, c19pool), pick(r, c19pool)
			if c.chance(1, 3) {
				y = x
			}
			a, b = pick(r, envs).MakeSymbol(x), pick(r, envs).MakeSymbol(y)
			saw(a, x, "compare")
			saw(b, y, "compare")
			hist = append(hist, fmt.Sprintf("%s compare %s %s", tag, x, y))
			n, err := env.Compare(a, b)
			if err != nil || (n == 0) != (x == y) {
				fail("compare", "Compare(%q,%q) = %d, %v", x, y, n, err)
				return
			}
			env.AddGlobal("sa19", a)
			env.AddGlobal("sb19", b)
			note("sa19", "sb19", "==")
			o := evalStr(env, 10000, "(== sa19 sb19)")
			if o.Coarse() != strconv.FormatBool(x == y) {
				fail("compare", "(== '%s '%s) gave %s", x, y, o.String())
				return
			}
			c.Count("comparisons", 1)
		case 13: // a hash keyed by symbols from different interpreters
			h, _ := zygo.MakeHash(nil, "hash", env)
			want := map[string]int64{}
			for j := 0; j < 6; j++ {
				n := pick(r, c19pool[:12])
				s := pick(r, envs).MakeSymbol(n)
				saw(s, n, "hash key")
				h.HashSet(s, &zygo.SexpInt{Val: int64(j)})
				want[n] = int64(j)
			}
			hist = append(hist, tag+" hash keyed by symbols")
			for n, w := range want {
				s := pick(r, envs).MakeSymbol(n)
				saw(s, n, "hash key")
				v, err := h.HashGet(env, s)
				if err != nil || dump(v) != strconv.FormatInt(w, 10) {
					fail("hash", "hash lookup of %q gave %v %v, want %d", n, dump(v), err, w)
					return
				}
			}
			if h.NumKeys != len(want) || len(h.KeyOrder) != len(want) {
				fail("hash", "hash holds %d keys, want %d", h.NumKeys, len(want))
				return
			}
		case 14: // a global bound through one interpreter is that name everywhere
			g := "gl" + strconv.Itoa(r.Intn(12))
			v := int64(r.Intn(1000))
			note(g, "gl")
			hist = append(hist, fmt.Sprintf("%s AddGlobal %s=%d", tag, g, v))
			env.AddGlobal(g, &zygo.SexpInt{Val: v})
			for _, e2 := range envs {
				x, err := e2.EvalString(g)
				if err != nil || dump(x) != strconv.FormatInt(v, 10) {
					fail("global", "%s reads %v, %v in a sibling", g, dump(x), err)
					return
				}
			}
			c.Count("shared_globals", 1)
		case 15: // names made by joining and by decoding
			a, b := "j"+strconv.Itoa(r.Intn(3)), strconv.Itoa(r.Intn(3))
			note("ja19", "jb19", "joinsym")
			env.AddGlobal("ja19", env.MakeSymbol(a))
			saw(env.MakeSymbol(a), a, "join")
			sb := env.MakeSymbol("k" + b)
			saw(sb, "k"+b, "join")
			env.AddGlobal("jb19", sb)
			hist = append(hist, tag+" joinsym "+a+" k"+b)
			o := evalStr(env, 10000, "(joinsym ja19 jb19)")
			saw(symOf(o), a+"k"+b, hist[len(hist)-1])
			v, err := zygo.JsonToSexp([]byte(`{"`+nm+`":1}`), env)
			if h, ok := v.(*zygo.SexpHash); err == nil && ok && len(h.KeyOrder) == 1 {
				s, _ := h.KeyOrder[0].(*zygo.SexpSymbol)
				note("Atype", "zKeyOrder", "hash")
				saw(s, nm, tag+" decoded key "+nm)
			}
		}
	}
	if bad {
		return
	}
	// at the end every name seen must still be the same symbol everywhere
	for n, k := range num {
		e := pick(r, envs)
		if s := e.MakeSymbol(n); s.Number() != k || s.Name() != n {
			fail("final", "%q was symbol %d, a sibling now says %d %q", n, k, s.Number(), s.Name())
			return
		}
	}
	c.Max("interpreters", int64(len(envs)))
	c.Count("symbols_tracked", int64(len(num)))
	if len(envs) > 1 && kinds >= 4 {
		c.Nontrivial(strings.Join(hist, "|"))
	}
	if idx%300 == 1 {
		c.Sample(strings.Join(hist, "; "))
	}
}

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "random histories of MakeSymbol/GenSymbol/reading/str2sym/gensym/joinsym/decoding/macro expansion over trees of clones and duplicates, including interning the names the next gensym would use; every symbol handed out is checked against one name<->number bijection and generated ones for freshness; non-trivial histories have at least two interpreters and a macro-time or guessed gensym",
		N: func(t string) int {
			if t == "thorough" {
				return 1500000
			}
			return 50000
		},
		Run: c19Run, Init: c19Init,
		MinDistinct: func(t string) int { return 10000 },
	})
}
