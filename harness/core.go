package main

// Running generated programs in the library and in the reference evaluator
// side by side.

import (
	"fmt"
	"strings"
	"time"

	"github.com/glycerine/zygomys/v9/zygo"
)

// installEffects adds what programs use to be observed and to fail.
func installEffects(env *zygo.Zlisp, rec *recorder) {
	rec.install(env)
	env.AddFunction("boom", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		n := 0
		if len(args) == 1 {
			if i, ok := args[0].(*zygo.SexpInt); ok {
				n = int(i.Val)
			}
		}
		return zygo.SexpNull, fmt.Errorf("boom%d!", n)
	})
}

// pairRun holds an interpreter and a reference in the same state.
type pairRun struct {
	c   *Ctx
	env *zygo.Zlisp
	it  *rinterp
	rec recorder
	src []string // all texts evaluated so far
}

func newPair(c *Ctx) *pairRun {
	p := &pairRun{c: c, env: newFull(), it: newRef(true)}
	installEffects(p.env, &p.rec)
	return p
}

func joinSrc(c *Ctx, forms []V) string {
	var parts []string
	for _, f := range forms {
		if c == nil {
			parts = append(parts, srcOf(f))
		} else {
			parts = append(parts, srcWild(c, f))
		}
	}
	return strings.Join(parts, "\n")
}

// stepResult says how one evaluation compared.
type stepResult struct {
	lib    Outcome
	ref    rout
	bad    string // description of the difference, if any
	unsure bool
}

// step evaluates forms as one text in both and compares value, error, effects.
func (p *pairRun) step(forms []V, src string) (r stepResult) {
	p.it.log = nil
	p.rec.log = nil
	r.ref = p.it.eval(forms)
	if r.ref.kind == "unsure" {
		r.unsure = true
		return
	}
	p.src = append(p.src, src)
	p.c.Eval()
	r.lib = evalStr(p.env, defaultBudget, src)
	r.bad = p.diff(r.lib, r.ref)
	return
}

func (p *pairRun) diff(lib Outcome, ref rout) string {
	want, got := ref.String(), lib.Coarse()
	if ref.kind == "error" {
		want = "error"
	}
	switch {
	case want != got:
		if lib.Kind == "error" || lib.Kind == "panic" {
			got = lib.String()
		}
		return fmt.Sprintf("result: library %s, reference %s", cut(got), cut(ref.String()))
	case ref.kind == "error" && !strings.Contains(lib.Err, ref.tag):
		return fmt.Sprintf("error: library %q, reference says it mentions %q", cut(lib.Err), ref.tag)
	}
	for i := 0; i < len(p.rec.log) || i < len(p.it.log); i++ {
		a, b := "(none)", "(none)"
		if i < len(p.rec.log) {
			a = p.rec.log[i]
		}
		if i < len(p.it.log) {
			b = p.it.log[i]
		}
		if a != b {
			return fmt.Sprintf("effect %d: library %s, reference %s", i, cut(a), cut(b))
		}
	}
	return ""
}

func cut(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// shrunk counts the failures this process made smaller.
var shrunk int

// shrinkTexts makes a failing list of texts (each a list of forms) smaller.
// fails must be deterministic.
func shrinkTexts(texts [][]V, fails func(t [][]V) bool) [][]V {
	if shrunk++; shrunk > 4 {
		return texts // a worker that finds many failures need not make each small
	}
	end := time.Now().Add(4 * time.Second)
	cur := texts
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		try := func(cand [][]V) bool {
			if time.Now().After(end) {
				return false
			}
			if fails(cand) {
				cur = cand
				progress = true
				return true
			}
			return false
		}
		for i := 0; i < len(cur); i++ {
			cand := append(append([][]V(nil), cur[:i]...), cur[i+1:]...)
			if try(cand) {
				i--
			}
		}
		for i := 0; i < len(cur); i++ {
			for j := 0; j < len(cur[i]); j++ {
				t := append(append([]V(nil), cur[i][:j]...), cur[i][j+1:]...)
				cand := append([][]V(nil), cur...)
				cand[i] = t
				if try(cand) {
					j--
				}
			}
		}
		for i := 0; i < len(cur); i++ {
			for j := 0; j < len(cur[i]); j++ {
				for again := true; again; {
					again = false
					for _, r := range shrinkForm(cur[i][j]) {
						t := append([]V(nil), cur[i]...)
						t[j] = r
						cand := append([][]V(nil), cur...)
						cand[i] = t
						if try(cand) {
							again = true
							break
						}
					}
				}
			}
		}
	}
	return cur
}

// shrinkForm gives smaller variants of a form.
func shrinkForm(f V) []V {
	var out []V
	var kids []V
	var rebuild func(k []V) V
	switch x := f.(type) {
	case *rcell:
		e, ok := listElems(x)
		if !ok {
			return nil
		}
		kids = e
		rebuild = func(k []V) V { return flist(k...) }
	case *rarr:
		kids = x.v
		rebuild = func(k []V) V { return &rarr{k} }
	case int64:
		if x != 0 && x != 1 {
			return []V{int64(1)}
		}
		return nil
	default:
		return nil
	}
	for _, k := range kids {
		switch k.(type) {
		case *rcell, *rarr:
			out = append(out, k)
		}
	}
	out = append(out, int64(1))
	for i := range kids {
		if i == 0 {
			if _, isCell := f.(*rcell); isCell {
				continue
			}
		}
		out = append(out, rebuild(append(append([]V(nil), kids[:i]...), kids[i+1:]...)))
	}
	for i := range kids {
		for _, r := range shrinkForm(kids[i]) {
			k := append([]V(nil), kids...)
			k[i] = r
			out = append(out, rebuild(k))
		}
	}
	return out
}

// runTexts evaluates texts in a fresh pair until they differ; with stop, until
// an error as well.
func runTexts(c *Ctx, texts [][]V, wild *Ctx, stop bool) (p *pairRun, bad string) {
	p = newPair(c)
	for _, t := range texts {
		r := p.step(t, joinSrc(wild, t))
		if r.unsure {
			return p, ""
		}
		if r.bad != "" {
			return p, r.bad
		}
		if stop && r.ref.kind == "error" {
			return p, ""
		}
	}
	return p, ""
}

// reportDiff shrinks a difference and reports it.
func reportDiff(c *Ctx, sig string, texts [][]V, stop bool, bad string) {
	small := shrinkTexts(texts, func(t [][]V) bool {
		defer func() { recover() }()
		_, b := runTexts(c, t, nil, stop)
		return b != ""
	})
	_, b2 := runTexts(c, small, nil, stop)
	var sb strings.Builder
	for i, t := range small {
		fmt.Fprintf(&sb, "-- text %d\n%s\n", i+1, joinSrc(nil, t))
	}
	if b2 == "" {
		sb.Reset()
		for i, t := range texts {
			fmt.Fprintf(&sb, "-- text %d\n%s\n", i+1, joinSrc(nil, t))
		}
		b2 = bad + "\n(not reproduced from the canonical text)"
	}
	c.Violate(sig, "%s\nprogram:\n%s", b2, sb.String())
}

// reference coverage becomes monitor counters.
func (p *pairRun) observe() {
	for k, v := range p.it.cov {
		p.c.Count("ref_"+k, v)
	}
	p.c.Count("ref_calls", p.it.calls)
	p.c.Count("steps_compared", int64(len(p.src)))
}
