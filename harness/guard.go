package main

import (
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"strings"

	"github.com/glycerine/zygomys/v9/zygo"
)

// Outcome is what one guarded library call did.
type Outcome struct {
	Kind string // "value", "error", "panic", "budget"
	Val  zygo.Sexp
	Err  string
}

func (o Outcome) ok() bool { return o.Kind == "value" }

// String is a comparable rendering: errors are not compared by text here.
func (o Outcome) String() string {
	switch o.Kind {
	case "value":
		return dump(o.Val)
	case "error":
		return "error: " + o.Err
	}
	return o.Kind + ": " + o.Err
}

// Coarse renders value or the mere fact of an error.
func (o Outcome) Coarse() string {
	if o.Kind == "value" {
		return dump(o.Val)
	}
	return o.Kind
}

// guard runs f with a step budget and turns panics into outcomes.
func guard(budget int64, f func() (zygo.Sexp, error)) (o Outcome) {
	stepMon.steps = 0
	stepMon.budget = budget
	stepMon.exhausted = false
	defer func() {
		stepMon.budget = 0
		if r := recover(); r != nil {
			o = Outcome{Kind: "panic", Err: fmt.Sprintf("%v\n%s", r, debug.Stack())}
		}
	}()
	v, err := f()
	if stepMon.exhausted {
		return Outcome{Kind: "budget"}
	}
	if err != nil {
		return Outcome{Kind: "error", Err: err.Error()}
	}
	if v == nil {
		v = zygo.SexpNull
	}
	return Outcome{Kind: "value", Val: v}
}

// evalStr evaluates a source text with a guard.
func evalStr(env *zygo.Zlisp, budget int64, src string) Outcome {
	return guard(budget, func() (zygo.Sexp, error) { return env.EvalString(src) })
}

// panicSite picks the first library frame of a panic for a stable signature.
func panicSite(trace string) string {
	lines := strings.Split(trace, "\n")
	for i, l := range lines {
		if strings.Contains(l, "/zygo/") && strings.Contains(l, ".go:") && i > 0 {
			fn := strings.TrimSpace(lines[i-1])
			if j := strings.LastIndex(fn, "("); j > 0 {
				fn = fn[:j]
			}
			if j := strings.LastIndex(fn, "/"); j >= 0 {
				fn = fn[j+1:]
			}
			return fn
		}
	}
	return "unknown"
}

const defaultBudget = 2_000_000

// effects used by generated programs: (emit x...) appends to a log.
type recorder struct{ log []string }

func (r *recorder) install(env *zygo.Zlisp) {
	env.AddFunction("emit", func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
		var sb strings.Builder
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(dump(a))
		}
		r.log = append(r.log, sb.String())
		if len(args) == 0 {
			return zygo.SexpNull, nil
		}
		return args[len(args)-1], nil
	})
}

var stubbed []string

// defang overrides what could touch the machine with recording stand-ins.
func defang(env *zygo.Zlisp) {
	for _, n := range []string{"system", "exit", "writef", "owritef", "save", "bsave", "slurpf", "bload",
		"source", "setenv", "getenv", "chdir", "readline", "sleep", "req", "include", "send", "makeChan", "go"} {
		n := n
		env.AddFunction(n, func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
			stubbed = append(stubbed, n)
			return zygo.SexpNull, fmt.Errorf("stub: %s is not available here", n)
		})
	}
	for _, n := range []string{"sys", "import"} {
		n := n
		env.AddBuilder(n, func(env *zygo.Zlisp, name string, args []zygo.Sexp) (zygo.Sexp, error) {
			stubbed = append(stubbed, n)
			return zygo.SexpNull, fmt.Errorf("stub: %s is not available here", n)
		})
	}
}

// newFull is an interpreter as the zygo tool sets it up, minus the machine.
func newFull() *zygo.Zlisp {
	env := zygo.NewZlisp()
	env.StandardSetup()
	defang(env)
	return env
}

// newCore is a bare interpreter plus eval, minus the machine.
func newCore() *zygo.Zlisp {
	env := zygo.NewZlisp()
	defang(env)
	return env
}

func runProbe(a []string) {
	if len(a) == 0 {
		os.Exit(2)
	}
	f := probes[a[0]]
	if f == nil {
		os.Exit(2)
	}
	f(a[1:])
}

// probes are helper modes that need a process of their own.
var probes = map[string]func(a []string){}

var reCache = map[string]*regexp.Regexp{}

// mustRe compiles a pattern once; not for use by several goroutines.
func mustRe(s string) *regexp.Regexp {
	r := reCache[s]
	if r == nil {
		r = regexp.MustCompile(s)
		reCache[s] = r
	}
	return r
}
