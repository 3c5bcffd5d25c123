package main

import "fmt"

func init() {
	// ev: evaluate each argument in turn in one full interpreter
	probes["ev"] = func(a []string) {
		env := newFull()
		var rec recorder
		rec.install(env)
		for _, s := range a {
			o := evalStr(env, 25*defaultBudget, s)
			fmt.Printf("%s => %s", s, o.String())
			if len(rec.log) > 0 {
				fmt.Printf("   emits %q", rec.log)
				rec.log = nil
			}
			fmt.Println()
		}
	}
}
