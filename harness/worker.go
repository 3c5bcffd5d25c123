package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"syscall"
	"time"
)

// worker args: PROP TIER SEED START STEP N
func runWorker(a []string) {
	p := props[a[0]]
	tier := a[1]
	seed, _ := strconv.ParseInt(a[2], 10, 64)
	start, _ := strconv.Atoi(a[3])
	step, _ := strconv.Atoi(a[4])
	n, _ := strconv.Atoi(a[5])
	out := os.NewFile(3, "events")
	w := bufio.NewWriterSize(out, 1<<16)
	// children started by scripts must not hold the event pipe
	syscall.CloseOnExec(3)
	debug.SetMemoryLimit(3 << 30)
	debug.SetGCPercent(200)

	c := newCtx(p, tier, seed)
	send := func(tag string, v interface{}) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(w, "%s %s\n", tag, b)
	}
	c.onViolation = func(v *Violation) {
		send("V", v)
		w.Flush()
	}
	if p.Init != nil {
		p.Init(c)
	}
	last := time.Now()
	for i, k := start, 0; i < n; i, k = i+step, k+1 {
		fmt.Fprintf(w, "S %d\n", i)
		w.Flush()
		c.begin(i)
		runCaseGuarded(c, i)
		if k%256 == 255 || time.Since(last) > 2*time.Second {
			send("T", &c.stats)
			w.Flush()
			c.resetStats()
			last = time.Now()
		}
	}
	send("T", &c.stats)
	fmt.Fprintf(w, "D\n")
	w.Flush()
	os.Exit(0)
}

// runCaseGuarded turns a panic of the harness itself into a harness error (the
// library calls have their own recover guards, so this is never library code
// unless a guard is missing).
func runCaseGuarded(c *Ctx, i int) {
	defer func() {
		if r := recover(); r != nil {
			c.Violate("unguarded-panic", "panic outside a guarded call in case %d: %v\n%s", i, r, debug.Stack())
		}
	}()
	c.P.Run(c, i)
}
