// zmon drives the real zygomys library with generated workloads while monitors
// watch the executions. See /verif/DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
)

// Prop is one property check: a fixed list of cases and a monitor.
type Prop struct {
	ID          string
	Rule        string
	Level       string
	Assumptions []string
	// N gives the number of cases for a tier.
	N func(tier string) int
	// Run executes one case; the monitor reports through c.
	Run func(c *Ctx, idx int)
	// Init runs once in each worker before the first case (may be nil).
	Init func(c *Ctx)
	// MinDistinct is the floor below which a run observed too little.
	MinDistinct func(tier string) int
	// CPULimit is the CPU seconds a single case may use (0: default).
	CPULimit float64
	// Exhaustive marks spaces that were enumerated completely (optional).
	Exhaustive string
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: zmon check PROP | worker ... | replay FILE | case PROP IDX | list")
	os.Exit(2)
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	case "check":
		if len(os.Args) < 3 {
			usage()
		}
		os.Exit(runCheck(os.Args[2]))
	case "worker":
		runWorker(os.Args[2:])
	case "probe":
		runProbe(os.Args[2:])
	case "case":
		// zmon case PROP IDX : run one case in-process, print what it reports
		seed, _ := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
		idx, err := strconv.Atoi(os.Args[3])
		if err != nil {
			usage()
		}
		replayCase(os.Args[2], envOr("VERIF_TIER", "quick"), seed, idx)
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		replayCase(v.Property, v.Tier, v.Seed, v.Idx)
	default:
		usage()
	}
}

func replayCase(id, tier string, seed int64, idx int) {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
	}
	devnull, _ := os.OpenFile("/dev/null", os.O_RDWR, 0)
	real := os.Stdout
	os.Stdout = devnull
	c := newCtx(p, tier, seed)
	c.verbose = true
	if p.Init != nil {
		p.Init(c)
	}
	n := 0
	c.onViolation = func(v *Violation) {
		n++
		fmt.Fprintf(real, "--- %s idx=%d sig=%s\n%s\n", v.Property, v.Idx, v.Sig, v.Detail)
	}
	c.begin(idx)
	p.Run(c, idx)
	for _, s := range c.stats.Samples {
		fmt.Fprintf(real, "sample: %s\n", s)
	}
	for k, v := range c.stats.Counters {
		fmt.Fprintf(real, "counter %s=%d\n", k, v)
	}
	fmt.Fprintf(real, "violations reported by this case: %d\n", n)
	if n > 0 {
		os.Exit(1)
	}
}
