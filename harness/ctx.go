package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
)

// Violation is what a monitor reports; it is also the replay file format.
type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     int64  `json:"seed"`
	Idx      int    `json:"idx"`
	Sig      string `json:"sig"`
	Detail   string `json:"detail"`
}

// Stats are what a worker observed; sent as deltas to the supervisor.
type Stats struct {
	Evaluations  int64            `json:"e"`
	Hashes       []uint64         `json:"h,omitempty"`
	Counters     map[string]int64 `json:"c,omitempty"`
	Maxima       map[string]int64 `json:"m,omitempty"`
	Samples      []string         `json:"s,omitempty"`
	Inconclusive []string         `json:"i,omitempty"`
}

// Ctx is handed to a case.
type Ctx struct {
	P       *Prop
	Tier    string
	Seed    int64
	Idx     int
	Rng     *rand.Rand
	stats   Stats
	verbose bool
	nviol   int

	onViolation func(v *Violation)
}

func newCtx(p *Prop, tier string, seed int64) *Ctx {
	c := &Ctx{P: p, Tier: tier, Seed: seed}
	c.resetStats()
	c.onViolation = func(v *Violation) {}
	return c
}

func (c *Ctx) resetStats() {
	c.stats = Stats{Counters: map[string]int64{}, Maxima: map[string]int64{}}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (c *Ctx) begin(idx int) {
	c.Idx = idx
	s := hash64(fmt.Sprintf("%s/%d/%d", c.P.ID, c.Seed, idx))
	c.Rng = rand.New(rand.NewSource(int64(s)))
}

// Eval counts one execution of the code under test.
func (c *Ctx) Eval() { c.stats.Evaluations++ }

// Nontrivial records a distinct non-trivial observation key.
func (c *Ctx) Nontrivial(key string) { c.stats.Hashes = append(c.stats.Hashes, hash64(key)) }

// Count adds to a monitor counter.
func (c *Ctx) Count(name string, n int64) { c.stats.Counters[name] += n }

// Max keeps a high-water mark.
func (c *Ctx) Max(name string, n int64) {
	if n > c.stats.Maxima[name] {
		c.stats.Maxima[name] = n
	}
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(s string) {
	if len(c.stats.Samples) < 2 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.stats.Samples = append(c.stats.Samples, s)
	}
}

// Inconclusive records that a case could not be decided.
func (c *Ctx) Inconclusive(why string) {
	c.Count("inconclusive", 1)
	if len(c.stats.Inconclusive) < 3 {
		c.stats.Inconclusive = append(c.stats.Inconclusive, fmt.Sprintf("case %d: %s", c.Idx, why))
	}
}

// Violate reports a violation. sig identifies the failing input or call site.
func (c *Ctx) Violate(sig, format string, a ...interface{}) {
	c.nviol++
	d := fmt.Sprintf(format, a...)
	if len(d) > 20000 {
		d = d[:20000] + "...(cut)"
	}
	c.onViolation(&Violation{Property: c.P.ID, Tier: c.Tier, Seed: c.Seed, Idx: c.Idx, Sig: sig, Detail: d})
}

func (c *Ctx) intn(n int) int { return c.Rng.Intn(n) }

func (c *Ctx) chance(num, den int) bool { return c.Rng.Intn(den) < num }

func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
