package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const nWorkers = 8

type suspect struct {
	idx  int
	kind string // "death", "hang", "blocked"
	info string
	site string
}

type supervisor struct {
	p       *Prop
	tier    string
	seed    int64
	n       int
	scratch string
	self    string

	mu       sync.Mutex
	evals    int64
	hashes   map[uint64]struct{}
	counters map[string]int64
	maxima   map[string]int64
	samples  []string
	incon    []string
	viols    map[string]*Violation
	nviol    int
	suspects []suspect
	abort    bool
	errs     []string
}

func verifDir() string {
	exe, err := os.Executable()
	if err != nil {
		return "/verif"
	}
	return filepath.Dir(filepath.Dir(exe)) // /verif/build/zmon
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		s = s[i+1:]
	}
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	t, _ := strconv.ParseFloat(f[12], 64)
	return (u + t) / 100
}

// dropPriv makes the child run as an unprivileged user when we are root, so
// that an escaped call reaches nothing but its scratch directory.
func dropPriv(cmd *exec.Cmd) {
	if os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{
			Setpgid:    true,
			Pdeathsig:  syscall.SIGKILL,
			Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true},
		}
	} else {
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	}
}

func childEnv(scratch string) []string {
	return []string{
		"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + scratch, "TMPDIR=" + scratch,
		"LANG=C.UTF-8", "TERM=dumb", "GOTRACEBACK=single", "GOMAXPROCS=2",
		"ZMON_SCRATCH=" + scratch, "ZMON_VERIF=" + verifDir(),
		"ZMON_CORPUS=" + envOr("ZMON_CORPUS", "/repo/tests"),
		"ZYGO_BIN=" + os.Getenv("ZYGO_BIN"),
	}
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 6000 {
		k := 6000 - len(t.buf)
		if k > len(p) {
			k = len(p)
		}
		t.buf = append(t.buf, p[:k]...)
	}
	return len(p), nil
}

// runRange runs cases start, start+step, ... < n in one worker process after
// another, resuming behind a case that killed its worker.
func (s *supervisor) runRange(wid, start, step, n int, confirm bool) (died *suspect) {
	dir := filepath.Join(s.scratch, fmt.Sprintf("w%d", wid))
	os.MkdirAll(dir, 0o777)
	os.Chmod(dir, 0o777)
	limit := s.p.CPULimit
	if limit == 0 {
		limit = 60
	}
	for start < n {
		s.mu.Lock()
		ab := s.abort
		s.mu.Unlock()
		if ab && !confirm {
			return nil
		}
		cmd := exec.Command(s.self, "worker", s.p.ID, s.tier, fmt.Sprint(s.seed),
			fmt.Sprint(start), fmt.Sprint(step), fmt.Sprint(n))
		cmd.Dir = dir
		cmd.Env = childEnv(dir)
		r, w, err := os.Pipe()
		if err != nil {
			s.fail("pipe: %v", err)
			return nil
		}
		cmd.ExtraFiles = []*os.File{w}
		var stderr tailBuf
		cmd.Stderr = &stderr
		dropPriv(cmd)
		if err := cmd.Start(); err != nil {
			s.fail("cannot start worker: %v", err)
			r.Close()
			w.Close()
			return nil
		}
		w.Close()
		pid := cmd.Process.Pid

		var pm sync.Mutex
		cur := -1
		done := false
		killed := ""
		stop := make(chan struct{})
		go func() { // watchdog
			lastCur := -2
			var cpu0 float64
			var t0 time.Time
			tk := time.NewTicker(500 * time.Millisecond)
			defer tk.Stop()
			for {
				select {
				case <-stop:
					return
				case <-tk.C:
				}
				pm.Lock()
				c := cur
				pm.Unlock()
				now := cpuSeconds(pid)
				if c != lastCur {
					lastCur, cpu0, t0 = c, now, time.Now()
					continue
				}
				kind := ""
				if now-cpu0 > limit {
					kind = "hang"
				} else if time.Since(t0) > 100*time.Second && now-cpu0 < 5 {
					kind = "blocked"
				}
				if kind != "" {
					pm.Lock()
					killed = kind
					pm.Unlock()
					syscall.Kill(-pid, syscall.SIGKILL)
					return
				}
			}
		}()

		br := bufio.NewReaderSize(r, 1<<20)
		for {
			line, err := br.ReadBytes('\n')
			if err != nil {
				break
			}
			switch {
			case bytes.HasPrefix(line, []byte("S ")):
				i, _ := strconv.Atoi(strings.TrimSpace(string(line[2:])))
				pm.Lock()
				cur = i
				pm.Unlock()
			case bytes.HasPrefix(line, []byte("T ")):
				var st Stats
				if json.Unmarshal(line[2:], &st) == nil {
					s.merge(&st)
				}
			case bytes.HasPrefix(line, []byte("V ")):
				var v Violation
				if json.Unmarshal(line[2:], &v) == nil {
					s.violation(&v)
				}
			case bytes.HasPrefix(line, []byte("D")):
				done = true
			}
		}
		close(stop)
		werr := cmd.Wait()
		r.Close()
		syscall.Kill(-pid, syscall.SIGKILL) // whatever a script left running
		if done {
			return nil
		}
		pm.Lock()
		at, kind := cur, killed
		pm.Unlock()
		if at < 0 {
			s.fail("worker died before its first case: %v\n%s", werr, stderr.buf)
			return nil
		}
		if kind == "" {
			kind = "death"
		}
		sp := suspect{idx: at, kind: kind, info: fmt.Sprintf("%v\n%s", werr, firstLines(string(stderr.buf), 40))}
		if kind == "death" {
			sp.site = deathSite(string(stderr.buf))
		}
		// what the case was at, if it keeps a note
		if b, err := os.ReadFile(filepath.Join(dir, "current.txt")); err == nil && len(b) > 9 {
			if n, err := strconv.Atoi(string(b[:8])); err == nil && n <= len(b)-9 {
				sp.info = "last text: " + string(b[9:9+n]) + "\n" + sp.info
			}
		}
		if confirm {
			return &sp
		}
		s.mu.Lock()
		s.suspects = append(s.suspects, sp)
		if os.Getenv("ZMON_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "SUSPECT %d %s %s %.600s\n", at, kind, sp.site, sp.info)
		}
		if len(s.suspects) > 24 {
			s.abort = true
		}
		s.mu.Unlock()
		start = at + step
	}
	return nil
}

// deathSite names the library function on top of a dead worker's stack.
func deathSite(stderr string) string {
	what := ""
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
			what = l
			break
		}
	}
	s := panicSite(stderr)
	if s == "unknown" || what == "" {
		return ""
	}
	return strings.ReplaceAll(what, " ", "-") + "@" + s
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (s *supervisor) fail(f string, a ...interface{}) {
	s.mu.Lock()
	s.errs = append(s.errs, fmt.Sprintf(f, a...))
	s.abort = true
	s.mu.Unlock()
}

func (s *supervisor) merge(st *Stats) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.evals += st.Evaluations
	for _, h := range st.Hashes {
		s.hashes[h] = struct{}{}
	}
	for k, v := range st.Counters {
		s.counters[k] += v
	}
	for k, v := range st.Maxima {
		if v > s.maxima[k] {
			s.maxima[k] = v
		}
	}
	if len(s.samples) < 6 {
		s.samples = append(s.samples, st.Samples...)
	}
	if len(s.incon) < 20 {
		s.incon = append(s.incon, st.Inconclusive...)
	}
}

func (s *supervisor) violation(v *Violation) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.nviol++
	if os.Getenv("ZMON_VERBOSE") != "" && s.viols[v.Sig] == nil {
		fmt.Fprintf(os.Stderr, "VIOL %d %s %.900s\n", v.Idx, v.Sig, v.Detail)
	}
	if old, ok := s.viols[v.Sig]; !ok || v.Idx < old.Idx {
		s.viols[v.Sig] = v
	}
	if len(s.viols) > 400 {
		s.abort = true
	}
}

type known struct{ prop, sig, what string }

// loadKnown reads "finding: property=ID sig=SIG <what>" lines.
func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 3 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "sig="), f[2]})
	}
	return out
}

func runCheck(id string) int {
	t0 := time.Now()
	p := props[id]
	if p == nil {
		fmt.Println("no such property", id)
		return 2
	}
	tier := envOr("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = int64(hash64(os.Getenv("VERIF_SEED")) >> 1)
	}
	vd := verifDir()
	scratch, err := os.MkdirTemp("", "zmon-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	os.Chmod(scratch, 0o755)
	defer os.RemoveAll(scratch)
	self, _ := os.Executable()
	// the unprivileged workers need to be able to read the binary
	bin := filepath.Join(scratch, "zmon")
	if b, err := os.ReadFile(self); err == nil {
		if os.WriteFile(bin, b, 0o755) == nil {
			os.Chmod(bin, 0o755)
			self = bin
		}
	}
	if zb := os.Getenv("ZYGO_BIN"); zb != "" {
		if b, err := os.ReadFile(zb); err == nil {
			nb := filepath.Join(scratch, "zygo")
			os.WriteFile(nb, b, 0o755)
			os.Chmod(nb, 0o755)
			os.Setenv("ZYGO_BIN", nb)
		}
	}
	// copy the script corpus where the workers can read it
	cd := filepath.Join(scratch, "corpus")
	os.MkdirAll(cd, 0o755)
	src := envOr("ZMON_CORPUS", "/repo/tests")
	if ents, err := os.ReadDir(src); err == nil {
		for _, e := range ents {
			if e.Type().IsRegular() {
				if b, err := os.ReadFile(filepath.Join(src, e.Name())); err == nil {
					os.WriteFile(filepath.Join(cd, e.Name()), b, 0o644)
				}
			}
		}
	}
	os.Setenv("ZMON_CORPUS", cd)

	n := p.N(tier)
	if v := os.Getenv("ZMON_N"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	s := &supervisor{p: p, tier: tier, seed: seed, n: n, scratch: scratch, self: self,
		hashes: map[uint64]struct{}{}, counters: map[string]int64{}, maxima: map[string]int64{},
		viols: map[string]*Violation{}}
	var wg sync.WaitGroup
	for w := 0; w < nWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			s.runRange(w, w, nWorkers, n, false)
		}(w)
	}
	wg.Wait()

	// confirm suspects, each alone
	sort.Slice(s.suspects, func(i, j int) bool { return s.suspects[i].idx < s.suspects[j].idx })
	confirmed := 0
	for i, sp := range s.suspects {
		if confirmed >= 6 || i >= 12 {
			s.incon = append(s.incon, fmt.Sprintf("case %d: %s, not re-run", sp.idx, sp.kind))
			s.counters["inconclusive"]++
			continue
		}
		again := s.runRange(100+i, sp.idx, 1<<30, sp.idx+1, true)
		if again == nil {
			s.incon = append(s.incon, fmt.Sprintf("case %d: %s not reproduced alone: %s", sp.idx, sp.kind, firstLines(sp.info, 4)))
			s.counters["inconclusive"]++
			continue
		}
		if again.kind != "death" && !hookAvailable {
			s.incon = append(s.incon, fmt.Sprintf("case %d: %s but no step hook in this build", sp.idx, again.kind))
			s.counters["inconclusive"]++
			continue
		}
		confirmed++
		desc := describeCase(p, tier, seed, sp.idx)
		if describers[id] == nil && again.site != "" {
			desc.sig = again.site
		}
		s.violation(&Violation{Property: id, Tier: tier, Seed: seed, Idx: sp.idx,
			Sig:    fmt.Sprintf("host-%s:%s", again.kind, desc.sig),
			Detail: fmt.Sprintf("the host process did not survive (%s) case %d\n%s\n%s", again.kind, sp.idx, desc.text, again.info)})
	}

	// known findings
	kn := loadKnown(filepath.Join(vd, "known_findings.txt"))
	var fresh []*Violation
	knownHit := map[string]string{}
	for _, v := range s.viols {
		hit := false
		for _, k := range kn {
			if k.prop == id && k.sig == v.Sig {
				hit = true
				knownHit[k.sig] = k.what
			}
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	sort.Slice(fresh, func(i, j int) bool { return fresh[i].Idx < fresh[j].Idx })
	var kl []string
	for sig, what := range knownHit {
		kl = append(kl, fmt.Sprintf("KNOWN-FINDING: property=%s %s [%s]", id, what, sig))
	}
	sort.Strings(kl)
	for _, l := range kl {
		fmt.Println(l)
	}

	// evidence
	cov := map[string]interface{}{
		"evaluations":         s.evals,
		"distinct_nontrivial": len(s.hashes),
		"rule":                p.Rule,
		"samples":             s.samples,
		"cases":               n,
		"monitor_counters":    s.counters,
		"step_hook":           hookAvailable,
	}
	if len(s.maxima) > 0 {
		cov["high_water_marks"] = s.maxima
	}
	if len(s.incon) > 0 {
		cov["inconclusive"] = s.incon
	}
	if len(kl) > 0 {
		cov["known_findings_seen"] = kl
	}
	if p.Exhaustive != "" {
		cov["exhaustive_part"] = p.Exhaustive
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assumptions,
		"wall_s":     float64(int(time.Since(t0).Seconds()*10)) / 10,
		"violations": len(fresh),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	ed := filepath.Join(vd, "evidence")
	os.MkdirAll(ed, 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(ed, id+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}

	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct non-trivial, %d inconclusive, %.1fs\n",
		id, tier, seed, n, s.evals, len(s.hashes), s.counters["inconclusive"], time.Since(t0).Seconds())
	if len(fresh) > 0 {
		rd := filepath.Join(vd, "build", "replay")
		os.MkdirAll(rd, 0o755)
		for i, v := range fresh {
			if i >= 12 {
				fmt.Printf("... and %d more distinct violations\n", len(fresh)-i)
				break
			}
			f := filepath.Join(rd, fmt.Sprintf("%s-%d-%x.json", id, v.Idx, hash64(v.Sig)&0xffffff))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
			fmt.Printf("  sig=%s\n  %s\n", v.Sig, strings.ReplaceAll(firstLines(v.Detail, 14), "\n", "\n  "))
		}
		return 1
	}
	if len(s.errs) > 0 {
		for _, e := range s.errs {
			fmt.Println("ERROR:", e)
		}
		return 2
	}
	if s.abort {
		fmt.Println("ERROR: run aborted")
		return 2
	}
	min := 1
	if p.MinDistinct != nil && os.Getenv("ZMON_N") == "" {
		min = p.MinDistinct(tier)
	}
	if len(s.hashes) < min {
		fmt.Printf("ERROR: observed too little: %d distinct non-trivial cases, expected at least %d\n", len(s.hashes), min)
		return 2
	}
	return 0
}

type caseDesc struct{ sig, text string }

// describers let a property say what input a case index stands for, for deaths
// where the case itself could not report.
var describers = map[string]func(c *Ctx, idx int) (sig, text string){}

func describeCase(p *Prop, tier string, seed int64, idx int) (d caseDesc) {
	d.sig = fmt.Sprintf("seed%d-case%d", seed, idx)
	f := describers[p.ID]
	if f == nil {
		return
	}
	defer func() { recover() }()
	c := newCtx(p, tier, seed)
	c.begin(idx)
	d.sig, d.text = f(c, idx)
	return
}
