//go:build go1.22

// Command zvmon is the monitoring harness: it drives the real code of
// the working tree under generated workloads while oracles observe the
// executions.  It is overlaid into the module at build time so it can
// import internal packages; nothing of it lives in /repo.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is one registered property check.
type Check struct {
	ID    string
	Level string
	Rule  string
	// Known assumptions reported in the evidence.
	Assume []string
	Run    func(c *Ctx)
	// MinEvals is the floor below which a run observed too little.
	MinEvals int64
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Violation is one observed breach.
type Violation struct {
	Key    string      `json:"key"`
	Msg    string      `json:"msg"`
	Replay interface{} `json:"replay,omitempty"`
	N      int         `json:"n"`
}

// Ctx carries everything a check needs and collects what it observed.
type Ctx struct {
	ID      string
	Tier    string
	Seed    int64
	Scratch string
	Repo    string
	Bin     string

	mu       sync.Mutex
	viol     map[string]*Violation
	counters map[string]int64
	distinct map[uint64]struct{}
	samples  []interface{}
	evals    int64
	progress int64
	aborted  int64
	cases    int64
	only     int64
}

// Thorough tells which tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N scales a case count by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Violate records a breach; key identifies it for deduplication and the
// known-findings file.
func (c *Ctx) Violate(key, msg string, replay interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if v, ok := c.viol[key]; ok {
		v.N++
		return
	}
	if len(c.viol) > 200 {
		return
	}
	c.viol[key] = &Violation{Key: key, Msg: msg, Replay: replay, N: 1}
	if os.Getenv("VMON_VERBOSE") != "" {
		b, _ := json.Marshal(replay)
		fmt.Fprintf(os.Stderr, "!! %s: %s\n   %s\n", key, msg, trunc(string(b), 3000))
	}
}

// Eval counts an oracle evaluation and the distinct non-trivial
// situation it judged.
func (c *Ctx) Eval(sig string) {
	h := fnv.New64a()
	h.Write([]byte(sig))
	k := h.Sum64()
	c.mu.Lock()
	c.evals++
	if sig != "" {
		c.distinct[k] = struct{}{}
	}
	c.mu.Unlock()
	atomic.AddInt64(&c.progress, 1)
}

// EvalN counts n oracle evaluations with one situation signature.
func (c *Ctx) EvalN(n int, sig string) {
	c.Eval(sig)
	c.mu.Lock()
	c.evals += int64(n - 1)
	c.mu.Unlock()
}

// Count bumps a named counter.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counters[name] += int64(n)
	c.mu.Unlock()
	atomic.AddInt64(&c.progress, 1)
}

// Sample stores an example case.
func (c *Ctx) Sample(s interface{}) {
	c.mu.Lock()
	if len(c.samples) < 3 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// NeedSample tells whether samples are still wanted.
func (c *Ctx) NeedSample() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.samples) < 3
}

// Inconclusive marks a case the oracle could not judge.
func (c *Ctx) Inconclusive(why string) {
	c.mu.Lock()
	c.aborted++
	c.counters["inconclusive:"+why]++
	c.mu.Unlock()
}

func mix(seed int64, s string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, s, i)
	return int64(h.Sum64() >> 1)
}

// Rand derives a generator for one case.
func (c *Ctx) Rand(name string, i int) *rand.Rand {
	return rand.New(rand.NewSource(mix(c.Seed, c.ID+"/"+name, i)))
}

// Cases runs n seeded cases over a worker pool.  A panic inside a case
// whose stack is in the code under test is a violation.
func (c *Ctx) Cases(name string, n int, f func(i int, r *rand.Rand)) {
	c.CasesP(name, n, runtime.NumCPU(), f)
}

// CasesP is Cases with explicit parallelism.
func (c *Ctx) CasesP(name string, n, par int, f func(i int, r *rand.Rand)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if c.only >= 0 && int64(i) != c.only {
					continue
				}
				atomic.AddInt64(&c.cases, 1)
				c.Guard(fmt.Sprintf("%s[%d]", name, i), func() { f(i, c.Rand(name, i)) })
			}
		}()
	}
	wg.Wait()
}

// Guard runs f and turns a panic raised in the code under test into a
// violation; a panic of the harness itself is fatal (an error exit).
func (c *Ctx) Guard(what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			fr := repoFrame(st)
			if fr == "" {
				fmt.Fprintf(os.Stderr, "HARNESS PANIC in %s: %v\n%s\n", what, p, st)
				os.Exit(3)
			}
			c.Violate("panic:"+fr, fmt.Sprintf("panic in %s: %v", what, p), map[string]string{"case": what, "stack": trunc(st, 6000)})
		}
	}()
	f()
}

var frameRE = regexp.MustCompile(`(?m)^((?:main\.|github\.com/netauth/netauth/(?:internal|pkg|cmd)|netauth/)[^\n]*)\([^()\n]*\)$`)

// repoFrame returns the innermost frame of the code under test when the
// panic did not originate in harness code (package main here).
func repoFrame(stack string) string {
	// Skip everything up to the panic itself.
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	for _, m := range frameRE.FindAllStringSubmatch(stack, -1) {
		if strings.HasPrefix(m[1], "main.") {
			return ""
		}
		return strings.TrimPrefix(m[1], "github.com/netauth/netauth/")
	}
	return ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type workerOut struct {
	Viol     []*Violation     `json:"viol"`
	Counters map[string]int64 `json:"counters"`
	Distinct int              `json:"distinct"`
	Evals    int64            `json:"evals"`
	Samples  []interface{}    `json:"samples"`
	Aborted  int64            `json:"aborted"`
	Cases    int64            `json:"cases"`
}

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func main() {
	if len(os.Args) > 1 && strings.HasPrefix(os.Args[1], "sub-") {
		subMain(os.Args[1], os.Args[2:])
		return
	}
	var (
		prop    = flag.String("prop", "", "property id")
		tier    = flag.String("tier", "quick", "tier")
		seed    = flag.Int64("seed", 1, "seed")
		verif   = flag.String("verif", "/verif", "verif dir")
		repo    = flag.String("repo", "/repo", "repo dir")
		scratch = flag.String("scratch", "", "scratch dir")
		bindir  = flag.String("bin", "", "directory with built binaries")
		worker  = flag.Bool("worker", false, "run as worker")
		out     = flag.String("out", "", "worker result file")
		only    = flag.Int64("case", -1, "run only this case index")
	)
	flag.Parse()
	ck := checks[*prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *worker {
		runWorker(ck, &Ctx{ID: *prop, Tier: *tier, Seed: *seed, Scratch: *scratch, Repo: *repo, Bin: *bindir, only: *only}, *out)
		return
	}
	os.Exit(parent(ck, *tier, *seed, *verif, *scratch, *repo, *bindir, *only))
}

func runWorker(ck *Check, c *Ctx, out string) {
	c.viol = map[string]*Violation{}
	c.counters = map[string]int64{}
	c.distinct = map[uint64]struct{}{}
	debug.SetMaxStack(256 << 20)
	stop := make(chan struct{})
	go func() {
		last := int64(-1)
		f, _ := os.Create(out + ".hb")
		for {
			select {
			case <-stop:
				return
			case <-time.After(500 * time.Millisecond):
			}
			p := atomic.LoadInt64(&c.progress)
			if p != last {
				last = p
				fmt.Fprintln(f, p)
			}
		}
	}()
	initCommon(c)
	ck.Run(c)
	close(stop)
	wo := workerOut{Counters: c.counters, Distinct: len(c.distinct), Evals: c.evals, Samples: c.samples, Aborted: c.aborted, Cases: c.cases}
	keys := []string{}
	for k := range c.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		wo.Viol = append(wo.Viol, c.viol[k])
	}
	b, err := json.MarshalIndent(wo, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(3)
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

var raceRE = regexp.MustCompile(`WARNING: DATA RACE`)

// raceReports parses race detector reports from stderr and returns a
// signature for each report that involves the code under test.
func raceReports(stderr string) map[string]string {
	out := map[string]string{}
	blocks := strings.Split(stderr, "==================\n")
	for _, b := range blocks {
		if !raceRE.MatchString(b) {
			continue
		}
		// First repo frame of each of the two accesses.
		parts := regexp.MustCompile(`(?m)^(?:Previous |)(?:[Rr]ead|[Ww]rite|[Aa]tomic \w+) (?:at|of).*$`).FindAllStringIndex(b, -1)
		sigs := []string{}
		for i, p := range parts {
			end := len(b)
			if i+1 < len(parts) {
				end = parts[i+1][0]
			}
			seg := b[p[0]:end]
			if j := strings.Index(seg, "\nGoroutine "); j >= 0 {
				seg = seg[:j]
			}
			fr := ""
			for _, l := range strings.Split(seg, "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "github.com/netauth/netauth/") && !strings.Contains(l, "/zvmon") {
					fr = strings.TrimPrefix(l, "github.com/netauth/netauth/")
					if j := strings.LastIndex(fr, "("); j > 0 {
						fr = fr[:j]
					}
					break
				}
			}
			sigs = append(sigs, fr)
		}
		any := false
		for _, s := range sigs {
			if s != "" {
				any = true
			}
		}
		if !any {
			out["harness-or-dependency"] = b
			continue
		}
		sort.Strings(sigs)
		out["race:"+strings.Join(sigs, "|")] = b
	}
	return out
}

// nobody is the unprivileged user the workers run as.
const nobody = 65534

func parent(ck *Check, tier string, seed int64, verif, scratch, repo, bindir string, only int64) int {
	start := time.Now()
	outf := filepath.Join(scratch, "worker.json")
	errf := filepath.Join(scratch, "worker.err")
	self, _ := os.Executable()
	ef, _ := os.Create(errf)
	cmd := exec.Command(self, "-worker", "-prop", ck.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
		"-scratch", scratch, "-repo", repo, "-bin", bindir, "-out", outf, "-case", fmt.Sprint(only))
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=4", "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	// The code under test runs as an unprivileged user that owns
	// nothing but the scratch directory.
	home := filepath.Join(scratch, "home")
	os.MkdirAll(home, 0755)
	cmd.Env = append(cmd.Env, "HOME="+home)
	cmd.Dir = home
	if os.Getuid() == 0 {
		filepath.Walk(scratch, func(p string, fi os.FileInfo, err error) error {
			if err == nil {
				os.Lchown(p, nobody, nobody)
			}
			return nil
		})
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
	}
	if err := cmd.Start(); err != nil {
		if cmd.SysProcAttr.Credential == nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		c2 := exec.Command(self, cmd.Args[1:]...)
		c2.Stdout, c2.Stderr, c2.Env, c2.Dir = ef, ef, cmd.Env, cmd.Dir
		c2.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd = c2
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	wedged, bloated := false, false
	peak := int64(0)
	lastSize, lastT := int64(-1), time.Now()
	stall := 120 * time.Second
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-time.After(time.Second):
		}
		if st, err := os.Stat(outf + ".hb"); err == nil && st.Size() != lastSize {
			lastSize = st.Size()
			lastT = time.Now()
		}
		if time.Since(lastT) > stall && !wedged {
			wedged = true
			cmd.Process.Signal(syscall.SIGQUIT)
			go func() { time.Sleep(10 * time.Second); cmd.Process.Kill() }()
		}
		rss := rssOf(cmd.Process.Pid)
		peak = max(peak, rss)
		if rss > rssLimit && !wedged {
			wedged, bloated = true, true
			cmd.Process.Signal(syscall.SIGQUIT)
			go func() { time.Sleep(10 * time.Second); cmd.Process.Kill() }()
		}
	}
	ef.Close()
	eb, _ := os.ReadFile(errf)
	stderr := string(eb)
	wo := &workerOut{Counters: map[string]int64{}}
	ob, rerr := os.ReadFile(outf)
	if rerr == nil {
		json.Unmarshal(ob, wo)
	}
	if os.Getenv("VMON_VERBOSE") != "" {
		fmt.Fprint(os.Stderr, trunc(stderr, 200000))
	}
	for sig, b := range raceReports(stderr) {
		if sig == "harness-or-dependency" {
			wo.Counters["race_reports_outside_code_under_test"]++
			continue
		}
		wo.Viol = append(wo.Viol, &Violation{Key: sig, Msg: "data race between " + strings.TrimPrefix(sig, "race:"), Replay: trunc(b, 6000), N: 1})
	}
	wo.Counters["peak_memory_mb"] = peak >> 20
	wo.Counters["race_report_blocks"] = int64(len(raceRE.FindAllString(stderr, -1)))
	if rerr != nil {
		// The worker died.
		switch {
		case wedged:
			fr := wedgeFrame(stderr)
			if fr == "" && bloated {
				fr = "unknown"
			}
			if bloated {
				wo.Viol = append(wo.Viol, &Violation{Key: "memory:" + fr, Msg: fmt.Sprintf("memory use grew past %d GB while serving small requests; goroutine running in %s", rssLimit>>30, fr), Replay: trunc(stderr, 20000), N: 1})
			} else if fr != "" {
				wo.Viol = append(wo.Viol, &Violation{Key: "wedged:" + fr, Msg: "no progress for 120 s; goroutine blocked or spinning in " + fr, Replay: trunc(stderr, 20000), N: 1})
			} else {
				fmt.Fprintln(os.Stderr, "worker made no progress, and no goroutine is inside the code under test: inconclusive")
				fmt.Fprintln(os.Stderr, trunc(stderr, 4000))
				return 2
			}
		default:
			fr := crashFrame(stderr)
			if fr == "" && peak > rssLimit/3 && werr != nil && strings.Contains(werr.Error(), "killed") {
				wo.Viol = append(wo.Viol, &Violation{Key: "memory:unknown", Msg: fmt.Sprintf("the process serving small requests was ended after its memory use grew past %d MB", peak>>20), Replay: trunc(stderr, 20000), N: 1})
				break
			}
			if fr == "" || strings.Contains(stderr, "HARNESS PANIC") {
				fmt.Fprintln(os.Stderr, "worker failed:", werr)
				fmt.Fprintln(os.Stderr, trunc(stderr, 8000))
				return 2
			}
			wo.Viol = append(wo.Viol, &Violation{Key: "crash:" + fr, Msg: "the process running the server code was terminated: " + firstLine(stderr) + " in " + fr, Replay: trunc(stderr, 20000), N: 1})
		}
	}
	// Known findings.
	var known []knownFinding
	if kb, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		var kf struct {
			Findings []knownFinding `json:"findings"`
		}
		if err := json.Unmarshal(kb, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
		for _, k := range kf.Findings {
			if k.Property == ck.ID {
				known = append(known, k)
			}
		}
	}
	newV := []*Violation{}
	seenKnown := map[string]bool{}
	for _, v := range wo.Viol {
		isK := false
		for _, k := range known {
			if v.Key == k.Key {
				isK = true
				seenKnown[k.Key] = true
			}
		}
		if !isK {
			newV = append(newV, v)
		}
	}
	evDir := filepath.Join(verif, "evidence")
	repDir := filepath.Join(evDir, "replay")
	os.MkdirAll(repDir, 0755)
	old, _ := filepath.Glob(filepath.Join(repDir, ck.ID+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	cov := map[string]interface{}{
		"evaluations":         wo.Evals,
		"distinct_nontrivial": wo.Distinct,
		"rule":                ck.Rule,
		"samples":             wo.Samples,
		"cases":               wo.Cases,
		"inconclusive_cases":  wo.Aborted,
		"observed":            wo.Counters,
	}
	if wo.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level,
		"coverage": cov, "assumptions": ck.Assume,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(newV),
	}
	if ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, ck.ID+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range known {
		if seenKnown[k.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k.What)
		}
	}
	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct situations, %d inconclusive, %.1fs\n", ck.ID, tier, wo.Cases, wo.Evals, wo.Distinct, wo.Aborted, time.Since(start).Seconds())
	if len(newV) > 0 {
		for i, v := range newV {
			p := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", ck.ID, i))
			rb, _ := json.MarshalIndent(map[string]interface{}{"property": ck.ID, "seed": seed, "tier": tier, "key": v.Key, "msg": v.Msg, "times": v.N, "replay": v.Replay}, "", " ")
			os.WriteFile(p, rb, 0644)
			if i < 20 {
				fmt.Printf("  %s: %s\n", v.Key, trunc(v.Msg, 600))
				fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, p)
			}
		}
		return 1
	}
	if only < 0 && (wo.Evals < ck.MinEvals || (wo.Cases > 0 && wo.Aborted*2 > wo.Cases)) {
		fmt.Printf("inconclusive: observed too little (%d evaluations, floor %d; %d of %d cases inconclusive)\n", wo.Evals, ck.MinEvals, wo.Aborted, wo.Cases)
		return 2
	}
	return 0
}

func firstLine(s string) string {
	sc := bufio.NewScanner(strings.NewReader(s))
	for sc.Scan() {
		l := sc.Text()
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return "abnormal exit"
}

// crashFrame finds the innermost frame of the code under test in the
// crashing goroutine.
func crashFrame(stderr string) string {
	i := strings.Index(stderr, "\ngoroutine ")
	if j := strings.Index(stderr, "[running"); j >= 0 {
		if k := strings.LastIndex(stderr[:j], "goroutine "); k >= 0 {
			i = k
		}
	}
	if i < 0 {
		return ""
	}
	s := stderr[i:]
	if j := strings.Index(s[1:], "\n\n"); j >= 0 {
		s = s[:j+1]
	}
	for _, m := range frameRE.FindAllStringSubmatch(s, -1) {
		if strings.HasPrefix(m[1], "main.") {
			return ""
		}
		return strings.TrimPrefix(m[1], "github.com/netauth/netauth/")
	}
	return ""
}

// rssLimit is far above what any workload needs on code that answers
// requests in bounded space.
const rssLimit = 6 << 30

func rssOf(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func wedgeFrame(stderr string) string {
	for _, g := range strings.Split(stderr, "\n\n") {
		if !strings.HasPrefix(strings.TrimSpace(g), "goroutine ") {
			continue
		}
		for _, m := range frameRE.FindAllStringSubmatch(g, -1) {
			if strings.HasPrefix(m[1], "main.") {
				continue
			}
			return strings.TrimPrefix(m[1], "github.com/netauth/netauth/")
		}
	}
	return ""
}
