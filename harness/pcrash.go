//go:build go1.22

package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// crashJob is what the child runs.
type crashJob struct {
	Scratch, Dir, Backend string
	Ops                   []Op
	Shutdown              bool
}

func init() {
	subs["sub-crash"] = func(args []string) {
		var j crashJob
		b, _ := io.ReadAll(os.Stdin)
		if err := json.Unmarshal(b, &j); err != nil {
			os.Exit(3)
		}
		c := &Ctx{ID: "P15", Scratch: j.Scratch, viol: map[string]*Violation{}, counters: map[string]int64{}, distinct: map[uint64]struct{}{}}
		initCommon(c)
		rootToken()
		const sock, ack = 3, 4
		if len(args) > 0 && args[0] == "notify" {
			fd, err := stopBeforeFileChanges()
			if err != nil {
				os.Exit(4)
			}
			if err := sendFD(sock, fd); err != nil {
				os.Exit(5)
			}
			syscall.Close(fd)
		}
		say := func() { syscall.Write(ack, []byte{'.'}) }
		w, err := NewWorld(c, WOpts{Backend: j.Backend, Dir: j.Dir})
		if err != nil {
			fmt.Fprintln(os.Stderr, "child start-up:", err)
			os.Exit(6)
		}
		for _, o := range j.Ops {
			say()
			r := Exec(parseCred(o.Cred).ctx(), w.Srv, o)
			if !r.OK() {
				fmt.Fprintln(os.Stderr, "child request:", o, r.Err)
				os.Exit(7)
			}
			say()
		}
		say()
		if j.Shutdown {
			w.DB.Shutdown()
		}
		os.Exit(0)
	}
	register(&Check{
		ID: "P15", MinEvals: 1000,
		Rule: "a situation is (backend, request kind in flight or start-up or shut-down, system call about to run or torn, number of the call within the request, what the data shows afterwards: old, new or the same)",
		Assume: []string{"a process killed by SIGKILL leaves the file system as the system calls so far left it, plus any part of a write under way", "loss of the page cache (power failure) is not modelled",
			"requests overlapping at the moment of the kill are covered by kills at random times only"},
		Run: runP15,
	})
}

// instant is the data as a kill at one moment leaves it.
type instant struct {
	files map[string]fileState
	call  string
	nth   int
	op    int // request in flight, or -1
	done  int // requests finished
	size  int
}

type fileState struct {
	dir  bool
	mode os.FileMode
	data string
}

func readTree(dir string) (map[string]fileState, [32]byte) {
	out := map[string]fileState{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if fi.IsDir() {
			out[rel] = fileState{dir: true, mode: fi.Mode().Perm()}
			return nil
		}
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			out[rel] = fileState{mode: fi.Mode().Perm(), data: string(b)}
		}
		return nil
	})
	return out, treeHash(out)
}

func treeHash(t map[string]fileState) (s [32]byte) {
	ks := make([]string, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	for _, k := range ks {
		fmt.Fprintf(h, "%q %v %o %d\n%s", k, t[k].dir, t[k].mode, len(t[k].data), t[k].data)
	}
	copy(s[:], h.Sum(nil))
	return
}

func writeTree(t map[string]fileState, dir string) error {
	ks := make([]string, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	for _, k := range ks {
		p := filepath.Join(dir, k)
		if t[k].dir {
			os.MkdirAll(p, 0755)
			continue
		}
		if err := os.WriteFile(p, []byte(t[k].data), 0644); err != nil {
			return err
		}
	}
	for i := len(ks) - 1; i >= 0; i-- {
		os.Chmod(filepath.Join(dir, ks[i]), t[ks[i]].mode)
	}
	return nil
}

// runCrashChild runs the job, collecting every distinct instant; with
// killAt >= 0 the child is killed for real at that instant and only
// that one is returned, read after its death.
func runCrashChild(c *Ctx, j crashJob, killAt int) ([]instant, bool) {
	self, _ := os.Executable()
	conn, cf, err := socketPair()
	if err != nil {
		return nil, false
	}
	defer conn.Close()
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, false
	}
	defer pr.Close()
	in, _ := json.Marshal(j)
	cmd := exec.Command(self, "sub-crash", "notify")
	cmd.Stdin = strings.NewReader(string(in))
	var eb strings.Builder
	cmd.Stderr = &eb
	cmd.ExtraFiles = []*os.File{cf, pw}
	cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1", "GOMAXPROCS=2")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return nil, false
	}
	cf.Close()
	pw.Close()
	kill := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	defer kill.Stop()
	conn.SetReadDeadline(time.Now().Add(60 * time.Second))
	nfd, err := recvFD(conn)
	if err != nil {
		cmd.Process.Kill()
		cmd.Wait()
		c.Count("children_without_notification", 1)
		return nil, false
	}
	defer syscall.Close(nfd)
	var out []instant
	seen := map[string]bool{}
	acks, nth, seq := 0, 0, 0
	var prev map[string]fileState
	var prevH [32]byte
	lastWrite := int64(0)
	killed := false
	add := func(t map[string]fileState, h [32]byte, call string) {
		op, done := -1, acks/2
		if acks%2 == 1 && done < len(j.Ops) {
			op = done
		}
		k := fmt.Sprintf("%x/%d/%d", h, op, done)
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, instant{t, call, nth, op, done, len(t)})
	}
	died := make(chan struct{})
	go func() { cmd.Wait(); close(died) }()
loop:
	for {
		if !waitNotif(nfd) {
			break
		}
		n, err := recvNotif(nfd)
		if err != nil {
			if err == syscall.ENOENT {
				select {
				case <-died:
					break loop
				default:
					continue
				}
			}
			break
		}
		if n.Nr == 1 && n.Args[0] == 4 {
			// The acknowledgement of the child.
			t, h := readTree(j.Dir)
			if h != prevH {
				prev, prevH = t, h
			}
			add(prev, prevH, "between")
			acks++
			nth = 0
			lastWrite = 0
			resume(nfd, n.ID)
			continue
		}
		t, h := readTree(j.Dir)
		if h != prevH {
			// A write may have been cut, most likely at a page.
			if lastWrite > 1 && prev != nil && killAt < 0 {
				for name, now := range t {
					was, ok := prev[name]
					if ok && !now.dir && !was.dir && now.data != was.data && !strings.HasPrefix(now.data, was.data) && len(now.data) >= len(was.data) {
						// Written over: the beginning is new, the rest
						// still old.
						for _, z := range []int{1 + seq%13, 1 + (seq*7919)%len(now.data), len(was.data) / 2, len(was.data) - 1 - seq%5} {
							if z <= 0 || z >= len(was.data) {
								continue
							}
							ct := map[string]fileState{}
							for k, v := range t {
								ct[k] = v
							}
							x := now
							x.data = now.data[:z] + was.data[z:]
							ct[name] = x
							add(ct, treeHash(ct), "torn over")
						}
						continue
					}
					if now.dir || len(now.data) <= len(was.data) || ok && !strings.HasPrefix(now.data, was.data) {
						continue
					}
					cuts := []int{}
					for z := (len(was.data)/4096 + 1) * 4096; z < len(now.data); z += 4096 {
						cuts = append(cuts, z)
					}
					// Or anywhere, on file systems with no room left.
					grown := len(now.data) - len(was.data)
					any := []int{1 + seq%13, 1 + (seq*7919)%grown, grown - 1 - seq%5}
					pages := len(cuts)
					for i, z := range any {
						if i > 0 && seq%3 > 0 {
							continue
						}
						if z > 0 && z < grown {
							cuts = append(cuts, len(was.data)+z)
						}
					}
					for i, z := range cuts {
						if i < pages && pages > 6 && i != 0 && i != pages-1 && i%(pages/4) != 0 {
							continue
						}
						ct := map[string]fileState{}
						for k, v := range t {
							ct[k] = v
						}
						x := now
						x.data = x.data[:z]
						ct[name] = x
						add(ct, treeHash(ct), "torn")
					}
				}
			}
			prev, prevH = t, h
		}
		add(t, h, watchedCalls[n.Nr])
		seq++
		nth++
		if killAt >= 0 && seq > killAt {
			cmd.Process.Kill()
			<-died
			killed = true
			t, h := readTree(j.Dir)
			out, seen = nil, map[string]bool{}
			add(t, h, "killed:"+watchedCalls[n.Nr])
			break
		}
		lastWrite = 0
		if n.Nr == 1 || n.Nr == 18 {
			lastWrite = int64(n.Args[2])
		}
		resume(nfd, n.ID)
	}
	if !killed {
		<-died
		if st := cmd.ProcessState; st.ExitCode() != 0 {
			if st.ExitCode() == 6 || st.ExitCode() == 7 {
				c.Violate("child:"+fmt.Sprint(st.ExitCode()), "the server in the child failed: "+trunc(eb.String(), 500), j.Ops)
			} else {
				c.Inconclusive("child failed")
				fmt.Fprintln(os.Stderr, "child:", st, trunc(eb.String(), 2000))
			}
			return nil, true
		}
		t, h := readTree(j.Dir)
		add(t, h, "end")
	}
	c.Count("file_changing_calls_observed", seq)
	return out, true
}

// judgeInstant restarts on the data and compares.  It returns the model
// the data shows.
func judgeInstant(c *Ctx, be string, in instant, models []*Model, ops []Op, names []string, label string) *Model {
	dir := filepath.Join(c.Scratch, fmt.Sprintf("cr%d", atomic.AddInt64(&worldSeq, 1)))
	defer func() { os.RemoveAll(dir) }()
	if err := writeTree(in.files, dir); err != nil {
		c.Inconclusive("cannot write the instant")
		return nil
	}
	kind := "start-up"
	if in.op >= 0 {
		kind = ops[in.op].K
	} else if in.done > 0 && in.done < len(ops) {
		kind = "between"
	} else if in.done >= len(ops) {
		kind = "shut-down"
	}
	replay := map[string]interface{}{"backend": be, "requests": ops, "in_flight": in.op, "finished": in.done, "killed_before": in.call, "call_number": in.nth, "history": label}
	fail := func(key, msg string) {
		c.Violate(be+":"+kind+":"+key, fmt.Sprintf("%s, killed before %s (call %d) during %s: %s", be, in.call, in.nth, kind, msg), replay)
	}
	w, err := NewWorld(c, WOpts{Backend: be, Dir: dir})
	if err != nil {
		fail("startup", "the server does not start: "+err.Error())
		return nil
	}
	defer w.DB.Shutdown()
	cands := []*Model{models[in.done]}
	if in.op >= 0 {
		cands = append(cands, models[in.op+1])
	}
	look := func(w *World, m *Model) (Flat, error) {
		auth := map[string]string{}
		for n, e := range m.E {
			auth[n] = e.Secret
		}
		return audit(w.Srv, w.Spy, names, names, auth)
	}
	var match *Model
	why := ""
	which := "?"
	for i, m := range cands {
		got, err := look(w, m)
		if err != nil {
			fail("RAW", err.Error())
			return nil
		}
		ds := diffFlat(m.Flatten(), got)
		if len(ds) == 0 {
			match = m
			which = []string{"old", "new"}[i]
			break
		}
		why += fmt.Sprintf(" [against %s: %s]", []string{"before", "after"}[i], trunc(ds[0].String(), 300))
	}
	c.EvalN(len(names), fmt.Sprintf("%s/%s/%s/%d/%s", be, kind, in.call, in.nth, which))
	c.Count("instants_judged", 1)
	c.Count("shows_"+which, 1)
	if match == nil {
		fail("state", "the data is neither as before nor as after the request in flight:"+why)
		return nil
	}
	m := match.Clone()
	// Searches see the same objects.
	for _, q := range []string{"EntitySearch", "GroupSearch"} {
		r := Exec(ctxNone(), w.Srv, Op{K: q, Key: "*"})
		want := sortedKeys(m.E)
		if q == "GroupSearch" {
			want = sortedKeys(m.G)
		}
		if got := append(entityNames(r.Ents), groupNames(r.Grps)...); !r.OK() || !sameStrings(want, got) {
			fail("search", fmt.Sprintf("%s lists %q, want %q (%s)", q, got, want, r.Err))
			return nil
		}
	}
	// The store is usable.
	use := []Op{{K: "EntityCreate", E: "after-crash", N: -1, S: "s"}, {K: "GroupCreate", G: "after-crash", N: -1}, {K: "GroupAddMember", E: "after-crash", G: "after-crash"}, {K: "EntityUM", E: "after-crash", Act: actUPSERT, Key: "k", Val: "v"}}
	if in.op >= 0 {
		o := ops[in.op]
		if o.E != "" && m.E[o.E] != nil {
			use = append(use, Op{K: "EntityUM", E: o.E, Act: actUPSERT, Key: "again", Val: "v"}, Op{K: "EntityDestroy", E: o.E}, Op{K: "EntityCreate", E: o.E, N: -1, S: "z"})
		} else if o.E != "" {
			use = append(use, Op{K: "EntityCreate", E: o.E, N: -1, S: "z"})
		}
		if o.G != "" && m.G[o.G] != nil {
			use = append(use, Op{K: "GroupUM", G: o.G, Act: actUPSERT, Key: "again", Val: "v"}, Op{K: "GroupDestroy", G: o.G}, Op{K: "GroupCreate", G: o.G, N: -1})
		} else if o.G != "" {
			use = append(use, Op{K: "GroupCreate", G: o.G, N: -1})
		}
	}
	cfg := &EngineCfg{Name: "after-crash", World: WOpts{Backend: be}, Names: names, AuditEvery: 1000}
	for i, o := range use {
		var f *stepFail
		w, f = cfg.step(c, w, m, i, o, true, true)
		if f != nil {
			fail("usable:"+f.kind, fmt.Sprintf("after the restart %s: %s", o.K, f.msg))
			return nil
		}
	}
	nw, err := w.Restart(in.nth%2 == 0)
	if err != nil {
		fail("startup", "the server does not start a second time: "+err.Error())
		return nil
	}
	defer func() { nw.DB.Shutdown(); os.RemoveAll(nw.Dir) }()
	got, err := look(nw, m)
	if err != nil {
		fail("RAW", err.Error())
		return nil
	}
	if ds := diffFlat(m.Flatten(), got); len(ds) > 0 {
		fail("second", "after a second restart: "+trunc(ds[0].String(), 400))
		return nil
	}
	return match
}

// crashHistory draws requests that succeed, and the states between.
func crashHistory(c *Ctx, r *rand.Rand, g *Gen, m0 *Model, w *World, n int, big bool) ([]Op, []*Model) {
	cfg := &EngineCfg{Name: "plan", World: WOpts{}, AuditEvery: 1000000, Names: union(g.E, g.G)}
	m := m0.Clone()
	models := []*Model{m0}
	ops := []Op{}
	for tries := 0; len(ops) < n && tries < 40*n; tries++ {
		o := g.Next(r, m, len(ops))
		if big && has("EntityUpdate GroupUM EntityUM", o.K) && r.Intn(2) == 0 {
			o.Val = strings.Repeat("v", 5000+r.Intn(60000))
			if o.K == "EntityUpdate" {
				o.M["Home"] = o.Val
			}
		}
		if x := m.PredictAuth(o, false); x.Want != wantOK || !mutating(o) {
			continue
		}
		if _, f := cfg.step(c, w, m, 1, o, true, true); f != nil {
			c.Inconclusive("plan: " + f.kind)
			return nil, nil
		}
		ops = append(ops, o)
		models = append(models, m.Clone())
	}
	return ops, models
}

func runP15(c *Ctx) {
	var broken int64
	for _, be := range []string{"filesystem", "bitcask"} {
		be := be
		c.Cases("crash-"+be, c.N(18, 700), func(i int, r *rand.Rand) {
			g := newGen(r, merge(GenW{"EntityCreate": 10, "GroupCreate": 8, "EntityDestroy": 7, "GroupDestroy": 6, "AuthChangeSecret": 5, "EntityLock": 3, "EntityUnlock": 1,
				"EntityUpdate": 6, "GroupUpdate": 5, "EntityUM": 5, "GroupUM": 4, "EntityKeys": 3, "EntityKVAdd": 3, "GroupKVAdd": 3, "EntityKVDel": 1, "GroupKVDel": 1,
				"GroupAddMember": 6, "GroupDelMember": 3, "GroupUpdateRules": 6, "SystemCapabilities": 4}), 4, 3)
			names := append(union(g.E, g.G), "after-crash")
			big := i%4 == 3 || be == "bitcask" && i%3 == 1
			plan, err := NewWorld(c, WOpts{Backend: "memory"})
			if err != nil {
				c.Inconclusive("plan world")
				return
			}
			dir := filepath.Join(c.Scratch, fmt.Sprintf("cb%d", atomic.AddInt64(&worldSeq, 1)))
			os.MkdirAll(dir, 0755)
			defer func() { os.RemoveAll(dir) }()
			m0 := newModel()
			// A population that is not under test.
			pre, pm := crashHistory(c, r, g, m0, plan, r.Intn(10), false)
			if pm == nil {
				return
			}
			w, err := NewWorld(c, WOpts{Backend: be, Dir: dir})
			if err != nil {
				c.Violate("startup-failed", err.Error(), nil)
				return
			}
			if be == "bitcask" && i%3 == 1 {
				// A data file that is full, or nearly, so that the
				// history goes on in another one.
				size := []int{1 << 20, 1 << 20, 1<<20 - 1<<15}[i/3%3]
				add := []Op{{K: "EntityCreate", E: "filler", N: -1, S: "s"}, {K: "EntityUM", E: "filler", Act: actUPSERT, Key: "fill", Val: strings.Repeat("f", size)},
					{K: "EntityDestroy", E: "filler"}}
				if r.Intn(2) == 0 {
					add = append(add, Op{K: "EntityCreate", E: "after-filling", N: -1, S: "s"}, Op{K: "EntityDestroy", E: "after-filling"})
				}
				pre = append(pre, add...)
				c.Count("histories_over_several_data_files", 1)
			}
			for _, o := range pre {
				if x := Exec(ctxRoot(), w.Srv, o); !x.OK() {
					c.Inconclusive("setup refused")
					w.DB.Shutdown()
					return
				}
			}
			w.DB.Shutdown()
			if len(pre) == 0 {
				// Nothing exists yet, not even the directories.
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
			}
			start, _ := readTree(dir)
			m0 = pm[len(pm)-1]
			label := "first"
			for round := 0; round < 2; round++ {
				ops, models := crashHistory(c, r, g, m0, plan, 5+r.Intn(6), big)
				if models == nil || len(ops) == 0 {
					return
				}
				j := crashJob{Scratch: c.Scratch, Dir: dir, Backend: be, Ops: ops, Shutdown: r.Intn(2) == 0}
				ins, ok := runCrashChild(c, j, -1)
				if !ok {
					atomic.AddInt64(&broken, 1)
					randomKills(c, be, start, j, models, names, r)
					return
				}
				if len(ins) == 0 {
					return
				}
				var pick *Model
				var pickI instant
				want := r.Intn(len(ins))
				for k, in := range ins {
					x := judgeInstant(c, be, in, models, ops, names, label)
					if x == nil {
						// Reported; the rest of this history would
						// repeat it.
						return
					}
					if k <= want {
						pick, pickI = x, in
					}
				}
				// Really kill it, at a few of the same instants.
				for k := 0; k < 2; k++ {
					os.RemoveAll(dir)
					if writeTree(start, dir) != nil {
						return
					}
					kin, ok := runCrashChild(c, j, r.Intn(5+3*len(ops)))
					if ok && len(kin) == 1 {
						c.Count("children_killed", 1)
						judgeInstant(c, be, kin[0], models, ops, names, label+", really killed")
					}
				}
				if c.NeedSample() {
					s := []string{}
					for _, in := range ins {
						s = append(s, fmt.Sprintf("%s in %d", in.call, in.op))
					}
					if len(s) > 20 {
						s = s[:20]
					}
					c.Sample(map[string]interface{}{"backend": be, "requests": len(ops), "instants": len(ins), "first_instants": s})
				}
				// A second life on what one of the kills left.
				label = fmt.Sprintf("second life after a kill before %s (call %d)", pickI.call, pickI.nth)
				start, m0 = pickI.files, pick
				os.RemoveAll(dir)
				if writeTree(start, dir) != nil {
					return
				}
				plan, err = NewWorld(c, WOpts{Backend: "memory"})
				if err != nil || !replant(plan, be, start, c) {
					c.Inconclusive("second plan")
					return
				}
			}
		})
	}
	if broken > 0 {
		c.Count("histories_with_random_kills_only", int(broken))
	}
}

// replant copies the records of a store into a memory world.
func replant(plan *World, be string, files map[string]fileState, c *Ctx) bool {
	d := filepath.Join(c.Scratch, fmt.Sprintf("rp%d", atomic.AddInt64(&worldSeq, 1)))
	defer os.RemoveAll(d)
	if writeTree(files, d) != nil {
		return false
	}
	w, err := NewWorld(c, WOpts{Backend: be, Dir: d})
	if err != nil {
		return false
	}
	defer w.DB.Shutdown()
	raw, err := w.Spy.Dump()
	if err != nil {
		return false
	}
	for k, v := range raw {
		if plan.Spy.under.Put(k, []byte(v)) != nil {
			return false
		}
	}
	return true
}

// randomKills kills the child at random times, for systems where it
// cannot be stopped at each call.
func randomKills(c *Ctx, be string, start map[string]fileState, j crashJob, models []*Model, names []string, r *rand.Rand) {
	self, _ := os.Executable()
	for k := 0; k < 6; k++ {
		os.RemoveAll(j.Dir)
		if writeTree(start, j.Dir) != nil {
			return
		}
		sf, _ := os.Open(os.DevNull)
		pr, pw, err := os.Pipe()
		if err != nil {
			return
		}
		in, _ := json.Marshal(j)
		cmd := exec.Command(self, "sub-crash", "free")
		cmd.Stdin = strings.NewReader(string(in))
		cmd.ExtraFiles = []*os.File{sf, pw}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if cmd.Start() != nil {
			return
		}
		pw.Close()
		sf.Close()
		stop := r.Intn(2 * len(j.Ops))
		b := make([]byte, 1)
		for a := 0; a <= stop; a++ {
			if _, err := pr.Read(b); err != nil {
				break
			}
		}
		time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		cmd.Process.Kill()
		cmd.Wait()
		n := stop + 1
		for {
			if _, err := pr.Read(b); err != nil {
				break
			}
			n++
		}
		pr.Close()
		t, _ := readTree(j.Dir)
		x := instant{files: t, call: "random", nth: n % 2, op: -1, done: n / 2}
		if n%2 == 1 && x.done < len(j.Ops) {
			x.op = x.done
		}
		if x.done > len(j.Ops) {
			x.done = len(j.Ops)
		}
		c.Count("children_killed", 1)
		judgeInstant(c, be, x, models, j.Ops, names, "random kill")
	}
}
