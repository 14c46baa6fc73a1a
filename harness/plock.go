//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The plugin that comes with the server and locks entities after
// repeated failures, as a program loaded by the daemon.

// f2l is the reference of one entity.
type f2l struct {
	sec    string
	locked bool
	reset  bool
	fails  [][2]time.Time // when each failure began and ended
}

// allow tells whether an attempt between t0 and t1 gets past the
// plugin: yes, no or either.
func (f *f2l) allow(t0, t1 time.Time, allowed int, iv time.Duration) int {
	if f.reset {
		return wantOK
	}
	lo, hi := 0, 0
	for _, x := range f.fails {
		if x[0].After(t1.Add(-iv).Add(5 * time.Millisecond)) {
			lo++
		}
		if x[1].After(t0.Add(-iv).Add(-5 * time.Millisecond)) {
			hi++
		}
	}
	switch {
	case lo >= allowed:
		return wantFail
	case hi < allowed:
		return wantOK
	}
	return wantAny
}

func lockConf(i int, r *rand.Rand) (s string, allowed int, iv time.Duration) {
	allowed, iv = 3, 15*time.Minute
	many := i%4 == 3
	if many || r.Intn(3) > 0 {
		allowed = 1 + r.Intn(4)
		if many {
			allowed = 5 + r.Intn(10)
		}
		s += fmt.Sprintf("allowed_fails = %d\n", allowed)
	}
	if r.Intn(2) == 0 {
		iv = oneOf(r, []time.Duration{time.Second, 1500 * time.Millisecond, time.Hour})
		if many {
			iv = time.Hour
		}
		s += fmt.Sprintf("interval = %q\n", iv)
	}
	if s != "" {
		s = "[plugin.fail2lock]\n" + s
	}
	return
}

func newLock(c *Ctx, be, conf string) (*e2e, bool) {
	x := newE2E(c, be)
	if x == nil {
		return nil, false
	}
	d := filepath.Join(x.dir, "data/plugins")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, "fail2lock.treeplugin")
	if os.Link(filepath.Join(c.Bin, "fail2lock"), p) != nil {
		b, err := os.ReadFile(filepath.Join(c.Bin, "fail2lock"))
		if err != nil || os.WriteFile(p, b, 0755) != nil {
			c.Inconclusive("cannot place the plugin")
			return nil, false
		}
	}
	x.extra = "[plugin]\nenabled = true\n" + conf
	if err := x.start("root:pw"); err != nil {
		c.Violate("start", err.Error(), nil)
		x.close()
		return nil, false
	}
	return x, true
}

// races in the plugin end up in the log of the daemon.
func (x *e2e) lockTrouble() string {
	s := x.out.String()
	for _, w := range []string{"DATA RACE", "fatal error:", "panic:"} {
		if i := strings.Index(s, w); i >= 0 {
			return w + ": " + trunc(s[i:], 1200)
		}
	}
	return ""
}

func lockHistory(c *Ctx, i int, r *rand.Rand, n int) {
	conf, allowed, iv := lockConf(i, r)
	x, ok := newLock(c, []string{"filesystem", "bitcask"}[i%2], conf)
	if !ok {
		return
	}
	defer x.close()
	log := []string{"configuration " + conf}
	fail := func(key, f string, a ...interface{}) bool {
		c.Violate(key, trunc(fmt.Sprintf(f, a...), 1500), map[string]interface{}{"backend": x.be, "history": tailLog(log, 40)})
		return false
	}
	es := map[string]*f2l{}
	req := func(o Op) bool {
		q := Exec(ctxRoot(), x.w, o)
		log = append(log, fmt.Sprintf("%s: %s", o, resStr(q)))
		if !q.OK() {
			return fail("request:"+o.K, "%s: %s %s", o, resStr(q), x.lockTrouble())
		}
		return true
	}
	ids := []string{"u", "U", "v.w"}
	for k := []int{0, 0, 3, 12}[r.Intn(4)]; k > 0; k-- {
		ids = append(ids, fmt.Sprintf("u%d", k))
	}
	for _, n := range ids {
		if !req(Op{K: "EntityCreate", E: n, S: "s-" + n, N: -1}) {
			return
		}
		es[n] = &f2l{sec: "s-" + n}
		if r.Intn(2) == 0 && !req(Op{K: "EntityUM", E: n, Act: actUPSERT, Key: "fail2lockx", Val: "RESET"}) {
			return
		}
	}
	names := sortedKeys(es)
	slept := 0
	script, who := "", "" // steps still to come, all about one entity
	for k := 0; k < n || script != ""; k++ {
		id := oneOf(r, names)
		a, bad := r.Intn(20), r.Intn(2) == 0
		if script == "" && (k == 0 || r.Intn(12) == 0) {
			some := strings.Repeat("f", allowed-1)
			pool := []string{some + "fSRfXS", some + "fSRfs", some + "s" + some + "s", some + "fSXS", some + "sfXs",
				some + "fooooooS", "o" + strings.Repeat("fo", allowed) + "S", some + "ooooos", some + "soooo" + some + "fS"}
			if iv < time.Minute && slept < 4 {
				slept += 2
				pool = []string{"fw" + some + "wfSS", some + "fwSwS", "fwfw" + some + "S", some + "wfwsS"}
			}
			script, who = oneOf(r, pool), id
			log = append(log, fmt.Sprintf("script %q for %q", script, who))
		}
		if script != "" {
			id = who
			switch script[0] {
			case 'o':
				// Another entity fails.
				a, bad = 19, true
				id = oneOf(r, names)
				for id == who {
					id = oneOf(r, names)
				}
			case 'f', 's', 'S':
				a, bad = 19, script[0] == 'f'
			case 'R':
				a = 0
			case 'X':
				a = 1
			case 'w':
				a = 20
			}
			script = script[1:]
		}
		e := es[id]
		switch {
		case a == 20:
			d := iv * 55 / 100
			log = append(log, fmt.Sprintf("wait %v", d))
			time.Sleep(d)
		case a == 0:
			if !req(Op{K: "EntityUM", E: id, Act: actUPSERT, Key: "fail2lock", Val: "RESET"}) {
				return
			}
			e.reset = true
		case a == 1:
			if !req(Op{K: "EntityUM", E: id, Act: actUPSERT, Key: "fail2lock", Val: oneOf(r, []string{"", "reset", "no", "RESETx", "xRESET", "RESE", "Reset"})}) {
				return
			}
			e.reset = false
		case a == 2:
			o := Op{K: "EntityLock", E: id}
			if e.locked {
				o.K = "EntityUnlock"
			}
			if !req(o) {
				return
			}
			e.locked = !e.locked
		case a == 3:
			e.sec = fmt.Sprintf("s%d", k)
			if !req(Op{K: "AuthChangeSecret", E: id, S2: e.sec}) {
				return
			}
		case a == 4 && iv < time.Minute && slept < 4:
			d := iv/2 + time.Duration(r.Intn(1000))*time.Millisecond
			slept++
			log = append(log, fmt.Sprintf("wait %v", d))
			time.Sleep(d)
		case a == 5 && r.Intn(2) == 0:
			if err := x.stop(syscall.SIGTERM); err != nil {
				fail("stop", "the daemon ended with %v: %s", err, tail(x.out.String(), 600))
				return
			}
			if err := x.start(""); err != nil {
				fail("start", "%v", err)
				return
			}
			log = append(log, "restart")
			// Failures are remembered in memory only.
			for _, e := range es {
				e.fails = nil
			}
		default:
			o := Op{K: oneOf(r, []string{"AuthEntity", "AuthGetToken", "AuthEntity"}), E: id, S: e.sec}
			if bad {
				o.S = oneOf(r, []string{"", "x", "wrong", e.sec + "x"})
			}
			right := o.S == e.sec && !e.locked
			if a != 19 && r.Intn(18) == 0 {
				o.E, right = "nobody", false
			}
			t0 := time.Now()
			q := Exec(ctxNone(), x.w, o)
			t1 := time.Now()
			log = append(log, fmt.Sprintf("%v %s: %s", t0.Format("05.000"), o, resStr(q)))
			c.Count("authentications", 1)
			if o.E == "nobody" {
				if q.OK() {
					fail("nobody", "%s succeeded", o)
					return
				}
				continue
			}
			al := e.allow(t0, t1, allowed, iv)
			want := al
			if !right {
				want = wantFail
			}
			if (want == wantOK && !q.OK()) || (want == wantFail && q.OK()) {
				fail(fmt.Sprintf("result:%v", q.OK()), "%s: %s; %d failures on record, %d allowed within %v, right secret and not locked: %v, reset asked: %v %s", o, resStr(q), len(e.fails), allowed, iv, right, e.reset, x.lockTrouble())
				return
			}
			c.Eval(fmt.Sprintf("%s/%v/right=%v/past=%v/reset=%v/allowed=%d/%v", o.K, q.OK(), right, al, e.reset, allowed, iv))
			switch {
			case e.reset:
				e.fails = nil
				if q.OK() {
					e.reset = false
				}
			case q.OK():
				e.fails = nil
			case al == wantOK:
				e.fails = append(e.fails, [2]time.Time{t0, t1})
			case al == wantAny:
				// Unclear whether it was counted: forget the entity.
				es[id] = &f2l{sec: e.sec, locked: e.locked, reset: true}
				if !req(Op{K: "EntityUM", E: id, Act: actUPSERT, Key: "fail2lock", Val: "RESET"}) {
					return
				}
			}
			// The record itself: never locked by the plugin, and the
			// request for a reset is gone once it was honoured.
			w := []string{}
			if e := es[id]; e.reset {
				w = append(w, "fail2lock:RESET")
			}
			u := Exec(ctxNone(), x.w, Op{K: "EntityUM", E: id, Act: actREAD, Key: "fail2lock"})
			got := []string{}
			for _, s := range u.Strs {
				if s == "fail2lock:RESET" {
					got = append(got, s)
				}
			}
			if qlist(got) != qlist(w) {
				fail("reset", "after %s (%s) the metadata of %q holds %v, want %v", o, resStr(q), id, got, w)
				return
			}
			in := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: id})
			if !in.OK() || in.Ents[0].GetMeta().GetLocked() != e.locked {
				fail("locked", "after %s (%s) %q is locked: %v, want %v", o, resStr(q), id, in.Ents, e.locked)
				return
			}
		}
		if s := x.lockTrouble(); s != "" {
			fail("trouble", "%s", s)
			return
		}
		if st := x.status(); st == nil || !st.GetSystemOK() {
			fail("status", "the status is %v", st)
			return
		}
	}
	if c.NeedSample() {
		c.Sample(map[string]interface{}{"configuration": conf, "history": log[:8]})
	}
	x.stop(syscall.SIGTERM)
}

// lockOverlap authenticates several entities at the same time.
func lockOverlap(c *Ctx, i int, r *rand.Rand) {
	x, ok := newLock(c, []string{"filesystem", "bitcask"}[i%2], "[plugin.fail2lock]\nallowed_fails = 2\n")
	if !ok {
		return
	}
	defer x.close()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		seed := r.Int63()
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for round := 0; round < 4; round++ {
				id := fmt.Sprintf("o%d-%d", g, round)
				if q := Exec(ctxRoot(), x.w, Op{K: "EntityCreate", E: id, S: "s", N: -1}); !q.OK() {
					c.Violate("overlap-create", fmt.Sprintf("creating %q: %s %s", id, resStr(q), x.lockTrouble()), nil)
					return
				}
				fails := 0
				for k := 0; k < 12; k++ {
					o := Op{K: "AuthEntity", E: id, S: oneOf(r, []string{"s", "s", "w"})}
					q := Exec(ctxNone(), x.w, o)
					want := fails < 2 && o.S == "s"
					if q.OK() != want {
						c.Violate("overlap", fmt.Sprintf("with overlapping requests for others, %s after %d failures: %s %s", o, fails, resStr(q), x.lockTrouble()), nil)
						return
					}
					c.Eval(fmt.Sprintf("overlap/%v/%d", q.OK(), fails))
					if q.OK() {
						fails = 0
					} else {
						fails++
					}
				}
			}
		}(g)
	}
	wg.Wait()
	if s := x.lockTrouble(); s != "" {
		c.Violate("trouble", s, nil)
	}
	if st := x.status(); st == nil || !st.GetSystemOK() {
		c.Violate("status", fmt.Sprintf("after overlapping authentications the status is %v", st), nil)
	}
	x.stop(syscall.SIGTERM)
	if s := x.lockTrouble(); s != "" {
		c.Violate("trouble", s, nil)
	}
}

func init() {
	register(&Check{
		ID: "P31", MinEvals: 500,
		Rule: "a situation is (request, outcome, right secret?, what the failures on record allow, reset asked?, configuration), or overlapping authentications after so many failures",
		Run: func(c *Ctx) {
			c.Cases("histories", c.N(16, 1200), func(i int, r *rand.Rand) { lockHistory(c, i, r, 80) })
			c.Cases("overlap", c.N(4, 200), func(i int, r *rand.Rand) { lockOverlap(c, i, r) })
		},
	})
}
