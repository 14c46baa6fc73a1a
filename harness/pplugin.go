//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"golang.org/x/crypto/bcrypt"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// Plugins as programs, loaded by the daemon.

// pcall is one line of a plugin's log.
type pcall struct {
	T   int64
	P   string
	Pid int
	A   string
	E   string
	De  string
	G   string
	Did string
}

// porder tells a plugin what to do.
type porder struct{ A, Do, Arg string }

type plugHost struct {
	x    *e2e
	dir  string // of logs and orders
	pdir string // of plugins
	off  map[string]int64
	// The plugins that are loaded.
	on []string
	// All orders by plugin.
	ord map[string][]porder
}

func newPlugHost(c *Ctx, be string) *plugHost {
	x := newE2E(c, be)
	if x == nil {
		return nil
	}
	h := &plugHost{x: x, dir: filepath.Join(x.dir, "plog"), off: map[string]int64{}, ord: map[string][]porder{}}
	os.MkdirAll(h.dir, 0755)
	x.env = []string{"VPLUG_DIR=" + h.dir}
	return h
}

// configure puts plugins in place. How they are announced varies:
// discovered in the default directory, in another, or listed.
func (h *plugHost) configure(r *rand.Rand, enabled bool, broken bool, names ...string) (string, error) {
	for _, d := range []string{"data/plugins", "data/more", "elsewhere"} {
		os.RemoveAll(filepath.Join(h.x.dir, d))
	}
	how := oneOf(r, []string{"default", "relative", "absolute", "static"})
	d := map[string]string{"default": "data/plugins", "relative": "data/more", "absolute": "elsewhere", "static": "elsewhere"}[how]
	h.pdir = filepath.Join(h.x.dir, d)
	if err := os.MkdirAll(h.pdir, 0755); err != nil {
		return "", err
	}
	list := []string{}
	put := func(n string) string {
		p := filepath.Join(h.pdir, n+".treeplugin")
		list = append(list, p)
		return p
	}
	for _, n := range names {
		if err := os.Link(filepath.Join(h.x.c.Bin, "plugin"), put(n)); err != nil {
			b, err := os.ReadFile(filepath.Join(h.x.c.Bin, "plugin"))
			if err != nil {
				return "", err
			}
			if err := os.WriteFile(filepath.Join(h.pdir, n+".treeplugin"), b, 0755); err != nil {
				return "", err
			}
		}
	}
	if broken {
		if err := os.WriteFile(put("broken"), []byte("#!/bin/sh\nexit 1\n"), 0755); err != nil {
			return "", err
		}
		if how == "static" {
			put("missing")
			os.Remove(filepath.Join(h.pdir, "missing.treeplugin"))
		}
	}
	s := fmt.Sprintf("[plugin]\nenabled = %v\n", enabled)
	switch how {
	case "relative":
		s += "path = \"more\"\n"
	case "absolute":
		s += fmt.Sprintf("path = %q\n", h.pdir)
	case "static":
		r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		b, _ := json.Marshal(list)
		s += "loadstatic = true\nlist = " + string(b) + "\n"
		// A file that is not listed is not loaded.
		os.Link(filepath.Join(h.x.c.Bin, "plugin"), filepath.Join(h.pdir, "unlisted.treeplugin"))
	default:
		// Neither is one of another kind.
		os.Link(filepath.Join(h.x.c.Bin, "plugin"), filepath.Join(h.pdir, "other.plugin"))
	}
	h.x.extra = s
	h.on = nil
	if enabled {
		h.on = append([]string{}, names...)
	}
	sort.Strings(h.on)
	return how, nil
}

// calls returns what was logged since last time, oldest first.
func (h *plugHost) calls() ([]pcall, error) {
	out := []pcall{}
	l, _ := filepath.Glob(filepath.Join(h.dir, "*.log"))
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		n := b[h.off[f]:]
		h.off[f] = int64(len(b))
		for _, ln := range bytes.Split(n, []byte("\n")) {
			if len(ln) == 0 {
				continue
			}
			var k pcall
			if err := json.Unmarshal(ln, &k); err != nil {
				return nil, fmt.Errorf("plugin log: %q", ln)
			}
			out = append(out, k)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].T < out[j].T })
	return out, nil
}

// order tells the plugins what to do in the next request.
func (h *plugHost) order(o map[string][]porder) {
	for _, n := range []string{"alpha", "beta", "gamma"} {
		f := filepath.Join(h.dir, n+".ctl")
		if len(o[n]) == 0 {
			os.Remove(f)
			continue
		}
		b, _ := json.Marshal(o[n])
		os.WriteFile(f, b, 0644)
	}
	h.ord = o
}

func decEnt(s string) *types.Entity {
	b, _ := base64.StdEncoding.DecodeString(s)
	e := &types.Entity{}
	if proto.Unmarshal(b, e) != nil {
		return nil
	}
	return e
}

func decGrp(s string) *types.Group {
	b, _ := base64.StdEncoding.DecodeString(s)
	g := &types.Group{}
	if proto.Unmarshal(b, g) != nil {
		return nil
	}
	return g
}

// entryPoints are the plugin entry points of a request, in order; the
// first pre come before the built-in step.
func entryPoints(o Op, self bool) (points []string, pre int) {
	switch o.K {
	case "EntityCreate", "EntityLock", "EntityUnlock", "EntityDestroy", "EntityUpdate", "GroupCreate", "GroupUpdate", "GroupDestroy":
		return []string{o.K}, 0
	case "EntityUM":
		if o.Act != actREAD {
			return []string{"EntityUpdate"}, 0
		}
	case "GroupUM":
		if o.Act != actREAD {
			return []string{"GroupUpdate"}, 0
		}
	case "AuthEntity", "AuthGetToken":
		return []string{"PreAuthCheck", "PostAuthCheck"}, 1
	case "AuthChangeSecret":
		if self {
			return []string{"PreAuthCheck", "PostAuthCheck", "PreSecretChange", "PostSecretChange"}, 3
		}
		return []string{"PreSecretChange", "PostSecretChange"}, 1
	}
	return nil, 0
}

// applyOrders does to the reference what a plugin was told to do.
func applyOrders(ords []porder, name, a string, e *MEnt, g *MGrp, gname string) {
	for _, o := range ords {
		if o.A != a {
			continue
		}
		switch o.Do {
		case "mark":
			if e != nil {
				e.UM["vp-"+name+"-"+a] = o.Arg
			} else {
				g.UM["vp-"+name+"-"+a] = o.Arg
			}
		case "set":
			if e != nil {
				e.Meta["Shell"] = o.Arg
			} else {
				g.Disp = o.Arg
			}
		case "clear":
			if e != nil {
				delete(e.Meta, "GECOS")
				e.UM, e.Groups = map[string]string{}, map[string]bool{}
			} else {
				g.Disp, g.UM = "", map[string]string{}
			}
		case "lock":
			e.Locked = true
		case "unlock":
			if e != nil {
				e.Locked = false
			}
		case "more":
			kv := fmt.Sprintf("%q@2,\"\",", o.Arg)
			if e != nil {
				e.KV["vp-"+name] = kv
				e.Caps[capLock] = true
				e.Keys["VP:"+name] = true
				if a != "EntityCreate" {
					e.Num += 1000
				}
			} else {
				g.KV["vp-"+name] = kv
				g.Caps[capLock] = true
				g.Man = gname
				if a != "GroupCreate" {
					g.Num += 1000
				}
			}
		}
	}
}

var plugW = merge(wBase, wLife, wMemb, wAttr, wMeta, wSec, wCap, GenW{"EntityCreate": 6, "EntityDestroy": 4, "EntityLock": 6, "EntityUnlock": 6, "EntityUpdate": 8, "EntityUM": 8, "GroupUM": 8, "GroupUpdate": 8, "GroupCreate": 6, "GroupDestroy": 4, "AuthEntity": 10, "AuthGetToken": 5, "AuthChangeSecret": 12})

// plugHistory is a random history with plugins observing, changing and
// refusing.
func plugHistory(c *Ctx, i int, r *rand.Rand, n int) {
	h := newPlugHost(c, []string{"filesystem", "bitcask"}[i%2])
	if h == nil {
		return
	}
	x := h.x
	defer x.close()
	m := newModel()
	log := []string{}
	fail := func(key, f string, a ...interface{}) {
		c.Violate(key, trunc(fmt.Sprintf(f, a...), 1500), map[string]interface{}{"backend": x.be, "plugins": h.on, "history": tailLog(log, 60)})
	}
	pids := []int{}
	pidOf := map[string]int{}
	cfg := ""
	start := func(boot string) bool {
		names := append([]string{}, []string{"alpha", "beta", "gamma"}[:[]int{0, 1, 1, 2, 3}[r.Intn(5)]]...)
		enabled := r.Intn(6) > 0
		broken := r.Intn(4) == 0
		how, err := h.configure(r, enabled, broken, names...)
		if err != nil {
			c.Inconclusive(err.Error())
			return false
		}
		cfg = fmt.Sprintf("enabled=%v/%d/broken=%v/%s", enabled, len(names), broken, how)
		log = append(log, "start "+cfg)
		h.order(nil)
		h.calls()
		if err := x.start(boot); err != nil {
			fail("start", "%v", err)
			return false
		}
		ks, err := h.calls()
		if err != nil {
			fail("log", "%v", err)
			return false
		}
		started := []string{}
		pids = nil
		for _, k := range ks {
			if k.A != "start" {
				fail("call:start", "plugin %s was called at %s while the server started", k.P, k.A)
				return false
			}
			started = append(started, k.P)
			pids = append(pids, k.Pid)
			pidOf[k.P] = k.Pid
		}
		if qlist(started) != qlist(h.on) {
			fail("loaded", "the plugins %v were started, want %v (%s)", started, h.on, cfg)
			return false
		}
		st := x.status()
		if st == nil {
			fail("status", "the server does not tell its status (%s): %s", cfg, tail(x.out.String(), 800))
			return false
		}
		if broken && enabled && st.GetSystemOK() {
			fail("status-broken", "a plugin could not be started, and the status is good (%s): %v", cfg, st)
			return false
		}
		if !(broken && enabled) && !st.GetSystemOK() {
			fail("status-good", "all plugins run, and the status is bad (%s): %v", cfg, st)
			return false
		}
		c.Eval("start/" + cfg)
		return true
	}
	stop := func(sig syscall.Signal) bool {
		if err := x.stop(sig); err != nil {
			fail("stop", "the daemon ended with %v after signal %v: %s", err, sig, tail(x.out.String(), 600))
			return false
		}
		if sig != syscall.SIGKILL {
			for _, p := range pids {
				for k := 0; syscall.Kill(p, 0) == nil && !zombie(p); k++ {
					if k > 200 {
						fail("left", "the daemon ended on signal %v and left its plugin (process %d) behind", sig, p)
						syscall.Kill(p, syscall.SIGKILL)
						return false
					}
					time.Sleep(20 * time.Millisecond)
				}
			}
		} else {
			for _, p := range pids {
				syscall.Kill(p, syscall.SIGKILL)
			}
		}
		pids = nil
		return true
	}
	defer func() {
		x.kill()
		for _, p := range pids {
			syscall.Kill(p, syscall.SIGKILL)
		}
	}()
	if !start("root:pw") {
		return
	}
	m.E["root"] = newMEnt(0, "pw")
	m.E["root"].Caps[capRoot] = true
	if q := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: "root"}); q.OK() {
		m.E["root"].Num = q.Ents[0].GetNumber()
	}
	g := newGen(r, plugW, 2+r.Intn(3), 2+r.Intn(2))
	g.X = 0
	names := append([]string{"root"}, g.E...)
	dead := ""
	for k := 0; k < n; k++ {
		if dead == "" && len(h.on) > 0 && r.Intn(60) == 0 {
			// A plugin is lost for a reason of its own.
			p := oneOf(r, h.on)
			if id := pidOf[p]; id > 0 {
				log = append(log, "kill plugin "+p)
				syscall.Kill(id, syscall.SIGKILL)
				for j := 0; j < 500 && syscall.Kill(id, 0) == nil && !zombie(id); j++ {
					time.Sleep(10 * time.Millisecond)
				}
				dead = p
				ok := false
				for j := 0; j < 200 && !ok; j++ {
					if st := x.status(); st != nil && !st.GetSystemOK() {
						ok = true
						break
					}
					time.Sleep(10 * time.Millisecond)
				}
				if !ok {
					fail("status-dead", "plugin %s was killed, and the status is %v", dead, x.status())
					return
				}
				c.Eval("killed/" + fmt.Sprint(len(h.on)))
			}
		}
		if k > 0 && (r.Intn(20) == 0 || (dead != "" && r.Intn(3) == 0)) {
			if dead == "" && len(h.on) > 0 && len(m.E) > 0 && r.Intn(2) == 0 {
				// A request is with the plugins when the server is told
				// to end.
				p := oneOf(r, h.on)
				o := Op{K: "EntityUpdate", E: oneOf(r, sortedKeys(m.E)), M: map[string]string{"Home": fmt.Sprintf("/h%d", k)}, Cred: credStr("root-by-token", capRoot)}
				h.order(map[string][]porder{p: {{"EntityUpdate", "sleep", "300ms"}}})
				sig := oneOf(r, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT})
				log = append(log, fmt.Sprintf("%s in progress at signal %v", o, sig))
				entered := filepath.Join(h.dir, p+".entered")
				os.Remove(entered)
				ans := make(chan Res, 1)
				go func() { ans <- Exec(parseCred(o.Cred).ctx(), x.w, o) }()
				for j := 0; j < 2000; j++ {
					if _, err := os.Stat(entered); err == nil {
						break
					}
					time.Sleep(5 * time.Millisecond)
				}
				x.cmd.Process.Signal(sig)
				res := <-ans
				h.order(nil)
				mm := m.Clone()
				w := mm.PredictAuth(o, false)
				if !res.OK() || w.Apply == nil {
					fail("in-progress", "%s was with plugin %s when signal %v told the server to end: %s", o, p, sig, resStr(res))
					return
				}
				w.Apply(res)
				m = mm
				c.Eval(fmt.Sprintf("in-progress/%v/%d", sig, len(h.on)))
				c.Count("requests in progress when the server was told to end", 1)
			}
			if !stop(oneOf(r, []syscall.Signal{syscall.SIGTERM, syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL})) {
				return
			}
			dead = ""
			if !start("") {
				return
			}
			if !x.check(m, names, g.G, false, "restart", log) {
				return
			}
		}
		o := g.Next(r, m, k)
		if strings.HasPrefix(o.Key, "vp-") {
			continue
		}
		who := "root-by-token"
		if o.K == "AuthChangeSecret" && r.Intn(2) == 0 && m.E[o.E] != nil {
			who = o.E
			if r.Intn(4) > 0 {
				o.S = m.E[o.E].Secret
			}
			o.Cred = credStr(who)
		} else {
			o.Cred = credStr(who, capRoot)
		}
		if has("AuthEntity AuthGetToken", o.K) && m.E[o.E] != nil && r.Intn(3) > 0 {
			o.S = m.E[o.E].Secret
		}
		if !mutating(o) {
			o.Cred = "none"
		}
		self := who == o.E
		points, pre := entryPoints(o, self)
		want := m.PredictAuth(o, false)
		if o.K == "AuthEntity" || o.K == "AuthGetToken" {
			e := m.E[o.E]
			want = Expect{Want: wantFail, Why: "cannot authenticate"}
			if e != nil && !e.Locked && e.Secret == o.S {
				want = Expect{Want: wantOK}
			}
		}
		if want.Want == wantAny && len(points) > 0 {
			continue
		}
		// What the plugins are to do.
		ord := map[string][]porder{}
		refuse, refuser, lockAt := -1, "", -1
		if len(points) > 0 && r.Intn(3) > 0 && dead == "" {
			for _, p := range h.on {
				for j, a := range points {
					if self && j < 2 && o.K == "AuthChangeSecret" {
						continue
					}
					switch r.Intn(7) {
					case 5:
						if a != "PreAuthCheck" {
							ord[p] = append(ord[p], porder{a, "unlock", ""})
						}
					case 6:
						ord[p] = append(ord[p], porder{a, "more", fmt.Sprintf("v%d", k)})
					case 0, 1:
						ord[p] = append(ord[p], porder{a, "mark", fmt.Sprintf("m%d", k)})
					case 2:
						ord[p] = append(ord[p], porder{a, "set", oneOf(r, []string{"", fmt.Sprintf("s%d", k)})})
					case 3:
						if r.Intn(4) == 0 {
							ord[p] = append(ord[p], porder{a, "clear", ""})
						}
					}
				}
			}
			if len(h.on) > 0 && r.Intn(3) == 0 {
				refuse = r.Intn(len(points))
				if self && o.K == "AuthChangeSecret" && refuse > 0 {
					refuse = 0
				}
				refuser = oneOf(r, h.on)
				do := "fail"
				if r.Intn(8) == 0 {
					do = oneOf(r, []string{"exit", "panic"})
				}
				ord[refuser] = append(ord[refuser], porder{points[refuse], do, oneOf(r, []string{"no", "", "unknown entity", "EOF"})})
				if do == "fail" && r.Intn(3) == 0 {
					for _, p := range h.on {
						ord[p] = append(ord[p], porder{points[refuse], do, "also"})
					}
				}
			} else if len(h.on) > 0 && points[0] == "PreAuthCheck" && !self && r.Intn(5) == 0 {
				p := oneOf(r, h.on)
				ord[p] = append(ord[p], porder{"PreAuthCheck", "lock", ""})
				lockAt = 0
			} else if len(h.on) > 0 && points[0] == "PreAuthCheck" && !self && m.E[o.E] != nil && m.E[o.E].Locked && r.Intn(2) == 0 {
				p := oneOf(r, h.on)
				ord[p] = append(ord[p], porder{"PreAuthCheck", "unlock", ""})
				if m.E[o.E].Secret == o.S {
					want = Expect{Want: wantOK}
				}
			}
		}
		h.order(ord)
		if _, err := h.calls(); err != nil {
			fail("log", "%v", err)
			return
		}
		log = append(log, fmt.Sprintf("%s %v", o, ord))
		maxE, maxG := m.maxENum(), m.maxGNum()
		res := Exec(parseCred(o.Cred).ctx(), x.w, o)
		ks, err := h.calls()
		if err != nil {
			fail("log", "%v", err)
			return
		}
		c.Count("requests", 1)
		c.Count("plugin calls", len(ks))
		got := map[string][]string{}
		for _, q := range ks {
			got[q.P] = append(got[q.P], q.A)
		}
		tag := o.K
		// Who must have been called, and how far it went.
		okWant := want.Want == wantOK && refuse < 0 && lockAt < 0 && !(dead != "" && len(points) > 0)
		last := len(points) // entry points reached: all of points[:last]
		switch {
		case want.Want == wantFail:
			last = 0
			if points != nil && points[0] == "PreAuthCheck" && m.E[o.E] != nil {
				last = 1
			}
		case lockAt >= 0:
			last = 1
		}
		if refuse >= 0 && refuse < last {
			last = refuse + 1
		} else if refuse >= 0 {
			refuse = -1 // never got there
		}
		if dead != "" && len(points) > 0 {
			// The others may be called before the dead one.
			if res.OK() {
				fail("dead:"+tag, "plugin %s is gone, and %s succeeded", dead, o)
				return
			}
			if len(ks) > 2 {
				fail("dead-calls:"+tag, "plugin %s is gone, and the others were called at %v", dead, got)
				return
			}
			if !x.check(m, names, g.G, false, "a request while a plugin is gone", log) {
				return
			}
			c.Eval("dead/" + tag)
			c.Count("requests to a server that lost a plugin", 1)
			continue
		}
		for _, p := range union(h.on, sortedKeys(got)) {
			w := points[:last]
			a := got[p]
			isOn := has(strings.Join(h.on, " "), p)
			if !isOn {
				w = nil
			}
			if refuse >= 0 && last == refuse+1 && len(a) == refuse && p != refuser {
				w = points[:refuse] // another one refused first
			}
			if refuse >= 0 && p == refuser && len(a) == refuse && len(ord) > 1 {
				// Another may have refused first.
				for q, l := range ord {
					for _, y := range l {
						if q != p && y.A == points[refuse] && y.Do == "fail" && len(got[q]) == refuse+1 {
							w = points[:refuse]
						}
					}
				}
			}
			if strings.Join(a, ",") != strings.Join(w, ",") {
				fail("calls:"+tag, "%s (%s): plugin %s was called at %v, want %v", o, resStr(res), p, a, w)
				return
			}
		}
		if okWant != res.OK() {
			if want.Want == wantAny {
				okWant = res.OK()
			} else {
				fail("result:"+tag, "%s with plugins told %v: %s, want success=%v %s", o, ord, resStr(res), okWant, want.Why)
				return
			}
		}
		// What they saw, and what becomes of it.
		mm := m.Clone()
		var cur func() (*MEnt, *MGrp)
		cur = func() (*MEnt, *MGrp) {
			if strings.HasPrefix(o.K, "Group") {
				return nil, mm.G[o.G]
			}
			return mm.E[o.E], nil
		}
		applied := false
		apply := func() bool {
			applied = true
			w2 := want
			if o.K != "AuthEntity" && o.K != "AuthGetToken" {
				w2 = mm.PredictAuth(o, false)
			}
			destroy := has("EntityDestroy GroupDestroy", o.K)
			if w2.Apply != nil && !destroy {
				if err := w2.Apply(res); err != nil {
					fail("answer:"+tag, "%s: %v", o, err)
					return false
				}
			}
			return true
		}
		var autoE, autoG int32 = -1, -1
		for _, q := range ks {
			j := 0
			for j < len(points) && points[j] != q.A {
				j++
			}
			if j >= pre && !applied && want.Want == wantOK {
				if !apply() {
					return
				}
			}
			e, gr := cur()
			if e == nil && gr == nil {
				fail("object:"+tag, "%s: plugin %s was called at %s although the object does not exist", o, q.P, q.A)
				return
			}
			want, got := Flat{}, Flat{}
			if gr != nil {
				b := decGrp(q.G)
				if b == nil {
					fail("arg:"+tag, "%s: plugin %s at %s got an undecodable group", o, q.P, q.A)
					return
				}
				if o.K == "GroupCreate" && o.N == -1 {
					gr.Num = b.GetNumber()
					autoG = b.GetNumber()
				}
				flatGroup(got, "", b)
				got["id"] = b.GetName()
				one := newModel()
				one.G[o.G] = gr
				for k, v := range one.Flatten() {
					if s, ok := strings.CutPrefix(k, "G/"+o.G+"/"); ok && !has("exists members", s) {
						want[s] = v
					}
				}
				want["id"] = o.G
			} else {
				b := decEnt(q.E)
				if b == nil {
					fail("arg:"+tag, "%s: plugin %s at %s got an undecodable entity", o, q.P, q.A)
					return
				}
				if o.K == "EntityCreate" && o.N == -1 {
					e.Num = b.GetNumber()
					autoE = b.GetNumber()
				}
				flatEntity(got, "", b)
				got["id"] = b.GetID()
				one := newModel()
				one.E[o.E] = e
				for k, v := range one.Flatten() {
					if s, ok := strings.CutPrefix(k, "E/"+o.E+"/"); ok && !has("exists eff auth", s) {
						want[s] = v
					}
				}
				want["id"] = o.E
				// The protected secret is the one in force at this point.
				sec := m.E[o.E].secretOr("")
				if j >= pre && has("EntityCreate AuthChangeSecret", o.K) {
					sec = e.Secret
				}
				if bcrypt.CompareHashAndPassword([]byte(b.GetSecret()), []byte(sec)) != nil {
					fail("secret:"+tag, "%s: plugin %s at %s got an entity whose secret is not the one in force (%q)", o, q.P, q.A, sec)
					return
				}
				// The data that comes along.
				if q.De != "" {
					d := decEnt(q.De)
					w := o.S
					if o.K == "AuthChangeSecret" && j >= len(points)-2 {
						w = o.S2
					}
					if d.GetID() != o.E || d.GetSecret() != w {
						fail("data:"+tag, "%s: plugin %s at %s got the data %q/%q, want %q/%q", o, q.P, q.A, d.GetID(), d.GetSecret(), o.E, w)
						return
					}
				}
			}
			if ds := diffFlat(want, got); len(ds) > 0 {
				fail("seen:"+tag+":"+q.A, "%s: plugin %s at %s: %s", o, q.P, q.A, ds[0])
				return
			}
			applyOrders(ord[q.P], q.P, q.A, e, gr, o.G)
			c.Eval(fmt.Sprintf("%s/%s/%s/%d", tag, q.A, q.Did, len(h.on)))
		}
		if !applied && okWant {
			if !apply() {
				return
			}
		}
		if okWant {
			if has("EntityDestroy GroupDestroy", o.K) {
				if w2 := mm.PredictAuth(o, false); w2.Apply != nil {
					w2.Apply(res)
				}
			}
			if o.N == -1 && o.K == "EntityCreate" {
				q := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: o.E})
				if !q.OK() || q.Ents[0].GetNumber() <= maxE || (autoE >= 0 && autoE != q.Ents[0].GetNumber()) {
					fail("number:entity", "%s: %v %v with %d in use, plugins saw %d", o, q.Err, q.Ents, maxE, autoE)
					return
				}
				mm.E[o.E].Num = q.Ents[0].GetNumber()
			}
			if o.N == -1 && o.K == "GroupCreate" {
				q := Exec(ctxNone(), x.w, Op{K: "GroupInfo", G: o.G})
				if !q.OK() || q.Grps[0].GetNumber() <= maxG || (autoG >= 0 && autoG != q.Grps[0].GetNumber()) {
					fail("number:group", "%s: %v %v with %d in use, plugins saw %d", o, q.Err, q.Grps, maxG, autoG)
					return
				}
				mm.G[o.G].Num = q.Grps[0].GetNumber()
			}
			m = mm
		}
		c.Eval(fmt.Sprintf("%s/%v/refused=%v/lock=%v/plugins=%d", tag, res.OK(), refuse, lockAt, len(h.on)))
		h.order(nil)
		if refuse >= 0 {
			for _, y := range ord[refuser] {
				if y.Do == "exit" || y.Do == "panic" {
					if len(got[refuser]) == refuse+1 {
						dead = refuser
					}
				}
			}
		}
		if dead != "" {
			if st := x.status(); st == nil || st.GetSystemOK() {
				fail("status-dead", "plugin %s is gone, and the status is %v", dead, st)
				return
			}
		}
		if !x.check(m, names, g.G, dead == "" && r.Intn(6) == 0, tag, log) {
			return
		}
		if len(ks) > 0 && c.NeedSample() {
			c.Sample(map[string]interface{}{"plugins": h.on, "request": o, "orders": ord, "called": got, "answer": resStr(res)})
		}
	}
	stop(syscall.SIGTERM)
}

func (e *MEnt) secretOr(s string) string {
	if e == nil {
		return s
	}
	return e.Secret
}

func tailLog(l []string, n int) []string {
	if len(l) > n {
		return append([]string{"..."}, l[len(l)-n:]...)
	}
	return l
}

func resStr(r Res) string {
	if r.OK() {
		return "success"
	}
	return fmt.Sprintf("%v %q", r.Code, r.Err)
}

// zombie tells that the process has ended and only awaits its parent.
func zombie(pid int) bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return true
	}
	i := bytes.LastIndexByte(b, ')')
	return i >= 0 && i+2 < len(b) && b[i+2] == 'Z'
}

// status asks over the network.
func (x *e2e) status() *pb.ServerStatus {
	cx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	st, err := x.w.c.SystemStatus(cx, &pb.Empty{})
	if err != nil {
		return nil
	}
	return st
}

// plugOverlap has requests overlap: each still calls once and keeps
// what the plugins did.
func plugOverlap(c *Ctx, i int, r *rand.Rand) {
	h := newPlugHost(c, []string{"filesystem", "bitcask"}[i%2])
	if h == nil {
		return
	}
	x := h.x
	defer x.close()
	np := 1 + r.Intn(2)
	if _, err := h.configure(r, true, false, []string{"alpha", "beta"}[:np]...); err != nil {
		c.Inconclusive(err.Error())
		return
	}
	if err := x.start("root:pw"); err != nil {
		c.Violate("start", err.Error(), nil)
		return
	}
	ord := map[string][]porder{}
	for _, p := range h.on {
		for _, a := range []string{"EntityCreate", "EntityLock", "GroupCreate", "PostAuthCheck", "PostSecretChange"} {
			ord[p] = append(ord[p], porder{a, "mark", "x"})
		}
	}
	h.order(ord)
	h.calls()
	type key struct{ a, id string }
	want := map[key]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	bad := ""
	do := func(o Op, as ...string) bool {
		q := Exec(ctxRoot(), x.w, o)
		mu.Lock()
		defer mu.Unlock()
		if !q.OK() {
			if bad == "" {
				bad = fmt.Sprintf("%s: %s", o, resStr(q))
			}
			return false
		}
		id := o.E
		if id == "" {
			id = o.G
		}
		for _, a := range as {
			want[key{a, id}]++
		}
		return true
	}
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				id := fmt.Sprintf("e%d-%d", g, k)
				do(Op{K: "EntityCreate", E: id, S: "s", N: -1}, "EntityCreate")
				do(Op{K: "AuthEntity", E: id, S: "s"}, "PreAuthCheck", "PostAuthCheck")
				do(Op{K: "AuthEntity", E: "e0-0x", S: "s"})
				do(Op{K: "EntityUM", E: id, Act: actUPSERT, Key: "k", Val: "v"}, "EntityUpdate")
				do(Op{K: "AuthChangeSecret", E: id, S2: "t"}, "PreSecretChange", "PostSecretChange")
				do(Op{K: "EntityLock", E: id}, "EntityLock")
				do(Op{K: "GroupCreate", G: "g" + id, N: -1}, "GroupCreate")
				do(Op{K: "GroupUM", G: "g" + id, Act: actUPSERT, Key: "k", Val: "v"}, "GroupUpdate")
			}
		}(g)
	}
	wg.Wait()
	ks, err := h.calls()
	if err != nil {
		c.Violate("log", err.Error(), nil)
		return
	}
	if bad != "" && !strings.Contains(bad, "e0-0x") {
		c.Violate("overlap-result", "with overlapping requests: "+bad, nil)
		return
	}
	got := map[string]map[key]int{}
	for _, p := range h.on {
		got[p] = map[key]int{}
	}
	for _, k := range ks {
		id := decEnt(k.E).GetID()
		if k.G != "" {
			id = decGrp(k.G).GetName()
		}
		if got[k.P] == nil {
			c.Violate("overlap-who", "call of "+k.P, nil)
			return
		}
		got[k.P][key{k.A, id}]++
	}
	for _, p := range h.on {
		for k, n := range want {
			if got[p][k] != n {
				c.Violate("overlap-calls:"+k.a, fmt.Sprintf("with overlapping requests plugin %s was called %d times at %s for %q, want %d", p, got[p][k], k.a, k.id, n), nil)
				return
			}
		}
		for k, n := range got[p] {
			if want[k] == 0 {
				c.Violate("overlap-calls:"+k.a, fmt.Sprintf("with overlapping requests plugin %s was called %d times at %s for %q, want 0", p, n, k.a, k.id), nil)
				return
			}
		}
		c.EvalN(len(want), fmt.Sprintf("overlap/%d/%s", np, x.be))
	}
	for g := 0; g < 8; g++ {
		for k := 0; k < 3; k++ {
			id := fmt.Sprintf("e%d-%d", g, k)
			w := []string{"k:v"}
			wg := []string{"k:v"}
			for _, p := range h.on {
				for _, a := range []string{"EntityCreate", "EntityLock", "PostAuthCheck", "PostSecretChange"} {
					w = append(w, "vp-"+p+"-"+a+":x")
				}
				wg = append(wg, "vp-"+p+"-GroupCreate:x")
			}
			a := Exec(ctxNone(), x.w, Op{K: "EntityUM", E: id, Act: actREAD, Key: "*"})
			if qlist(a.Strs) != qlist(w) {
				c.Violate("overlap-stored", fmt.Sprintf("with overlapping requests %q holds %v, want %v", id, a.Strs, w), nil)
				return
			}
			a = Exec(ctxNone(), x.w, Op{K: "GroupUM", G: "g" + id, Act: actREAD, Key: "*"})
			if qlist(a.Strs) != qlist(wg) {
				c.Violate("overlap-stored", fmt.Sprintf("with overlapping requests group %q holds %v, want %v", "g"+id, a.Strs, wg), nil)
				return
			}
		}
	}
	// A call that is under way when the daemon is told to stop ends
	// like any other.
	for _, p := range h.on {
		ord[p] = []porder{{"EntityCreate", "sleep", "400ms"}, {"EntityCreate", "mark", "late"}}
	}
	h.order(ord)
	done := make(chan Res, 1)
	go func() { done <- Exec(ctxRoot(), x.w, Op{K: "EntityCreate", E: "late", S: "s", N: -1}) }()
	time.Sleep(time.Duration(100+r.Intn(100)) * time.Millisecond)
	conn := x.conn
	x.conn = nil
	if err := x.stop(syscall.SIGTERM); err != nil {
		c.Violate("stop", fmt.Sprintf("the daemon ended with %v: %s", err, tail(x.out.String(), 600)), nil)
	}
	q := <-done
	conn.Close()
	if err := x.start(""); err != nil {
		c.Violate("restart", err.Error(), nil)
		return
	}
	a := Exec(ctxNone(), x.w, Op{K: "EntityUM", E: "late", Act: actREAD, Key: "vp-" + h.on[0] + "-EntityCreate"})
	if q.OK() != (a.OK() && len(a.Strs) == 1) {
		c.Violate("stop-under-way", fmt.Sprintf("a creation under way when the daemon was told to stop: %s; afterwards: %s %v", resStr(q), resStr(a), a.Strs), nil)
	}
	c.Eval(fmt.Sprintf("late/%v", q.OK()))
	x.stop(syscall.SIGTERM)
}

// plugRefused starts servers that cannot serve: none may leave its
// plugins behind.
func plugRefused(c *Ctx, i int, r *rand.Rand) {
	h := newPlugHost(c, []string{"filesystem", "bitcask"}[i%2])
	if h == nil {
		return
	}
	x := h.x
	defer x.close()
	type bad struct {
		what  string
		flags []string
	}
	busy, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	defer busy.Close()
	l := []bad{
		{"a used address", []string{"--tls.PWN_ME"}},
		{"no such database", []string{"--tls.PWN_ME", "--db.backend", "nope"}},
		{"no such engine", []string{"--tls.PWN_ME", "--crypto.backend", "nope"}},
		{"no such token service", []string{"--tls.PWN_ME", "--token.backend", "nope"}},
		{"malformed superuser", []string{"--tls.PWN_ME", "--server.bootstrap", "rootpw"}},
		{"no certificate", nil},
		{"bad address", []string{"--tls.PWN_ME", "--server.bind", "203.0.113.7"}},
	}
	r.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	for _, b := range l {
		names := []string{"alpha", "beta", "gamma"}[:1+r.Intn(3)]
		how, err := h.configure(r, true, false, names...)
		if err != nil {
			c.Inconclusive(err.Error())
			return
		}
		x.port = freePort()
		if b.what == "a used address" {
			x.port = busy.Addr().(*net.TCPAddr).Port
		}
		if err := x.writeConf(); err != nil {
			c.Inconclusive(err.Error())
			return
		}
		h.order(nil)
		h.calls()
		if err := x.launch(b.flags...); err != nil {
			c.Inconclusive(err.Error())
			return
		}
		select {
		case <-x.done:
			x.cmd = nil
		case <-time.After(60 * time.Second):
			// Whether it must refuse is judged elsewhere.
			x.kill()
			h.calls()
			continue
		}
		ks, err := h.calls()
		if err != nil {
			c.Inconclusive(err.Error())
			return
		}
		for _, k := range ks {
			if k.A != "start" {
				continue
			}
			c.Count("plugins of servers that did not start", 1)
			for n := 0; syscall.Kill(k.Pid, 0) == nil && !zombie(k.Pid); n++ {
				if n > 250 {
					c.Violate("left:"+b.what, fmt.Sprintf("the daemon ended because of %s and left its plugin %s (process %d) behind", b.what, k.P, k.Pid), map[string]interface{}{"plugins": names, "announced": how, "output": tail(x.out.String(), 800)})
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			syscall.Kill(k.Pid, syscall.SIGKILL)
		}
		c.Eval(fmt.Sprintf("refused/%s/%d", b.what, len(ks)))
	}
}

func init() {
	register(&Check{
		ID: "P23", MinEvals: 1000,
		Rule: "a situation is (request, entry point, what the plugin did, plugins loaded), (request, outcome, entry point refused), a configuration of plugins, or requests while a plugin is gone",
		Run: func(c *Ctx) {
			c.Cases("histories", c.N(16, 1200), func(i int, r *rand.Rand) { plugHistory(c, i, r, 90) })
			c.Cases("refused", c.N(2, 40), func(i int, r *rand.Rand) { plugRefused(c, i, r) })
			c.Cases("overlap", c.N(6, 200), func(i int, r *rand.Rand) { plugOverlap(c, i, r) })
		},
	})
}
