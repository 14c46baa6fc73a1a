//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"
)

// EngineCfg drives sequences of requests against a world and judges
// every answer and every visible state against the reference.
type EngineCfg struct {
	Name  string
	World WOpts
	Len   int
	Gen   func(r *rand.Rand, m *Model, i int) Op
	// Setup operations run first.
	Setup []Op
	// Focus tells whether a disagreement belongs to the property: op is
	// the request after which it appeared, aspect is the class of what
	// disagrees ("result" for the answer itself, "answer" for content).
	Focus func(op Op, aspect string) bool
	// AuditEvery n operations (default 1).
	AuditEvery int
	// NoAuth leaves authentication out of the audits.
	NoAuth bool
	// Extra runs after each step for property specific observation.
	Extra func(w *World, m *Model, o Op, r Res) []Diff
	// NonTrivial classifies the situation judged at a step; "" when the
	// step was trivial.
	NonTrivial func(m *Model, o Op, r Res) string
	// Each sees every answer.
	Each  func(m *Model, o Op, r Res)
	Names []string
	// Maybe tells that the storage need not be able to hold what the
	// request names: it may then be refused, without effect.
	Maybe func(m *Model, o Op) bool
	// Snap, when set, is taken before and after each restart, and the
	// two must agree.
	Snap func(w *World, m *Model, i int) Flat
	// Via, when set, is the way a request takes to the server.
	Via func(w *World, o Op) RPC
}

type stepFail struct {
	i     int
	op    Op
	kind  string // aspect
	msg   string
	focus bool
}

// runSeq executes ops (or generates them when ops is nil) and returns
// the trace and the first disagreement.
func (cfg *EngineCfg) runSeq(c *Ctx, r *rand.Rand, ops []Op, quiet bool) (trace []Op, fail *stepFail) {
	w, err := NewWorld(c, cfg.World)
	if err != nil {
		return nil, &stepFail{-1, Op{}, "startup", err.Error(), true}
	}
	defer func() { w.Close() }()
	m := newModel()
	gen := ops == nil
	n := len(ops)
	if gen {
		n = cfg.Len + len(cfg.Setup)
	}
	for i := 0; i < n; i++ {
		var o Op
		switch {
		case !gen:
			o = ops[i]
		case i < len(cfg.Setup):
			o = cfg.Setup[i]
		default:
			o = cfg.Gen(r, m, i)
		}
		trace = append(trace, o)
		var f *stepFail
		w, f = cfg.step(c, w, m, i, o, quiet, i < n-1)
		if f != nil {
			return trace, f
		}
	}
	return trace, nil
}

func (cfg *EngineCfg) focus(o Op, aspect string) bool {
	return cfg.Focus == nil || cfg.Focus(o, aspect)
}

func (cfg *EngineCfg) step(c *Ctx, w *World, m *Model, i int, o Op, quiet, more bool) (*World, *stepFail) {
	if strings.HasPrefix(o.K, "!") {
		switch o.K {
		case "!restart", "!abrupt":
			var snap Flat
			if cfg.Snap != nil {
				snap = cfg.Snap(w, m, i)
			}
			nw, err := w.Restart(o.K == "!restart")
			if err != nil {
				return w, &stepFail{i, o, "startup", "restart failed: " + err.Error(), cfg.focus(o, "startup")}
			}
			w = nw
			if cfg.Snap != nil {
				now := cfg.Snap(w, m, i)
				if ds := diffFlat(snap, now); len(ds) > 0 {
					return w, &stepFail{i, o, "snapshot", "before and after the restart: " + trunc(ds[0].String(), 600), cfg.focus(o, "snapshot")}
				}
				if !quiet {
					c.EvalN(len(snap), "")
				}
			}
			if !quiet {
				c.Count("restarts", 1)
			}
		case "!bootstrap", "!disable":
			if f := cfg.bootstrap(c, w, m, i, o, quiet); f != nil {
				return w, f
			}
		}
		return w, cfg.judge(c, w, m, i, o, Res{}, quiet)
	}
	x := m.PredictAuth(o, cfg.World.ReadOnly)
	if cfg.Maybe != nil && cfg.Maybe(m, o) {
		x.Codes = nil
		if x.Want == wantOK {
			x.Want = wantAny
		}
	}
	cx := parseCred(o.Cred).ctx()
	before, derr := w.Spy.Dump()
	if derr != nil {
		return w, &stepFail{i, o, "RAW", derr.Error(), cfg.focus(o, "RAW")}
	}
	var srv RPC = w.Srv
	if cfg.Via != nil {
		srv = cfg.Via(w, o)
	}
	w.Spy.Record(true)
	res := Exec(cx, srv, o)
	w.Spy.Record(false)
	if !quiet {
		c.Count("req:"+o.K, 1)
		if cfg.Each != nil {
			cfg.Each(m, o, res)
		}
	}
	// The answer.
	switch {
	case x.Want == wantOK && !res.OK():
		return w, &stepFail{i, o, "result", fmt.Sprintf("refused with %s (%s) although it is valid", res.Code, res.Err), cfg.focus(o, "result")}
	case x.Want == wantFail && res.OK():
		return w, &stepFail{i, o, "result", "accepted although " + x.Why, cfg.focus(o, "result")}
	case x.Want == wantFail && x.Codes != nil:
		ok := false
		for _, k := range x.Codes {
			ok = ok || k == res.Code
		}
		if !ok {
			return w, &stepFail{i, o, "result", fmt.Sprintf("refused with %s, want %v because %s", res.Code, x.Codes, x.Why), cfg.focus(o, "result")}
		}
	}
	// What was refused, or only asks, leaves every stored byte alone.
	if !res.OK() || !mutating(o) {
		after, err := w.Spy.Dump()
		if err != nil {
			return w, &stepFail{i, o, "RAW", err.Error(), cfg.focus(o, "RAW")}
		}
		if d := rawDiff(before, after); d != "" {
			why := "was refused"
			if res.OK() {
				why = "only reads"
			}
			return w, &stepFail{i, o, "RAW", "the request " + why + " and yet changed stored data: " + d, cfg.focus(o, "RAW")}
		}
	}
	if res.OK() && x.Check != nil {
		if err := x.Check(res); err != nil {
			return w, &stepFail{i, o, "answer", err.Error(), cfg.focus(o, "answer")}
		}
	}
	maxE, maxG := m.maxENum(), m.maxGNum()
	if res.OK() && x.Apply != nil {
		x.Apply(res)
	}
	if res.OK() {
		if a, msg := learnNumber(w.Srv, m, o, maxE, maxG); msg != "" {
			return w, &stepFail{i, o, a, msg, cfg.focus(o, a)}
		}
	}
	if cfg.AuditEvery > 1 && i%cfg.AuditEvery != 0 && more {
		return w, nil
	}
	return w, cfg.judge(c, w, m, i, o, res, quiet)
}

// learnNumber notes the number assigned by a creation that left it to
// the server, which must be greater than all that were in use.
func learnNumber(srv RPC, m *Model, o Op, maxE, maxG int32) (string, string) {
	if o.N != -1 {
		return "", ""
	}
	switch o.K {
	case "EntityCreate":
		r := Exec(ctxNone(), srv, Op{K: "EntityInfo", E: o.E})
		if !r.OK() || len(r.Ents) != 1 {
			return "E/exists", "created but not found"
		}
		got := r.Ents[0].GetNumber()
		if got <= maxE {
			return "E/num", fmt.Sprintf("automatic number %d is not greater than %d in use", got, maxE)
		}
		m.E[o.E].Num = got
	case "GroupCreate":
		r := Exec(ctxNone(), srv, Op{K: "GroupInfo", G: o.G})
		if !r.OK() || len(r.Grps) != 1 {
			return "G/exists", "created but not found"
		}
		got := r.Grps[0].GetNumber()
		if got <= maxG {
			return "G/num", fmt.Sprintf("automatic number %d is not greater than %d in use", got, maxG)
		}
		m.G[o.G].Num = got
	}
	return "", ""
}

func (cfg *EngineCfg) judge(c *Ctx, w *World, m *Model, i int, o Op, res Res, quiet bool) *stepFail {
	want := m.Flatten()
	auth := map[string]string{}
	if !cfg.NoAuth {
		for n, e := range m.E {
			auth[n] = e.Secret
		}
	} else {
		for k := range want {
			if strings.HasSuffix(k, "/auth") {
				delete(want, k)
			}
		}
	}
	got, err := audit(w.Srv, w.Spy, union(sortedKeys(m.E), cfg.Names), union(sortedKeys(m.G), cfg.Names), auth)
	if err != nil {
		return &stepFail{i, o, "RAW", err.Error(), cfg.focus(o, "RAW")}
	}
	ds := diffFlat(want, got)
	if cfg.Extra != nil {
		ds = append(ds, cfg.Extra(w, m, o, res)...)
	}
	if !quiet {
		sig := ""
		if cfg.NonTrivial != nil {
			sig = cfg.NonTrivial(m, o, res)
		} else {
			sig = fmt.Sprintf("%s/%s/%d/%d/%d", o.K, res.Code, o.Act, len(m.E), len(m.G))
		}
		c.EvalN(len(want), sig)
	}
	var first *stepFail
	for _, d := range ds {
		f := &stepFail{i, o, d.Aspect(), "after " + o.K + ": " + d.String(), cfg.focus(o, d.Aspect())}
		if f.focus {
			return f
		}
		if first == nil {
			first = f
		}
	}
	return first
}

// Run executes n seeded sequences.
func (cfg *EngineCfg) Run(c *Ctx, n int) {
	c.Cases(cfg.Name, n, func(i int, r *rand.Rand) {
		k := *cfg
		k.runCase(c, i, r)
	})
}

// runCase generates and judges one history.
func (cfg *EngineCfg) runCase(c *Ctx, i int, r *rand.Rand) {
	trace, f := cfg.runSeq(c, r, nil, false)
	cfg.report(c, i, trace, f)
}

// fixed judges one given history.
func (cfg *EngineCfg) fixed(c *Ctx, i int, ops []Op) {
	trace, f := cfg.runSeq(c, nil, ops, false)
	cfg.report(c, i, trace, f)
}

func (cfg *EngineCfg) report(c *Ctx, i int, trace []Op, f *stepFail) {
	if c.NeedSample() && len(trace) > 3 && f == nil {
		k := len(trace)
		if k > 12 {
			k = 12
		}
		c.Sample(map[string]interface{}{"case": fmt.Sprintf("%s[%d]", cfg.Name, i), "first_requests": trace[:k], "length": len(trace)})
	}
	if f == nil {
		return
	}
	if !f.focus {
		c.Inconclusive("other-property:" + f.op.K + ":" + f.kind)
		return
	}
	key := fmt.Sprintf("%s:%s", f.op.K, f.kind)
	c.mu.Lock()
	_, dup := c.viol[key]
	c.mu.Unlock()
	min := trace
	if !dup {
		min, f = cfg.shrink(c, trace, f)
	}
	c.Violate(key, f.msg, map[string]interface{}{"case": fmt.Sprintf("%s[%d]", cfg.Name, i), "world": fmt.Sprintf("%s/%s", cfg.World.Backend, cfg.World.Crypto), "requests": min, "at": f.i})
}

// shrink drops requests that the disagreement does not need.
func (cfg *EngineCfg) shrink(c *Ctx, ops []Op, f *stepFail) ([]Op, *stepFail) {
	cur := append([]Op{}, ops...)
	best := f
	tries, until := 0, time.Now().Add(20*time.Second)
	for chunk := len(cur) / 2; chunk >= 1; chunk /= 2 {
		for i := 0; i+chunk <= len(cur) && tries < 400 && time.Now().Before(until); {
			t := append(append([]Op{}, cur[:i]...), cur[i+chunk:]...)
			tries++
			_, g := cfg.runSeq(c, nil, t, true)
			c.Count("shrink_runs", 1)
			if g != nil && g.kind == f.kind && g.op.K == f.op.K {
				cur = t[:g.i+1]
				best = g
			} else {
				i += chunk
			}
		}
	}
	return cur, best
}

func oneOf[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

func contains[T comparable](l []T, x T) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// pickW picks an index by weight.
func pickW(r *rand.Rand, w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		k -= x
		if k < 0 {
			return i
		}
	}
	panic("weights")
}

// rawDiff describes how two dumps of the store differ.
func rawDiff(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			return fmt.Sprintf("%q vanished", k)
		} else if v != a[k] {
			return fmt.Sprintf("%q changed from %q to %q", k, trunc(a[k], 300), trunc(v, 300))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%q appeared", k)
		}
	}
	return ""
}
