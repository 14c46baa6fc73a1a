//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

// pairSetup is a small world in which each request of pairOps succeeds
// and changes something.
var pairSetup = []Op{
	{K: "EntityCreate", E: "e1", N: 1, S: "s0"}, {K: "EntityCreate", E: "e2", N: 2, S: "s0"}, {K: "EntityCreate", E: "e3", N: 3, S: "s0"},
	{K: "GroupCreate", G: "g1", N: 1}, {K: "GroupCreate", G: "g2", N: 2}, {K: "GroupCreate", G: "g3", N: 3}, {K: "GroupCreate", G: "g4", N: 4}, {K: "GroupCreate", G: "g5", N: 5},
	{K: "EntityLock", E: "e3"},
	{K: "GroupAddMember", E: "e1", G: "g1"}, {K: "GroupAddMember", E: "e1", G: "g3"}, {K: "GroupAddMember", E: "e2", G: "g1"}, {K: "GroupAddMember", E: "e2", G: "g5"},
	{K: "GroupUpdateRules", G: "g2", T: "g1", Act: ruleINC}, {K: "GroupUpdateRules", G: "g4", T: "g2", Act: ruleINC}, {K: "GroupUpdateRules", G: "g4", T: "g5", Act: ruleEXC},
	{K: "EntityUM", E: "e1", Act: actUPSERT, Key: "a{1}", Val: "1"}, {K: "EntityUM", E: "e1", Act: actUPSERT, Key: "b", Val: "2"},
	{K: "GroupUM", G: "g1", Act: actUPSERT, Key: "a{1}", Val: "1"}, {K: "GroupUM", G: "g1", Act: actUPSERT, Key: "b", Val: "2"},
	{K: "EntityUM", E: "e1", Act: actUPSERT, Key: "noise", Val: "0"}, {K: "GroupUM", G: "g1", Act: actUPSERT, Key: "noise", Val: "0"},
	{K: "EntityKVAdd", E: "e1", Key: "k1", Vals: []KVVal{{V: "v"}}}, {K: "GroupKVAdd", G: "g1", Key: "k1", Vals: []KVVal{{V: "v"}}},
	{K: "EntityKeys", E: "e1", Act: actADD, Key: "SSH", Val: "x"},
	{K: "SystemCapabilities", T: "e1", Dir: true, Act: actADD, Cap: allCaps[1]}, {K: "SystemCapabilities", T: "g1", Act: actADD, Cap: allCaps[2]}, {K: "SystemCapabilities", T: "g2", Act: actADD, Cap: allCaps[3]},
	{K: "EntityUpdate", E: "e1", M: map[string]string{"Shell": "/bin/old", "Home": "/old"}},
}

// pairOps are the requests one of which is held at each of its storage
// accesses while others run.
func pairOps() []Op {
	return []Op{
		{K: "EntityCreate", E: "e9", N: -1, S: "s1"},
		{K: "EntityUpdate", E: "e1", M: map[string]string{"Shell": "/bin/new", "Home": "/new"}},
		{K: "EntityUM", E: "e1", Act: actUPSERT, Key: "b", Val: "3"},
		{K: "EntityUM", E: "e1", Act: actUPSERT, Key: "c", Val: "3"},
		{K: "EntityUM", E: "e1", Act: actCLEAREXACT, Key: "b"},
		{K: "EntityUM", E: "e1", Act: actCLEARFUZZY, Key: "a"},
		{K: "EntityKeys", E: "e1", Act: actADD, Key: "SSH", Val: "y"},
		{K: "EntityKeys", E: "e1", Act: actDROP, Key: "SSH", Val: "x"},
		{K: "EntityKVAdd", E: "e1", Key: "k2", Vals: []KVVal{{V: "w"}, {V: "x"}}},
		{K: "EntityKVReplace", E: "e1", Key: "k1", Vals: []KVVal{{V: "w"}}},
		{K: "EntityKVDel", E: "e1", Key: "k1"},
		{K: "EntityLock", E: "e1"},
		{K: "EntityUnlock", E: "e3"},
		{K: "EntityDestroy", E: "e1"},
		{K: "AuthEntity", E: "e1", S: "s0"},
		{K: "AuthEntity", E: "e1", S: "wrong"},
		{K: "AuthGetToken", E: "e1", S: "s0"},
		{K: "AuthChangeSecret", E: "e1", S2: "s1"},
		{K: "AuthChangeSecret", E: "e1", S: "s0", S2: "s2", Cred: credStr("e1")},
		{K: "GroupCreate", G: "g9", N: -1, Val: "d"},
		{K: "GroupUpdate", G: "g1", Val: "new", T: "g2"},
		{K: "GroupUM", G: "g1", Act: actUPSERT, Key: "b", Val: "3"},
		{K: "GroupUM", G: "g1", Act: actCLEAREXACT, Key: "b"},
		{K: "GroupUM", G: "g1", Act: actCLEARFUZZY, Key: "a"},
		{K: "GroupKVAdd", G: "g1", Key: "k2", Vals: []KVVal{{V: "w"}, {V: "x"}}},
		{K: "GroupKVReplace", G: "g1", Key: "k1", Vals: []KVVal{{V: "w"}}},
		{K: "GroupKVDel", G: "g1", Key: "k1"},
		{K: "GroupUpdateRules", G: "g1", T: "g3", Act: ruleINC},
		{K: "GroupUpdateRules", G: "g1", T: "g5", Act: ruleEXC},
		{K: "GroupUpdateRules", G: "g2", T: "g1", Act: ruleDEL},
		{K: "GroupUpdateRules", G: "g2", T: "g1", Act: ruleEXC},
		{K: "GroupDestroy", G: "g1"},
		{K: "GroupDestroy", G: "g2"},
		{K: "GroupAddMember", E: "e1", G: "g5"},
		{K: "GroupAddMember", E: "e1", Gs: []string{"g2", "g5"}},
		{K: "GroupDelMember", E: "e1", G: "g1"},
		{K: "GroupDelMember", E: "e1", Gs: []string{"g1", "g3"}},
		{K: "SystemCapabilities", T: "e1", Dir: true, Act: actADD, Cap: allCaps[4]},
		{K: "SystemCapabilities", T: "e1", Dir: true, Act: actDROP, Cap: allCaps[1]},
		{K: "SystemCapabilities", T: "g1", Act: actADD, Cap: allCaps[4]},
		{K: "SystemCapabilities", T: "g1", Act: actDROP, Cap: allCaps[2]},
	}
}

// about tells which object a request is about.
func about(o Op) (e, g string) {
	if o.K == "SystemCapabilities" {
		if o.Dir {
			return o.T, ""
		}
		return "", o.T
	}
	if o.E != "" {
		return o.E, ""
	}
	return "", o.G
}

// pairReads are questions about what a request changes.
func pairReads(r *rand.Rand, a Op) Op {
	e, g := about(a)
	if e != "" {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			return Op{K: "EntityInfo", E: e}
		case 4:
			return Op{K: "EntityKVGet", E: e, Key: oneOf(r, []string{"k1", "k2"})}
		case 5:
			return Op{K: "EntityUM", E: e, Act: actREAD, Key: "*"}
		case 6:
			return Op{K: "EntityGroups", E: e}
		case 7:
			return Op{K: "EntitySearch", E: e, Key: "ID:" + e}
		case 8:
			return Op{K: "GroupMembers", G: oneOf(r, []string{"g1", "g2", "g4"})}
		}
		return Op{K: oneOf(r, []string{"AuthEntity", "AuthGetToken"}), E: e, S: oneOf(r, []string{"s0", "s1", "s2"})}
	}
	if a.K == "GroupDestroy" && r.Intn(3) == 0 {
		return Op{K: "AuthGetToken", E: oneOf(r, []string{"e1", "e2"}), S: "s0"}
	}
	switch r.Intn(9) {
	case 0, 1, 2:
		return Op{K: "GroupInfo", G: g}
	case 3:
		return Op{K: "GroupKVGet", G: g, Key: oneOf(r, []string{"k1", "k2"})}
	case 4:
		return Op{K: "GroupUM", G: g, Act: actREAD, Key: "*"}
	case 5:
		return Op{K: "EntityGroups", E: oneOf(r, []string{"e1", "e2"})}
	case 6:
		return Op{K: "GroupSearch", G: g, Key: "Name:" + g}
	case 7:
		return Op{K: "AuthGetToken", E: oneOf(r, []string{"e1", "e2"}), S: "s0"}
	}
	return Op{K: "GroupMembers", G: oneOf(r, []string{g, "g2", "g4"})}
}

var pairAccesses sync.Map // request -> its storage accesses (before and after)

var pairReplace = []Op{
	{K: "AuthGetToken", E: "e1", S: "s0"},
	{K: "AuthChangeSecret", E: "e1", S: "s0", S2: "s2", Cred: credStr("e1")},
	{K: "AuthGetToken", E: "e1", S: "s0"},
	{K: "AuthChangeSecret", E: "e1", S2: "s2"},
}

// linPair holds one request at one of its storage accesses and lets
// others run meanwhile (or, every fourth time, lets it compete for the
// object with many others that hold it for long).
func linPair(c *Ctx, i int, r *rand.Rand, backend string) { linHeld(c, i, r, backend, false) }

// linReplace replaces the entity of one that has proven to be it by
// another of its name.
func linReplace(c *Ctx, i int, r *rand.Rand, backend string) { linHeld(c, i, r, backend, true) }

func linHeld(c *Ctx, i int, r *rand.Rand, backend string, replace bool) {
	w := MustWorld(c, WOpts{Backend: backend})
	if w == nil {
		return
	}
	defer w.Close()
	init, ok := prepare(c, w, pairSetup)
	if !ok {
		return
	}
	all := pairOps()
	a := all[i%len(all)]
	crowd := i/len(all)%4 == 3
	if replace {
		a, crowd = pairReplace[i%len(pairReplace)], false
	}
	var b []Op
	for n := 1 + r.Intn(3); len(b) < n; {
		switch {
		case !crowd && r.Intn(3) > 0:
			b = append(b, pairReads(r, a))
		default:
			o := all[r.Intn(len(all))]
			ae, ag := about(a)
			if oe, og := about(o); (oe != ae || og != ag) && r.Intn(4) > 0 {
				continue
			}
			b = append(b, o)
		}
	}
	// Groups vanish between the steps of whoever reads several of them.
	vanish := !crowd && a.K == "GroupDestroy" && r.Intn(2) == 0
	if vanish {
		b = nil
		for n := 0; n < 8; n++ {
			b = append(b, Op{K: "AuthGetToken", E: oneOf(r, []string{"e1", "e1", "e2"}), S: "s0"})
		}
	}
	if replace {
		b = []Op{{K: "EntityDestroy", E: "e1"}, {K: "EntityCreate", E: "e1", N: 9, S: "s1"}, {K: "SystemCapabilities", T: "e1", Dir: true, Act: actADD, Cap: allCaps[5]}}
	}
	w.Spy.Record(true)
	var h []*conc
	var clock, n int64
	var mu sync.Mutex
	do := func(client int, o Op) {
		e := &conc{Client: client, Op: o, Call: atomic.AddInt64(&clock, 1)}
		e.Res = Exec(parseCred(o.Cred).ctx(), w.Srv, o)
		e.Ret = atomic.AddInt64(&clock, 1)
		mu.Lock()
		h = append(h, e)
		mu.Unlock()
	}
	var wg sync.WaitGroup
	inside, event := false, false
	name := "held"
	if crowd {
		name = "crowd"
		var stop int32
		w.Spy.delay = jitter(int64(i)*7907+c.Seed, 70, 1600*time.Microsecond)
		var started sync.WaitGroup
		for p := 0; p < 3; p++ {
			wg.Add(1)
			started.Add(1)
			noise := Op{K: "EntityUM", E: "e1", Act: actUPSERT, Key: "noise", Val: "0"}
			if e, _ := about(a); e == "" {
				noise = Op{K: "GroupUM", G: "g1", Act: actUPSERT, Key: "noise", Val: "0"}
			}
			go func() {
				defer wg.Done()
				for k := 0; atomic.LoadInt32(&stop) == 0; k++ {
					if x := Exec(ctxRoot(), w.Srv, noise); !x.OK() {
						if k == 0 {
							started.Done()
						}
						return
					}
					if k == 0 {
						started.Done()
					}
				}
			}()
		}
		started.Wait()
		var two sync.WaitGroup
		two.Add(2)
		go func() { defer two.Done(); do(0, a) }()
		go func() {
			defer two.Done()
			for _, o := range b {
				do(1, o)
			}
		}()
		two.Wait()
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
	} else {
		at := int64(1 + r.Intn(8))
		if v, ok := pairAccesses.Load(a.String()); ok {
			at = 1 + r.Int63n(v.(int64))
			if replace {
				at = 1 + int64(i/len(pairReplace))%v.(int64)
			}
		}
		other := func() {
			defer wg.Done()
			for _, o := range b {
				do(1, o)
			}
		}
		wg.Add(1)
		w.Spy.delay = func(op, key string, after bool) {
			if vanish {
				if op != "event" || !atomic.CompareAndSwapInt64(&n, 0, at) {
					return
				}
			} else if atomic.AddInt64(&n, 1) != at {
				return
			}
			event = op == "event"
			done := make(chan struct{})
			go func() { other(); close(done) }()
			select {
			case <-done:
				inside = true
			case <-time.After(time.Duration(12+len(b)) * time.Millisecond):
			}
		}
		do(0, a)
		if atomic.LoadInt64(&n) < at {
			w.Spy.delay = nil
			if !vanish {
				pairAccesses.Store(a.String(), atomic.LoadInt64(&n))
			}
			other()
		}
		wg.Wait()
	}
	w.Spy.Record(false)
	w.Spy.delay = nil
	c.Count("requests", len(h))
	c.Count("overlapping_pairs", overlapping(h))
	if inside {
		c.Count("ran_while_another_was_held", len(b))
	}
	// An answer that reads several objects may mix two instants, which
	// cannot be while the other request is held, unless that is where
	// its change is stored but not yet announced to index and resolver.
	views := !crowd && !event && (inside || !removes(append([]Op{a}, b...)))
	if !views {
		keep := h[:0]
		for _, e := range h {
			switch e.Op.K {
			case "EntityGroups", "GroupMembers", "EntitySearch", "GroupSearch":
				continue
			}
			keep = append(keep, e)
		}
		h = keep
	}
	sortConc(h)
	sig := fmt.Sprintf("%s/%s", a, orderSig(w.Spy.Log()))
	good := linJudge(c, linCase{name: name + ":" + a.K, i: i, backend: backend, setup: pairSetup, init: init, w: w,
		ents: []string{"e1", "e2", "e3", "e9"}, grps: []string{"g1", "g2", "g3", "g4", "g5", "g9"}, secs: []string{"s0", "s1", "s2"}, views: views, sig: sig}, h)
	if !good {
		return
	}
	if replace {
		for _, e := range h {
			if e.Op.K == "AuthGetToken" && e.Res.OK() {
				if msg := tokenWindow([]*Model{init}, e.Op.E, e.Res.Tok); msg != "" {
					c.Violate("replaced:"+a.K+":token", "its secret is that of the entity before it was replaced: "+msg, map[string]interface{}{"case": i, "backend": backend, "setup": pairSetup, "held": a, "others": b})
				}
			}
		}
		return
	}
	// Tokens, when only one request changed anything.
	after := init.Clone()
	if x := after.PredictAuth(a, false); x.Apply != nil {
		x.Apply(Res{})
	}
	for _, e := range h {
		if e.Client == 1 && mutating(e.Op) {
			return
		}
	}
	for _, e := range h {
		if e.Client == 1 && e.Op.K == "AuthGetToken" && e.Res.OK() {
			win := []*Model{}
			if init.E[e.Op.E] != nil {
				win = append(win, init)
			}
			if after.E[e.Op.E] != nil {
				win = append(win, after)
			}
			if msg := tokenWindow(win, e.Op.E, e.Res.Tok); msg != "" {
				c.Violate("held:"+a.K+":token", msg, map[string]interface{}{"case": i, "backend": backend, "setup": pairSetup, "held": a, "others": b})
			}
		}
	}
}

func removes(ops []Op) bool {
	for _, o := range ops {
		if o.K == "GroupDestroy" || o.K == "EntityDestroy" {
			return true
		}
	}
	return false
}
