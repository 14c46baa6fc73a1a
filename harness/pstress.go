//go:build go1.22

package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/mresolver"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

var stressW = GenW{
	"EntityCreate": 6, "EntityUpdate": 5, "EntityUM": 6, "EntityKVAdd": 4, "EntityKVDel": 3, "EntityKVReplace": 3, "EntityKVGet": 3,
	"EntityKeys": 5, "EntityDestroy": 4, "EntityLock": 2, "EntityUnlock": 2, "EntityGroups": 6, "EntityInfo": 6,
	"AuthEntity": 5, "AuthGetToken": 5, "AuthChangeSecret": 4,
	"GroupCreate": 6, "GroupUpdate": 4, "GroupInfo": 5, "GroupUM": 4, "GroupKVAdd": 3, "GroupKVDel": 2, "GroupKVReplace": 2, "GroupKVGet": 2,
	"GroupUpdateRules": 8, "GroupAddMember": 6, "GroupDelMember": 4, "GroupDestroy": 3, "GroupMembers": 8, "SystemCapabilities": 5,
}

type stressItem struct {
	o      Op
	cx     context.Context
	stable func(Res) string // what is wrong with the answer, if anything
}

// stableReads are questions about objects that exist throughout.
func stableReads(r *rand.Rand) stressItem {
	in := func(l []string, want ...string) string {
		for _, x := range want {
			if !contains(l, x) {
				return fmt.Sprintf("%q does not contain %q", l, x)
			}
		}
		return ""
	}
	switch r.Intn(13) {
	case 0:
		return stressItem{o: Op{K: "EntityInfo", E: "stable"}, stable: func(x Res) string {
			if len(x.Ents) != 1 || x.Ents[0].GetNumber() != 77 || x.Ents[0].GetMeta().GetGECOS() != "constant" {
				return "wrong contents: " + trunc(proto.CompactTextString(x.Msg), 300)
			}
			return in(x.Ents[0].GetMeta().GetGroups(), "base", "extra")
		}}
	case 1:
		return stressItem{o: Op{K: "EntityGroups", E: "stable"}, stable: func(x Res) string {
			return in(groupNames(x.Grps), "base", "upper", "extra")
		}}
	case 2:
		return stressItem{o: Op{K: "GroupMembers", G: "upper"}, stable: func(x Res) string { return in(entityNames(x.Ents), "stable") }}
	case 3:
		return stressItem{o: Op{K: "GroupMembers", G: "base"}, stable: func(x Res) string { return in(entityNames(x.Ents), "stable") }}
	case 4:
		return stressItem{o: Op{K: "GroupInfo", G: "upper"}, stable: func(x Res) string {
			if len(x.Grps) != 1 || x.Grps[0].GetNumber() != 88 {
				return "wrong contents"
			}
			return in(x.Grps[0].GetExpansions(), "INCLUDE:base")
		}}
	case 5:
		return stressItem{o: Op{K: "AuthEntity", E: "stable", S: "stable-secret"}, stable: func(Res) string { return "" }}
	case 6:
		return stressItem{o: Op{K: "AuthGetToken", E: "stable", S: "stable-secret"}, stable: func(x Res) string {
			if _, err := jwtSvc.Validate(x.Tok); err != nil {
				return "token not valid: " + err.Error()
			}
			return ""
		}}
	case 7:
		return stressItem{o: Op{K: "EntitySearch", Key: "ID:stable"}, stable: func(x Res) string { return in(entityNames(x.Ents), "stable") }}
	case 8:
		return stressItem{o: Op{K: "GroupSearch", Key: "Name:upper"}, stable: func(x Res) string { return in(groupNames(x.Grps), "upper") }}
	case 9:
		return stressItem{o: Op{K: "EntityKVGet", E: "stable", Key: "konst"}, stable: func(x Res) string {
			if len(x.KV) != 1 || kvProto(x.KV[0]) != `"v",` {
				return fmt.Sprint("wrong value ", x.KV)
			}
			return ""
		}}
	case 10:
		return stressItem{o: Op{K: "EntityUM", E: "stable", Act: actREAD, Key: "konst"}, stable: func(x Res) string { return in(x.Strs, "konst:v") }}
	case 11:
		return stressItem{o: Op{K: "EntityKeys", E: "stable", Act: actREAD}, stable: func(x Res) string { return in(x.Strs, "SSH:konst") }}
	default:
		if r.Intn(2) == 0 {
			return stressItem{o: Op{K: "SystemPing"}, stable: func(Res) string { return "" }}
		}
		return stressItem{o: Op{K: "SystemStatus"}, stable: func(x Res) string {
			if len(x.Stat.GetSubSystems()) == 0 || !x.Stat.GetSystemOK() {
				return "status " + trunc(proto.CompactTextString(x.Stat), 300)
			}
			return ""
		}}
	}
}

func stressServer(c *Ctx, i int, r *rand.Rand) {
	backend := linBackends[i%3]
	w := MustWorld(c, WOpts{Backend: backend, Crypto: []string{"nocrypto", "bcrypt"}[(i/3)%2], Pre: func(s *Spy) { s.off = i%4 != 3 }})
	if w == nil {
		return
	}
	defer w.Close()
	setup := []Op{
		{K: "EntityCreate", E: "stable", N: 77, S: "stable-secret"}, {K: "EntityUpdate", E: "stable", M: map[string]string{"GECOS": "constant"}},
		{K: "GroupCreate", G: "base", N: 87}, {K: "GroupCreate", G: "upper", N: 88}, {K: "GroupCreate", G: "extra", N: 89},
		{K: "GroupUpdateRules", G: "upper", T: "base", Act: ruleINC},
		{K: "GroupAddMember", E: "stable", G: "base"}, {K: "GroupAddMember", E: "stable", G: "extra"},
		{K: "EntityKVAdd", E: "stable", Key: "konst", Vals: []KVVal{{V: "v"}}}, {K: "EntityUM", E: "stable", Act: actUPSERT, Key: "konst", Val: "v"},
		{K: "EntityKeys", E: "stable", Act: actADD, Key: "SSH", Val: "konst"},
	}
	m, ok := prepare(c, w, setup)
	if !ok {
		return
	}
	for _, n := range []string{"a", "b", "c", "d"} {
		m.E[n] = newMEnt(1, "s0")
	}
	for _, n := range []string{"p", "q", "r", "s", "t"} {
		m.G[n] = newMGrp(1, "", "")
	}
	gen := newGen(r, stressW, 0, 0)
	gen.E = []string{"a", "b", "c", "d"}
	gen.G = []string{"p", "q", "r", "s", "t"}
	gen.Exist = 0
	gen.Sec = []string{"s0", "s1", "s2"}
	P, L := 12, c.N(90, 260)
	plan := make([][]stressItem, P)
	for p := range plan {
		for k := 0; k < L; k++ {
			if r.Intn(3) == 0 {
				it := stableReads(r)
				it.cx = ctxNone()
				plan[p] = append(plan[p], it)
				continue
			}
			o := gen.Next(r, m, k)
			if r.Intn(8) == 0 { // others touch the stable object too
				switch r.Intn(4) {
				case 0:
					o = Op{K: "EntityUM", E: "stable", Act: actUPSERT, Key: oneOf(r, []string{"x", "y"}), Val: oneOf(r, strVals)}
				case 1:
					o = Op{K: "EntityKVAdd", E: "stable", Key: oneOf(r, []string{"x", "y"})}
				case 2:
					o = Op{K: "GroupAddMember", E: "stable", G: oneOf(r, gen.G)}
				default:
					o = Op{K: "EntityUpdate", E: "stable", M: map[string]string{"Home": oneOf(r, strVals)}}
				}
			}
			if r.Intn(4) == 0 {
				o.Cred = anyCred(r, m, o)
			}
			if strings.Contains(o.K, "Search") {
				o.Key = oneOf(r, []string{"*", "ID:a", "meta.GECOS:constant"})
			}
			plan[p] = append(plan[p], stressItem{o: o, cx: parseCred(o.Cred).ctx()})
		}
	}
	if !w.Spy.off {
		w.Spy.delay = jitter(int64(i)+c.Seed, 10, 200*time.Microsecond)
	}
	var wg sync.WaitGroup
	type tally map[string]int
	tallies := make([]tally, P)
	start := make(chan struct{})
	for p := range plan {
		wg.Add(1)
		tallies[p] = tally{}
		go func(p int) {
			defer wg.Done()
			<-start
			for _, it := range plan[p] {
				x := Exec(it.cx, w.Srv, it.o)
				if x.Msg != nil {
					// What a real server does with the answer.
					b, err := proto.Marshal(x.Msg)
					if err == nil {
						tallies[p]["bytes"] += len(b)
					}
				}
				tallies[p][it.o.K+"/"+x.Code.String()]++
				if x.Code == codes.Internal || x.Code == codes.Unknown {
					tallies[p]["internal"]++
				}
				if it.stable != nil {
					msg := ""
					if !x.OK() {
						msg = fmt.Sprintf("failed with %s %s", x.Code, x.Err)
					} else {
						msg = it.stable(x)
					}
					if msg != "" {
						c.Violate("stable:"+it.o.K, fmt.Sprintf("%s, although what it names exists throughout and only other things change: %s", it.o, msg), map[string]interface{}{"case": i, "backend": backend})
						return
					}
				}
			}
		}(p)
	}
	close(start)
	wg.Wait()
	n := 0
	for _, t := range tallies {
		for k, v := range t {
			if k == "bytes" || k == "internal" {
				c.Count(k, v)
				continue
			}
			n += v
			c.Eval(backend + "/" + k)
		}
	}
	c.EvalN(n, "")
	c.Count("requests", n)
	// Still alive, and still making sense.
	w.Spy.delay = nil
	got, err := audit(w.Srv, w.Spy, []string{"stable", "a", "b", "c", "d"}, []string{"base", "upper", "p", "q", "r", "s", "t"}, map[string]string{"stable": "stable-secret"})
	if err != nil {
		c.Violate("after-stress", err.Error(), i)
		return
	}
	for _, k := range sortedKeys(got) {
		if strings.HasPrefix(k, "RAW") {
			c.Violate("after-stress:RAW", k+": "+got[k], i)
		}
	}
	if got["E/stable/auth"] != "true" {
		c.Violate("after-stress:auth", "the stable entity can not authenticate afterwards", i)
	}
	// A change to every object must still be possible.
	for _, n := range []string{"stable", "a", "b", "c", "d"} {
		Exec(ctxRoot(), w.Srv, Op{K: "EntityUnlock", E: n})
	}
	if x := Exec(ctxRoot(), w.Srv, Op{K: "GroupUM", G: "base", Act: actUPSERT, Key: "k", Val: "v"}); !x.OK() {
		c.Violate("after-stress:change", "a change after the stress fails: "+x.Err, i)
	}
}

// stressKV exercises one storage backend from several goroutines.
func stressKV(c *Ctx, i int, r *rand.Rand) {
	be := linBackends[i%3]
	dir := filepath.Join(c.Scratch, fmt.Sprintf("skv%d", atomic.AddInt64(&worldSeq, 1)))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	kv, err := openKV(be, dir)
	if err != nil {
		c.Violate("kv-open:"+be, err.Error(), nil)
		return
	}
	var events int64
	kv.SetEventFunc(func(db.Event) { atomic.AddInt64(&events, 1) })
	stable := map[string][]byte{}
	for k := 0; k < 4; k++ {
		key := fmt.Sprintf("/entities/st%d", k)
		v := bytes.Repeat([]byte{byte('A' + k)}, 10+k*700)
		stable[key] = v
		if err := kv.Put(key, v); err != nil {
			c.Violate("kv-put:"+be, err.Error(), nil)
			return
		}
	}
	// Every value written names its key and is of one byte throughout,
	// so a mixture of two values is recognised.
	val := func(r *rand.Rand, key string) []byte {
		b := byte('a' + r.Intn(26))
		return append([]byte(key+"|"), bytes.Repeat([]byte{b}, 1+r.Intn(5000))...)
	}
	whole := func(key string, v []byte) bool {
		p := []byte(key + "|")
		if !bytes.HasPrefix(v, p) || len(v) == len(p) {
			return false
		}
		v = v[len(p):]
		return bytes.Count(v, v[:1]) == len(v)
	}
	names := []string{"x", "y", "z"}
	if i%2 == 1 {
		for k := 0; k < 30; k++ {
			names = append(names, fmt.Sprintf("n%d", k))
		}
	}
	P, L := 8, c.N(150, 500)
	seeds := make([]int64, P)
	for p := range seeds {
		seeds[p] = r.Int63()
	}
	var wg sync.WaitGroup
	var okN, nf int64
	for p := 0; p < P; p++ {
		wg.Add(1)
		go func(p int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seeds[p]))
			bad := func(key, msg string) {
				c.Violate("kv-"+key+":"+be, msg, map[string]interface{}{"case": i, "backend": be})
			}
			for k := 0; k < L; k++ {
				dirn := oneOf(r, []string{"/entities/", "/groups/"})
				key := dirn + oneOf(r, names)
				x := r.Intn(8)
				if i%2 == 1 { // one lists, the others create and remove
					x = oneOf(r, []int{0, 2})
					if p == 0 {
						x = 7
					}
				}
				switch x {
				case 0, 1:
					if err := kv.Put(key, val(r, key)); err != nil {
						bad("put", "a write overlapping others failed: "+err.Error())
						return
					}
				case 2:
					if err := kv.Del(key); err != nil && err != db.ErrNoValue {
						bad("del", "a deletion overlapping others failed: "+err.Error())
						return
					}
				case 3, 4:
					v, err := kv.Get(key)
					switch {
					case err == db.ErrNoValue:
						atomic.AddInt64(&nf, 1)
					case err != nil:
						bad("get", "a read overlapping changes failed: "+err.Error())
						return
					case !whole(key, v):
						bad("torn", fmt.Sprintf("reading %s gave bytes nobody wrote: %q", key, trunc(string(v), 60)))
						return
					}
				case 5, 6:
					s := fmt.Sprintf("/entities/st%d", r.Intn(4))
					v, err := kv.Get(s)
					if err != nil || !bytes.Equal(v, stable[s]) {
						bad("stable", fmt.Sprintf("reading %s, which nobody changes: %v", s, err))
						return
					}
				default:
					ks, err := kv.Keys("/entities/*")
					if err != nil {
						bad("keys", "listing while others change failed: "+err.Error())
						return
					}
					for s := range stable {
						if !contains(ks, s) {
							bad("keys", fmt.Sprintf("%s is missing from a listing although it was there all the time", s))
							return
						}
					}
					for _, k := range ks {
						if _, ok := stable[k]; !ok && (!strings.HasPrefix(k, "/entities/") || !contains(names, strings.TrimPrefix(k, "/entities/"))) {
							bad("keys", fmt.Sprintf("%q appeared in a listing, nobody wrote it", k))
							return
						}
					}
				}
				atomic.AddInt64(&okN, 1)
			}
		}(p)
	}
	wg.Wait()
	kv.Close()
	c.EvalN(int(okN), fmt.Sprintf("kv/%s/%d", be, i))
	c.Count("kv_accesses:"+be, int(okN))
	c.Count("kv_events:"+be, int(events))
	if events == 0 {
		c.Violate("kv-events:"+be, "no change notification arrived", i)
	}
}

// stressMisc: token service, status and the client's memory cache.
func stressMisc(c *Ctx, i int, r *rand.Rand) {
	tc, err := cache.NewTokenCache("memory")
	if err != nil {
		c.Violate("cache", err.Error(), nil)
		return
	}
	tc.PutToken("keep", "t-keep")
	var wg sync.WaitGroup
	for p := 0; p < 8; p++ {
		wg.Add(1)
		s := r.Int63()
		go func(p int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(s))
			for k := 0; k < 60; k++ {
				o := fmt.Sprintf("o%d", r.Intn(3))
				switch r.Intn(7) {
				case 0:
					tc.PutToken(o, "t-"+o)
				case 1:
					tc.DelToken(o)
				case 2, 3:
					if t, err := tc.GetToken(o); err == nil && t != "t-"+o {
						c.Violate("cache-get", fmt.Sprintf("cached token of %s is %q", o, t), nil)
					}
					if t, err := tc.GetToken("keep"); err != nil || t != "t-keep" {
						c.Violate("cache-keep", fmt.Sprintf("cached token of an untouched owner: %q %v", t, err), nil)
					}
				case 4, 5:
					t, err := jwtSvc.Generate(token.Claims{EntityID: o}, token.GetConfig())
					if err != nil {
						c.Violate("token-generate", err.Error(), nil)
						continue
					}
					cl, err := jwtSvc.Validate(t)
					if err != nil || cl.EntityID != o {
						c.Violate("token-validate", fmt.Sprintf("%v %q", err, cl.EntityID), nil)
					}
				default:
					health.Check()
				}
			}
		}(p)
	}
	wg.Wait()
	c.EvalN(8*60, fmt.Sprintf("misc/%d", i%4))
}

// stressResolver works the part that answers membership questions
// alone, which meets far more overlaps than requests do.
func stressResolver(c *Ctx, i int, r *rand.Rand) {
	mr := mresolver.New()
	mr.SetParentLogger(hclog.NewNullLogger())
	const groups, entities = 4, 3
	gn := func(k int) string { return fmt.Sprintf("g%d", k) }
	for k := 0; k < groups; k++ {
		mr.SyncGroup(gn(k), nil, nil)
	}
	mr.SyncGroup("fixed", []string{"base"}, nil)
	mr.SyncGroup("base", nil, nil)
	mr.SyncGroup("fixed", []string{"base"}, nil)
	mr.SyncDirectGroups("always", []string{"base"})
	for k := 0; k < entities; k++ {
		mr.SyncDirectGroups(fmt.Sprintf("e%d", k), []string{gn(k)})
	}
	var wg sync.WaitGroup
	var stop int32
	var total int64
	jobs := []func(r *rand.Rand) bool{
		func(r *rand.Rand) bool {
			mr.MembersOfGroup(gn(r.Intn(groups)))
			return contains(mr.MembersOfGroup("fixed"), "always")
		},
		func(r *rand.Rand) bool {
			mr.GroupsForEntity(fmt.Sprintf("e%d", r.Intn(entities)))
			gs := mr.GroupsForEntity("always")
			return contains(gs, "base") && contains(gs, "fixed")
		},
		func(r *rand.Rand) bool {
			mr.SyncDirectGroups(fmt.Sprintf("e%d", r.Intn(entities)), []string{gn(r.Intn(groups)), "base"}[:r.Intn(3)])
			return true
		},
		func(r *rand.Rand) bool {
			k := r.Intn(groups)
			if k == 0 {
				mr.SyncGroup(gn(k), nil, nil)
			} else if r.Intn(2) == 0 {
				mr.SyncGroup(gn(k), []string{gn(r.Intn(k))}, nil)
			} else {
				mr.SyncGroup(gn(k), nil, []string{gn(r.Intn(k))})
			}
			return true
		},
		func(r *rand.Rand) bool {
			mr.RemoveEntity(fmt.Sprintf("e%d", r.Intn(entities)))
			mr.RemoveGroup(gn(r.Intn(groups)))
			return true
		},
	}
	for k := 0; k < 10; k++ {
		job, r := jobs[k%len(jobs)], rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard("resolver", func() {
				for atomic.LoadInt32(&stop) == 0 {
					if !job(r) {
						c.Violate("resolver:missing", "a membership that was there all the time was not reported while others changed", i)
						return
					}
					if n := atomic.AddInt64(&total, 1); n%8192 == 0 {
						c.EvalN(8192, "")
					}
				}
			})
		}()
	}
	time.Sleep(time.Duration(c.N(800, 2000)) * time.Millisecond)
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	c.Eval("resolver")
	c.Count("membership questions and changes without pause", int(total))
}

// stressTight asks without any pause, about the same few objects that
// others change without any pause, so that requests meet in windows of
// a few instructions.
func stressTight(c *Ctx, i int, r *rand.Rand) {
	w := MustWorld(c, WOpts{Backend: "memory"})
	if w == nil {
		return
	}
	defer w.Close()
	depth := 2 + r.Intn(20)
	setup := []Op{{K: "EntityCreate", E: "e", N: -1, S: "s"}, {K: "EntityCreate", E: "f", N: -1, S: "s"}}
	for j := 0; j < depth; j++ {
		setup = append(setup, Op{K: "GroupCreate", G: fmt.Sprintf("g%d", j), N: -1})
		if j > 0 {
			setup = append(setup, Op{K: "GroupUpdateRules", G: fmt.Sprintf("g%d", j), T: fmt.Sprintf("g%d", j-1), Act: ruleINC})
		}
	}
	setup = append(setup, Op{K: "GroupAddMember", E: "e", G: "g0"})
	for _, o := range setup {
		if res := Exec(ctxRoot(), w.Srv, o); !res.OK() {
			c.Violate("tight-setup:"+o.K, resStr(res), o)
			return
		}
	}
	top := fmt.Sprintf("g%d", depth-1)
	reads := [][]Op{
		{{K: "GroupMembers", G: top}, {K: "GroupMembers", G: "g0"}, {K: "EntityGroups", E: "e"}},
		{{K: "EntityInfo", E: "e"}, {K: "GroupInfo", G: "g0"}, {K: "EntityUM", E: "e", Act: actREAD, Key: "*"}, {K: "EntityKeys", E: "e", Act: actREAD}, {K: "EntityKVGet", E: "e", Key: "k"}},
		{{K: "EntitySearch", Key: "e"}, {K: "GroupSearch", Key: "g0"}, {K: "SystemStatus"}, {K: "SystemPing"}},
		{{K: "AuthGetToken", E: "e", S: "s"}, {K: "GroupMembers", G: top}, {K: "AuthEntity", E: "f", S: "x"}},
	}
	writes := [][]Op{
		{{K: "GroupUpdateRules", G: "g1", T: "g0", Act: ruleDEL}, {K: "GroupUpdateRules", G: "g1", T: "g0", Act: ruleINC}},
		{{K: "GroupAddMember", E: "e", G: top}, {K: "GroupDelMember", E: "e", G: top}},
		{{K: "EntityUM", E: "e", Act: actUPSERT, Key: "k", Val: "v"}, {K: "EntityUM", E: "e", Act: actCLEAREXACT, Key: "k"}},
		{{K: "EntityCreate", E: "new", N: -1, S: "s"}, {K: "GroupAddMember", E: "new", G: "g0"}, {K: "EntityDestroy", E: "new"}},
		{{K: "GroupCreate", G: "new", N: -1}, {K: "GroupUpdateRules", G: "new", T: "g0", Act: ruleINC}, {K: "GroupDestroy", G: "new"}},
	}
	r.Shuffle(len(reads), func(a, b int) { reads[a], reads[b] = reads[b], reads[a] })
	r.Shuffle(len(writes), func(a, b int) { writes[a], writes[b] = writes[b], writes[a] })
	todo := append(append([][]Op{}, writes[:1+r.Intn(3)]...), reads[:2+r.Intn(3)]...)
	var wg sync.WaitGroup
	var stop int32
	var total int64
	for k := 0; k < 8; k++ {
		ops := todo[k%len(todo)]
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Guard("tight", func() {
				for j := 0; atomic.LoadInt32(&stop) == 0; j++ {
					o := ops[j%len(ops)]
					res := Exec(ctxRoot(), w.Srv, o)
					n := atomic.AddInt64(&total, 1)
					if o.K == "GroupMembers" && o.G == "g0" && !contains(entityNames(res.Ents), "e") {
						c.Violate("tight:missing", fmt.Sprintf("%s is answered with %q, without e that is in it all the time", o, entityNames(res.Ents)), i)
						return
					}
					if n%4096 == 0 {
						c.EvalN(4096, "")
					}
				}
			})
		}()
	}
	time.Sleep(time.Duration(c.N(1200, 2500)) * time.Millisecond)
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	for _, ops := range todo {
		c.Eval(fmt.Sprintf("tight/%s/%d", ops[0].K, depth/5))
	}
	c.Count("requests without pause", int(total))
}

func init() {
	register(&Check{
		ID:       "P20",
		Rule:     "situations are distinct (backend, request kind, outcome) seen under load, and storage and token service stress rounds; the deciding monitors are the race detector, the crash and progress watchdog, and the invariants of untouched objects",
		MinEvals: 5000,
		Assume:   []string{"registration of hooks, storage backends and health checks happens at start-up and is not exercised while requests run"},
		Run: func(c *Ctx) {
			token.SetLifetime(0)
			c.CasesP("server", c.N(24, 600), 3, func(i int, r *rand.Rand) { stressServer(c, i, r) })
			c.CasesP("tight", c.N(8, 150), 1, func(i int, r *rand.Rand) { stressTight(c, i, r) })
			c.CasesP("resolver", c.N(5, 60), 1, func(i int, r *rand.Rand) { stressResolver(c, i, r) })
			c.CasesP("storage", c.N(40, 600), 3, func(i int, r *rand.Rand) { stressKV(c, i, r) })
			c.CasesP("services", c.N(8, 100), 1, func(i int, r *rand.Rand) { stressMisc(c, i, r) })
		},
	})
}
