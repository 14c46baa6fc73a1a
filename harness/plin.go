//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"google.golang.org/grpc/codes"

	types "github.com/netauth/protocol"
)

// jitter makes a delay function for the storage boundary: most of the
// orders in which overlapping requests can interleave differ in the
// order of their storage accesses.
func jitter(seed int64, pct uint64, max time.Duration) func(op, key string, after bool) {
	var n uint64
	return func(op, key string, after bool) {
		x := atomic.AddUint64(&n, 1)
		x = (x + uint64(seed)) * 0x9E3779B97F4A7C15
		x ^= x >> 29
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 32
		switch {
		case x%100 < pct:
			time.Sleep(time.Duration((x>>20)%uint64(max)) + 1)
		case x%100 < pct+20:
			runtime.Gosched()
		}
	}
}

// conc is the record of one client's request.
type conc struct {
	Client    int   `json:"client"`
	Op        Op    `json:"op"`
	Call, Ret int64 `json:"-"`
	Res       Res   `json:"-"`
	Answer    string
	Flat      Flat `json:"-"`
}

type linState struct {
	m   *Model
	key *string
}

func modelKey(m *Model) string {
	b, _ := json.Marshal(m)
	return string(b)
}

func (s linState) str() string {
	if *s.key == "" {
		*s.key = modelKey(s.m)
	}
	return *s.key
}

func entFlat(m *Model, n string) Flat {
	mm := newModel()
	mm.E[n] = m.E[n]
	f := mm.Flatten()
	for _, k := range []string{"E/" + n + "/exists", "E/" + n + "/eff", "E/" + n + "/auth", "LIST/entities", "LIST/groups"} {
		delete(f, k)
	}
	return f
}

func grpFlat(m *Model, n string) Flat {
	mm := newModel()
	mm.G[n] = m.G[n]
	f := mm.Flatten()
	for _, k := range []string{"G/" + n + "/exists", "G/" + n + "/members", "LIST/entities", "LIST/groups"} {
		delete(f, k)
	}
	return f
}

func accepts(x Expect, r Res) bool {
	switch {
	case x.Want == wantOK && !r.OK(), x.Want == wantFail && r.OK():
		return false
	case x.Want == wantFail && x.Codes != nil:
		return contains(x.Codes, r.Code)
	}
	return true
}

// linStep says whether one request answered so is possible in a state,
// and the state after it.
func linStep(m *Model, e *conc) (bool, *Model) {
	o, r := e.Op, e.Res
	if o.K == "!final" {
		want := m.Flatten()
		for n, x := range m.E {
			if x.Num == -1 {
				want["E/"+n+"/num"] = e.Flat["E/"+n+"/num"]
			}
		}
		for n, x := range m.G {
			if x.Num == -1 {
				want["G/"+n+"/num"] = e.Flat["G/"+n+"/num"]
			}
		}
		return len(diffFlat(want, e.Flat)) == 0, m
	}
	m = m.Clone()
	x := m.PredictAuth(o, false)
	if !accepts(x, r) {
		return false, m
	}
	if !r.OK() {
		return true, m
	}
	switch o.K {
	case "EntityInfo":
		if len(r.Ents) != 1 || r.Ents[0].GetID() != o.E {
			return false, m
		}
		if m.E[o.E].Num == -1 {
			m.E[o.E].Num = r.Ents[0].GetNumber()
		}
		got := Flat{}
		flatEntity(got, "E/"+o.E+"/", r.Ents[0])
		return len(diffFlat(entFlat(m, o.E), got)) == 0, m
	case "GroupInfo":
		if len(r.Grps) != 1 || r.Grps[0].GetName() != o.G {
			return false, m
		}
		if m.G[o.G].Num == -1 {
			m.G[o.G].Num = r.Grps[0].GetNumber()
		}
		got := Flat{}
		flatGroup(got, "G/"+o.G+"/", r.Grps[0])
		return len(diffFlat(grpFlat(m, o.G), got)) == 0, m
	case "GroupMembers":
		return sameStrings(m.Members(o.G), entityNames(r.Ents)), m
	case "EntityGroups":
		return sameStrings(m.Effective(o.E), groupNames(r.Grps)), m
	case "EntitySearch":
		return sameStrings(existing(o.E, m.E[o.E] != nil), entityNames(r.Ents)), m
	case "GroupSearch":
		return sameStrings(existing(o.G, m.G[o.G] != nil), groupNames(r.Grps)), m
	}
	if x.Check != nil && x.Check(r) != nil {
		return false, m
	}
	if x.Apply != nil {
		x.Apply(r)
	}
	return true, m
}

func existing(n string, yes bool) []string {
	if yes {
		return []string{n}
	}
	return nil
}

func linModel(init *Model) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return linState{init, new(string)} },
		Step: func(s, in, out interface{}) (bool, interface{}) {
			ok, m := linStep(s.(linState).m, in.(*conc))
			return ok, linState{m, new(string)}
		},
		Equal: func(a, b interface{}) bool { return a.(linState).str() == b.(linState).str() },
	}
}

func linCheck(init *Model, h []*conc, d time.Duration) porcupine.CheckResult {
	ops := []porcupine.Operation{}
	for _, e := range h {
		ops = append(ops, porcupine.Operation{ClientId: e.Client, Input: e, Output: e, Call: e.Call, Return: e.Ret})
	}
	return porcupine.CheckOperationsTimeout(linModel(init), ops, d)
}

// summary makes an answer readable in a replay.
func (e *conc) summary() {
	s := e.Res.Code.String()
	switch {
	case len(e.Res.Ents) > 0 && e.Op.K == "EntityInfo":
		f := Flat{}
		flatEntity(f, "", e.Res.Ents[0])
		b, _ := json.Marshal(f)
		s += " " + string(b)
	case len(e.Res.Grps) > 0 && e.Op.K == "GroupInfo":
		f := Flat{}
		flatGroup(f, "", e.Res.Grps[0])
		b, _ := json.Marshal(f)
		s += " " + string(b)
	case e.Res.Ents != nil:
		s += " " + qlist(entityNames(e.Res.Ents))
	case e.Res.Grps != nil:
		s += " " + qlist(groupNames(e.Res.Grps))
	case e.Res.Strs != nil:
		s += " " + qlist(e.Res.Strs)
	case e.Res.Err != "":
		s += " " + e.Res.Err
	}
	if e.Flat != nil {
		b, _ := json.Marshal(e.Flat)
		s += " " + string(b)
	}
	e.Answer = fmt.Sprintf("[%d,%d] %s", e.Call, e.Ret, s)
}

// runClients lets every client perform its requests, all starting
// together, and returns the history with logical times.
func runClients(w *World, plan [][]Op) []*conc {
	var clock int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan struct{})
	h := []*conc{}
	for i := range plan {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for _, o := range plan[i] {
				cx := parseCred(o.Cred).ctx()
				e := &conc{Client: i, Op: o}
				e.Call = atomic.AddInt64(&clock, 1)
				e.Res = Exec(cx, w.Srv, o)
				e.Ret = atomic.AddInt64(&clock, 1)
				mu.Lock()
				h = append(h, e)
				mu.Unlock()
			}
		}(i)
	}
	close(start)
	wg.Wait()
	sortConc(h)
	return h
}

func sortConc(h []*conc) {
	sort.Slice(h, func(a, b int) bool { return h[a].Call < h[b].Call })
}

func overlapping(h []*conc) int {
	n := 0
	for i, a := range h {
		for _, b := range h[i+1:] {
			if a.Client != b.Client && a.Call < b.Ret && b.Call < a.Ret {
				n++
			}
		}
	}
	return n
}

func orderSig(log []KVEvent) string {
	h := fnv.New64a()
	for _, e := range log {
		fmt.Fprintf(h, "%s %s;", e.Op, e.Key)
	}
	return fmt.Sprintf("%x", h.Sum64())
}

// linScenario is a family of concurrent histories.
type linScenario struct {
	name    string
	w       GenW
	setup   []Op
	ents    []string
	grps    []string
	clients int
	each    int
	views   bool // also judge membership answers, each view for itself
	xform   func(r *rand.Rand, o Op) Op
}

func prepare(c *Ctx, w *World, setup []Op) (*Model, bool) {
	m := newModel()
	for _, o := range setup {
		r := Exec(parseCred(o.Cred).ctx(), w.Srv, o)
		x := m.PredictAuth(o, false)
		if !r.OK() || x.Want == wantFail {
			c.Inconclusive("setup:" + o.K)
			return nil, false
		}
		if x.Apply != nil {
			x.Apply(r)
		}
	}
	return m, true
}

func (s *linScenario) run(c *Ctx, i int, r *rand.Rand, backend string) {
	w := MustWorld(c, WOpts{Backend: backend})
	if w == nil {
		return
	}
	defer w.Close()
	init, ok := prepare(c, w, s.setup)
	if !ok {
		return
	}
	g := newGen(r, s.w, 0, 0)
	g.E, g.G = s.ents, s.grps
	g.Exist = 0
	g.Sec = []string{"s0", "s1", "s2"}
	plan := make([][]Op, s.clients)
	names := newModel() // only tells the generator what exists at first
	for n, e := range init.E {
		names.E[n] = e
	}
	for n, e := range init.G {
		names.G[n] = e
	}
	uniq := 0
	for k := range plan {
		for j := 0; j < s.each; j++ {
			o := g.Next(r, names, j)
			if o.K == "EntityUpdate" && o.M != nil {
				uniq++
				o.M = map[string]string{oneOf(r, entFields): fmt.Sprintf("u%d", uniq)}
				o.X = false
			}
			if s.xform != nil {
				o = s.xform(r, o)
			}
			plan[k] = append(plan[k], o)
		}
	}
	w.Spy.delay = jitter(int64(i)*7919+c.Seed, 35, 1200*time.Microsecond)
	w.Spy.Record(true)
	h := runClients(w, plan)
	w.Spy.Record(false)
	w.Spy.delay = nil
	sig := orderSig(w.Spy.Log())
	c.Count("overlapping_pairs", overlapping(h))
	c.Count("requests", len(h))
	for _, e := range h {
		c.Count("req:"+e.Op.K, 1)
	}

	linJudge(c, linCase{name: s.name, i: i, backend: backend, setup: s.setup, init: init, w: w, ents: s.ents, grps: s.grps, secs: g.Sec, views: s.views, sig: sig}, h)
}

// linCase is a history with what is needed to judge it.
type linCase struct {
	name, backend, sig string
	i                  int
	setup              []Op
	init               *Model
	w                  *World
	ents, grps, secs   []string
	views              bool
}

// linJudge decides if some one-at-a-time order explains a history and
// the data at its end.
func linJudge(c *Ctx, s linCase, h []*conc) bool {
	// The end result, as an audit after everything.
	end := h[len(h)-1].Ret
	for _, e := range h {
		if e.Ret > end {
			end = e.Ret
		}
	}
	records, reads := []*conc{}, map[string][]*conc{}
	muts := []*conc{}
	for _, e := range h {
		switch e.Op.K {
		case "GroupMembers":
			reads["members "+e.Op.G] = append(reads["members "+e.Op.G], e)
		case "EntityGroups":
			reads["groups "+e.Op.E] = append(reads["groups "+e.Op.E], e)
		case "EntitySearch", "GroupSearch":
			reads["search "+e.Op.Key] = append(reads["search "+e.Op.Key], e)
		default:
			records = append(records, e)
			if mutating(e.Op) {
				muts = append(muts, e)
			}
		}
	}
	// The final secrets are not visible; try all.
	fin, err := audit(s.w.Srv, s.w.Spy, union(s.ents, sortedKeys(s.init.E)), union(s.grps, sortedKeys(s.init.G)), nil)
	if err != nil {
		c.Violate(s.name+":RAW", err.Error(), h)
		return false
	}
	for _, k := range sortedKeys(fin) {
		if strings.HasPrefix(k, "RAW") {
			c.Violate(s.name+":RAW", k+": "+fin[k], h)
			return false
		}
	}
	for n := range s.init.E {
		delete(fin, "E/"+n+"/auth")
	}
	F := &conc{Client: 1000, Op: Op{K: "!final"}, Call: end + 1, Ret: end + 2, Flat: fin}
	tail := []*conc{F}
	t := end + 3
	for _, n := range union(s.ents, sortedKeys(s.init.E)) {
		for _, sec := range append([]string{}, s.secs...) {
			o := Op{K: "AuthEntity", E: n, S: sec}
			tail = append(tail, &conc{Client: 1000, Op: o, Call: t, Res: Exec(ctxNone(), s.w.Srv, o), Ret: t + 1})
			t += 2
		}
	}
	full := append(append([]*conc{}, records...), tail...)
	good := true
	report := func(key, msg string, hh []*conc) {
		for _, e := range hh {
			e.summary()
		}
		good = false
		c.Violate(key, msg, map[string]interface{}{"case": s.i, "backend": s.backend, "setup": s.setup, "history": hh})
	}
	switch linCheckF(s.init, full, 20*time.Second) {
	case porcupine.Illegal:
		report("not-one-at-a-time:"+s.name, "no one-at-a-time order of the requests explains their answers and the final data", full)
	case porcupine.Unknown:
		c.Inconclusive("search-too-large")
	}
	c.Eval("records/" + s.name + "/" + s.backend + "/" + s.sig)
	if !s.views {
		return good
	}
	for _, v := range sortedKeys(reads) {
		hh := append(append([]*conc{}, muts...), reads[v]...)
		switch linCheckF(s.init, hh, 20*time.Second) {
		case porcupine.Illegal:
			report("not-one-at-a-time:"+s.name+":"+strings.Fields(v)[0], "no one-at-a-time order explains the answers about "+v, hh)
		case porcupine.Unknown:
			c.Inconclusive("search-too-large")
		}
		c.Eval("view/" + s.name + "/" + v + "/" + s.sig)
	}
	if c.NeedSample() {
		for _, e := range full {
			e.summary()
		}
		k := full
		if len(k) > 10 {
			k = k[:10]
		}
		c.Sample(map[string]interface{}{"scenario": s.name, "backend": s.backend, "first_requests": k})
	}
	return good
}

// linCheckF drops the "auth" answers the audit did not ask for.
func linCheckF(init *Model, h []*conc, d time.Duration) porcupine.CheckResult {
	ops := []porcupine.Operation{}
	for _, e := range h {
		ops = append(ops, porcupine.Operation{ClientId: e.Client, Input: e, Output: e, Call: e.Call, Return: e.Ret})
	}
	mod := linModel(init)
	step := mod.Step
	mod.Step = func(s, in, out interface{}) (bool, interface{}) {
		e := in.(*conc)
		if e.Op.K != "!final" {
			return step(s, in, out)
		}
		m := s.(linState).m
		want := m.Flatten()
		for k := range want {
			if strings.HasSuffix(k, "/auth") {
				delete(want, k)
			}
		}
		for n, x := range m.E {
			if x.Num == -1 {
				want["E/"+n+"/num"] = e.Flat["E/"+n+"/num"]
			}
		}
		for n, x := range m.G {
			if x.Num == -1 {
				want["G/"+n+"/num"] = e.Flat["G/"+n+"/num"]
			}
		}
		return len(diffFlat(want, e.Flat)) == 0, s
	}
	return porcupine.CheckOperationsTimeout(mod, ops, d)
}

var linBackends = []string{"memory", "filesystem", "bitcask"}

func linScenarios() []*linScenario {
	base := []Op{
		{K: "EntityCreate", E: "e1", N: 1, S: "s0"}, {K: "EntityCreate", E: "e2", N: 2, S: "s0"},
		{K: "GroupCreate", G: "g1", N: 1}, {K: "GroupCreate", G: "g2", N: 2}, {K: "GroupCreate", G: "g3", N: 3},
	}
	self := func(r *rand.Rand, o Op) Op {
		if o.K == "AuthChangeSecret" && r.Intn(2) == 0 {
			o.Cred = credStr(o.E)
			o.S = oneOf(r, []string{"s0", "s1", "s2"})
		}
		return o
	}
	return []*linScenario{
		{name: "one-entity", setup: base, ents: []string{"e1"}, grps: []string{"g1", "g2"}, clients: 4, each: 6, xform: self, w: GenW{
			"EntityUpdate": 4, "EntityUM": 5, "EntityKeys": 4, "EntityKVAdd": 3, "EntityKVDel": 2, "EntityKVReplace": 2, "EntityKVGet": 1,
			"EntityLock": 2, "EntityUnlock": 3, "AuthEntity": 4, "AuthGetToken": 2, "AuthChangeSecret": 4, "GroupAddMember": 3, "GroupDelMember": 2,
			"EntityInfo": 5, "SystemCapabilities": 2}},
		{name: "life", setup: base, ents: []string{"e1", "e9"}, grps: []string{"g1", "g9"}, clients: 4, each: 5, xform: self, w: GenW{
			"EntityCreate": 6, "EntityDestroy": 5, "GroupCreate": 5, "GroupDestroy": 4, "EntityInfo": 4, "GroupInfo": 3,
			"EntityUpdate": 2, "EntityUM": 2, "AuthEntity": 4, "AuthChangeSecret": 3, "EntityLock": 1, "EntityUnlock": 1, "GroupUpdate": 2, "GroupUM": 2, "GroupAddMember": 2, "GroupDelMember": 1, "SystemCapabilities": 2}},
		{name: "one-group", setup: base, ents: []string{"e1"}, grps: []string{"g1", "g2"}, clients: 4, each: 6, w: GenW{
			"GroupUpdate": 4, "GroupUM": 5, "GroupKVAdd": 3, "GroupKVDel": 2, "GroupKVReplace": 2, "GroupKVGet": 1, "GroupInfo": 5, "SystemCapabilities": 3, "GroupUpdateRules": 3}},
		{name: "rules", setup: base, ents: []string{"e1"}, grps: []string{"g1", "g2", "g3"}, clients: 4, each: 5, w: GenW{
			"GroupUpdateRules": 10, "GroupInfo": 2, "GroupDestroy": 1, "GroupCreate": 1}},
		{name: "membership", setup: base, ents: []string{"e1", "e2"}, grps: []string{"g1", "g2", "g3"}, clients: 4, each: 6, views: true, w: GenW{
			"GroupUpdateRules": 5, "GroupAddMember": 5, "GroupDelMember": 4, "GroupMembers": 5, "EntityGroups": 5}},
	}
}

// creation races: one winner per name, numbers never shared.
func linCreate(c *Ctx, i int, r *rand.Rand, backend string) {
	w := MustWorld(c, WOpts{Backend: backend})
	if w == nil {
		return
	}
	defer w.Close()
	entity := r.Intn(2) == 0
	kind, info := "EntityCreate", "EntityInfo"
	if !entity {
		kind, info = "GroupCreate", "GroupInfo"
	}
	mk := func(n string, num int32, tag string) Op {
		if entity {
			return Op{K: kind, E: n, N: num, S: tag}
		}
		return Op{K: kind, G: n, N: num, Val: tag}
	}
	P := 3 + r.Intn(5)
	plan := make([][]Op, P)
	names := []string{}
	for k := 0; k < 3+r.Intn(6); k++ {
		names = append(names, fmt.Sprintf("n%d", k))
	}
	contended := r.Intn(2) == 0
	for p := range plan {
		for k, n := range names {
			if !contended {
				n = fmt.Sprintf("%s-%d", n, p)
			}
			num := int32(-1)
			if r.Intn(6) == 0 {
				num = int32(1000 * (1 + p*10 + k))
			}
			plan[p] = append(plan[p], mk(n, num, fmt.Sprintf("tag-%d-%d", p, k)))
		}
		r.Shuffle(len(plan[p]), func(a, b int) { plan[p][a], plan[p][b] = plan[p][b], plan[p][a] })
	}
	w.Spy.delay = jitter(int64(i)*104729+c.Seed, 40, 1500*time.Microsecond)
	w.Spy.Record(true)
	h := runClients(w, plan)
	w.Spy.Record(false)
	w.Spy.delay = nil
	c.Count("overlapping_pairs", overlapping(h))
	c.Count("requests", len(h))
	won := map[string]*conc{}
	all := map[string]bool{}
	bad := func(key, msg string) {
		for _, e := range h {
			e.summary()
		}
		c.Violate(key+":"+kind, msg, map[string]interface{}{"backend": backend, "history": h})
	}
	for _, e := range h {
		n := e.Op.E + e.Op.G
		all[n] = true
		switch {
		case e.Res.OK() && won[n] != nil:
			bad("two-winners", fmt.Sprintf("two requests both created %q", n))
		case e.Res.OK():
			won[n] = e
		case e.Res.Code != codes.AlreadyExists:
			bad("create-failed", fmt.Sprintf("creating %q failed with %s %s", n, e.Res.Code, e.Res.Err))
		}
	}
	nums := map[int32]string{}
	type nn struct {
		e   *conc
		num int32
	}
	list := []nn{}
	for n := range all {
		e := won[n]
		if e == nil {
			bad("no-winner", fmt.Sprintf("nobody created %q although it was not there", n))
			continue
		}
		x := Exec(ctxNone(), w.Srv, Op{K: info, E: n, G: n})
		var num int32
		switch {
		case !x.OK():
			bad("lost", fmt.Sprintf("%q was created and is not there", n))
			continue
		case entity:
			num = x.Ents[0].GetNumber()
			if a := Exec(ctxNone(), w.Srv, Op{K: "AuthEntity", E: n, S: e.Op.S}); !a.OK() {
				bad("replaced", fmt.Sprintf("%q does not have the secret of the request that created it", n))
			}
		default:
			num = x.Grps[0].GetNumber()
			if x.Grps[0].GetDisplayName() != e.Op.Val {
				bad("replaced", fmt.Sprintf("%q does not have the name given by the request that created it", n))
			}
		}
		if e.Op.N != -1 && num != e.Op.N {
			bad("replaced", fmt.Sprintf("%q has number %d instead of %d", n, num, e.Op.N))
		}
		if o, ok := nums[num]; ok {
			bad("number-twice", fmt.Sprintf("%q and %q both have number %d", n, o, num))
		}
		nums[num] = n
		list = append(list, nn{e, num})
	}
	for _, a := range list {
		for _, b := range list {
			if b.e.Op.N == -1 && a.e.Ret < b.e.Call && a.num >= b.num {
				bad("number-order", fmt.Sprintf("automatic number %d was given out when %d was already in use", b.num, a.num))
			}
		}
	}
	c.EvalN(len(h), fmt.Sprintf("create/%s/%s/%s", kind, backend, orderSig(w.Spy.Log())))
}

// linMerge: many clients each add their own items to one object, while
// others authenticate as it; nothing may get lost.
func linMerge(c *Ctx, i int, r *rand.Rand, backend string) {
	w := MustWorld(c, WOpts{Backend: backend, Crypto: oneOf(r, []string{"nocrypto", "bcrypt"})})
	if w == nil {
		return
	}
	defer w.Close()
	m, ok := prepare(c, w, []Op{{K: "EntityCreate", E: "e", N: 1, S: "s0"}, {K: "GroupCreate", G: "g", N: 1}})
	if !ok {
		return
	}
	P := 3 + r.Intn(4)
	plan := make([][]Op, P)
	for k := 0; k < 6; k++ {
		if o := (Op{K: "GroupCreate", G: fmt.Sprintf("x%d", k), N: int32(50 + k)}); !Exec(ctxRoot(), w.Srv, o).OK() {
			c.Inconclusive("setup")
			return
		} else {
			m.Predict(o).Apply(Res{})
		}
	}
	xs := r.Perm(6)
	for p := range plan {
		for k := 0; k < 5; k++ {
			id := fmt.Sprintf("p%dk%d", p, k)
			var o Op
			switch r.Intn(9) {
			case 0:
				o = Op{K: "EntityUM", E: "e", Act: actUPSERT, Key: id, Val: "v"}
			case 1:
				o = Op{K: "EntityKVAdd", E: "e", Key: id, Vals: []KVVal{{V: id}}}
			case 2:
				o = Op{K: "EntityKeys", E: "e", Act: actADD, Key: "SSH", Val: id}
			case 3:
				o = Op{K: "EntityUpdate", E: "e", M: map[string]string{entFields[p%len(entFields)]: id}}
			case 4:
				o = Op{K: "GroupUM", G: "g", Act: actUPSERT, Key: id, Val: "v"}
			case 5:
				o = Op{K: "GroupKVAdd", G: "g", Key: id, Vals: []KVVal{{V: id}}}
			case 6:
				o = Op{K: "SystemCapabilities", T: "g", Act: actADD, Cap: allCaps[(p*5+k)%len(allCaps)]}
			case 7:
				o = Op{K: "SystemCapabilities", T: "e", Dir: true, Act: actADD, Cap: allCaps[(p*5+k)%len(allCaps)]}
			default:
				o = Op{K: "GroupAddMember", E: "e", G: fmt.Sprintf("x%d", xs[(p*5+k)%6])}
			}
			plan[p] = append(plan[p], o)
		}
	}
	plan = append(plan, nil, nil)
	for k := 0; k < 6; k++ {
		plan[P] = append(plan[P], Op{K: "AuthEntity", E: "e", S: "s0"})
		plan[P+1] = append(plan[P+1], Op{K: "AuthGetToken", E: "e", S: "s0"}, Op{K: "AuthEntity", E: "e", S: "wrong"})
	}
	w.Spy.delay = jitter(int64(i)*15485863+c.Seed, 30, 800*time.Microsecond)
	w.Spy.Record(true)
	h := runClients(w, plan)
	w.Spy.Record(false)
	w.Spy.delay = nil
	c.Count("overlapping_pairs", overlapping(h))
	c.Count("requests", len(h))
	for _, e := range h {
		// These all commute, so any order gives the same end.
		x := m.Predict(e.Op)
		if !accepts(x, e.Res) {
			c.Violate("merge:"+e.Op.K+":result", fmt.Sprintf("%s answered %s %s", e.Op, e.Res.Code, e.Res.Err), map[string]interface{}{"backend": backend, "plan": plan})
			return
		}
		if e.Res.OK() && x.Apply != nil && e.Op.K != "EntityUpdate" {
			x.Apply(e.Res)
		}
	}
	for p := range plan { // each client has its own field, in its own order
		for _, o := range plan[p] {
			if o.K == "EntityUpdate" {
				m.Predict(o).Apply(Res{})
			}
		}
	}
	got, err := audit(w.Srv, w.Spy, sortedKeys(m.E), sortedKeys(m.G), map[string]string{"e": "s0"})
	if err != nil {
		c.Violate("merge:RAW", err.Error(), plan)
		return
	}
	ds := diffFlat(m.Flatten(), got)
	if len(ds) > 0 {
		c.Violate("merge:"+ds[0].Aspect(), "after every change was acknowledged: "+ds[0].String(), map[string]interface{}{"backend": backend, "plan": plan})
	}
	c.EvalN(len(h), fmt.Sprintf("merge/%s/%s", backend, orderSig(w.Spy.Log())))
}

// linSecret: overlapping changes of one's own secret from the same old
// one: exactly one can have been first.
func linSecret(c *Ctx, i int, r *rand.Rand, backend string) {
	w := MustWorld(c, WOpts{Backend: backend})
	if w == nil {
		return
	}
	defer w.Close()
	if _, ok := prepare(c, w, []Op{{K: "EntityCreate", E: "e", N: 1, S: "s0"}}); !ok {
		return
	}
	w.Spy.delay = jitter(int64(i)*49979687+c.Seed, 40, time.Millisecond)
	old := "s0"
	for round := 0; round < 4; round++ {
		P := 2 + r.Intn(4)
		plan := make([][]Op, P)
		for p := range plan {
			plan[p] = []Op{{K: "AuthChangeSecret", E: "e", S: old, S2: fmt.Sprintf("s-%d-%d", round, p), Cred: credStr("e")}}
		}
		h := runClients(w, plan)
		wins := []string{}
		for _, e := range h {
			if e.Res.OK() {
				wins = append(wins, e.Op.S2)
			}
		}
		if len(wins) != 1 {
			c.Violate("secret-winners", fmt.Sprintf("%d of %d overlapping changes from the same old secret succeeded", len(wins), P), map[string]interface{}{"backend": backend, "plan": plan})
			return
		}
		for p := range plan {
			s := plan[p][0].S2
			if a := Exec(ctxNone(), w.Srv, Op{K: "AuthEntity", E: "e", S: s}); a.OK() != (s == wins[0]) {
				c.Violate("secret-result", fmt.Sprintf("secret %q works: %v, but %q was set", s, a.OK(), wins[0]), map[string]interface{}{"backend": backend, "plan": plan})
			}
		}
		old = wins[0]
		c.EvalN(P, fmt.Sprintf("secret/%s/%d", backend, P))
		// The entity being replaced by another of that name meanwhile.
		next := fmt.Sprintf("n-%d", round)
		cap := allCaps[round]
		plan = [][]Op{
			{{K: "AuthChangeSecret", E: "e", S: old, S2: "stolen", Cred: credStr("e")}},
			{{K: "EntityDestroy", E: "e"}, {K: "EntityCreate", E: "e", N: 1, S: next}, {K: "SystemCapabilities", T: "e", Dir: true, Act: actADD, Cap: cap}},
			{{K: "AuthGetToken", E: "e", S: old}, {K: "AuthGetToken", E: "e", S: old}, {K: "AuthGetToken", E: "e", S: old}},
		}
		for p := 0; p < 3; p++ {
			a := Op{K: "AuthEntity", E: "e", S: old}
			plan = append(plan, []Op{a, a, a, a})
		}
		h = runClients(w, plan)
		for _, e := range h {
			if e.Client == 1 && !e.Res.OK() {
				c.Violate("secret-replaced:"+e.Op.K, e.Res.Err, plan)
				return
			}
			if e.Op.K == "AuthGetToken" && e.Res.OK() {
				if cl, err := jwtSvc.Validate(e.Res.Tok); err != nil || contains(cl.Capabilities, types.Capability(cap)) {
					c.Violate("token-of-predecessor", fmt.Sprintf("a token issued for the secret of an entity that was destroyed meanwhile carries a capability (%s) of the new entity of that name", types.Capability(cap)), map[string]interface{}{"backend": backend, "plan": plan})
					return
				}
			}
		}
		if a := Exec(ctxNone(), w.Srv, Op{K: "AuthEntity", E: "e", S: next}); !a.OK() {
			c.Violate("secret-of-predecessor", "changing the secret of an entity that was destroyed meanwhile, knowing its old secret, changed the secret of the new entity of that name", map[string]interface{}{"backend": backend, "plan": plan})
			return
		}
		old = next
		c.EvalN(3, fmt.Sprintf("secret-replace/%s/%d", backend, h[0].Client))
	}
}

// linWatch: one client changes, others read everything as fast as they
// can; each answer must be right for a state between its start and end.
func linWatch(c *Ctx, i int, r *rand.Rand, backend string) {
	w := MustWorld(c, WOpts{Backend: backend})
	if w == nil {
		return
	}
	defer w.Close()
	ents, grps := []string{"e1", "e2", "e3"}, []string{"g1", "g2", "g3", "g4", "g5", "g6"}
	setup := []Op{}
	for k, n := range ents {
		setup = append(setup, Op{K: "EntityCreate", E: n, N: int32(k + 1), S: "s0"})
	}
	for k, n := range grps {
		setup = append(setup, Op{K: "GroupCreate", G: n, N: int32(k + 1)})
	}
	m, ok := prepare(c, w, setup)
	if !ok {
		return
	}
	g := newGen(r, GenW{"GroupUpdateRules": 8, "GroupAddMember": 4, "GroupDelMember": 2, "SystemCapabilities": 3, "EntityUpdate": 1, "GroupUpdate": 1, "EntityUM": 1}, 0, 0)
	g.E, g.G, g.Exist = ents, grps, 100
	steps := 60
	// Every other case: a diamond of rules with one rule toggled, where
	// a change reaches a group along two ways with opposite effect.
	diamond := i%2 == 0
	if diamond {
		steps = 120
		for _, o := range []Op{
			{K: "GroupUpdateRules", G: "g1", T: "g2", Act: ruleINC}, {K: "GroupUpdateRules", G: "g1", T: "g3", Act: ruleEXC},
			{K: "GroupUpdateRules", G: "g2", T: "g4", Act: ruleINC}, {K: "GroupUpdateRules", G: "g3", T: "g4", Act: ruleINC},
			{K: "GroupUpdateRules", G: "g6", T: "g3", Act: ruleINC}, {K: "GroupUpdateRules", G: "g6", T: "g2", Act: ruleEXC},
			{K: "GroupAddMember", E: "e1", G: "g5"}, {K: "GroupAddMember", E: "e2", G: "g5"}, {K: "GroupAddMember", E: "e2", G: "g2"},
		} {
			x := m.Predict(o)
			if r := Exec(ctxRoot(), w.Srv, o); !r.OK() {
				c.Inconclusive("setup:" + o.K)
				return
			}
			x.Apply(Res{})
			setup = append(setup, o)
		}
	}
	states := make([]*Model, 1, steps+1)
	states[0] = m.Clone()
	ops := []Op{}
	for k := 0; k < steps; k++ {
		o := g.Next(r, m, k)
		o.X = false
		if diamond {
			o = Op{K: "GroupUpdateRules", G: "g4", T: "g5", Act: oneOf(r, []int32{ruleINC, ruleINC, ruleINC, ruleEXC})}
			if k%2 == 1 {
				o.Act = ruleDEL
			}
		}
		// Undo often, so that the same shapes recur.
		if !diamond && o.K == "GroupUpdateRules" && r.Intn(3) == 0 {
			if rs := sortedKeys(m.G[o.G].Rules); len(rs) > 0 {
				o.T, o.Act = oneOf(r, rs), ruleDEL
			}
		}
		x := m.Predict(o)
		ops = append(ops, o)
		if x.Want == wantOK && x.Apply != nil {
			x.Apply(Res{})
		}
		states = append(states, m.Clone())
	}
	eff := make([]map[string]string, len(states))
	for k, s := range states {
		f := map[string]string{}
		for _, n := range ents {
			f["groups "+n] = qlist(s.Effective(n))
			b, _ := json.Marshal(entFlat(s, n))
			f["info "+n] = string(b)
		}
		for _, n := range grps {
			f["members "+n] = qlist(s.Members(n))
			b, _ := json.Marshal(grpFlat(s, n))
			f["ginfo "+n] = string(b)
		}
		eff[k] = f
	}
	if i%4 == 1 {
		w.Spy.delay = jitter(int64(i)*32452843+c.Seed, 15, 300*time.Microsecond)
	}
	var begun, done int64
	var stop int32
	var wg sync.WaitGroup
	var reads, changes int64
	seen := sync.Map{}
	for p := 0; p < 4; p++ {
		wg.Add(1)
		pr := rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				var q Op
				var key string
				e, gn := oneOf(pr, ents), oneOf(pr, grps)
				if diamond && pr.Intn(2) == 0 {
					gn = oneOf(pr, []string{"g1", "g6"})
				}
				switch pr.Intn(9) {
				case 0, 1, 2:
					q, key = Op{K: "GroupMembers", G: gn}, "members "+gn
				case 3, 4, 5:
					q, key = Op{K: "EntityGroups", E: e}, "groups "+e
				case 6:
					q, key = Op{K: "EntityInfo", E: e}, "info "+e
				case 7:
					q, key = Op{K: "GroupInfo", G: gn}, "ginfo "+gn
				default:
					q, key = Op{K: "AuthGetToken", E: e, S: "s0"}, "token "+e
				}
				lo := atomic.LoadInt64(&done)
				x := Exec(ctxNone(), w.Srv, q)
				hi := atomic.LoadInt64(&begun)
				atomic.AddInt64(&reads, 1)
				if !x.OK() {
					c.Violate("watch:"+q.K+":failed", fmt.Sprintf("%s failed with %s %s although everything it names exists throughout", q, x.Code, x.Err), map[string]interface{}{"backend": backend, "setup": setup, "changes": ops[:hi]})
					return
				}
				got := ""
				switch q.K {
				case "GroupMembers":
					got = qlist(entityNames(x.Ents))
				case "EntityGroups":
					got = qlist(groupNames(x.Grps))
				case "EntityInfo":
					f := Flat{}
					flatEntity(f, "E/"+e+"/", x.Ents[0])
					b, _ := json.Marshal(f)
					got = string(b)
				case "GroupInfo":
					f := Flat{}
					flatGroup(f, "G/"+gn+"/", x.Grps[0])
					b, _ := json.Marshal(f)
					got = string(b)
				case "AuthGetToken":
					if msg := tokenWindow(states[lo:hi+1], e, x.Tok); msg != "" {
						c.Violate("watch:AuthGetToken", msg, map[string]interface{}{"backend": backend, "setup": setup, "changes": ops[:hi], "window": []int64{lo, hi}})
						return
					}
					continue
				}
				ok := false
				for k := lo; k <= hi && !ok; k++ {
					ok = eff[k][key] == got
				}
				if !ok {
					c.Violate("watch:"+q.K, fmt.Sprintf("%s answered %s, which it never was between the start and the end of the request (before: %s, after: %s)", q, got, eff[lo][key], eff[hi][key]),
						map[string]interface{}{"backend": backend, "setup": setup, "changes": ops[:hi], "window": []int64{lo, hi}})
					return
				}
				if lo != hi {
					seen.Store(fmt.Sprintf("%s/%d", key, lo), true)
				}
			}
		}()
	}
	for k, o := range ops {
		want := states[k].Clone().Predict(o)
		atomic.StoreInt64(&begun, int64(k+1))
		x := Exec(ctxRoot(), w.Srv, o)
		atomic.StoreInt64(&done, int64(k+1))
		if !accepts(want, x) || (want.Want == wantAny && x.OK() && mutating(o) && o.Act != ruleDEL) {
			c.Inconclusive("other-property:" + o.K)
			break
		}
		changes++
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	c.Count("watch_reads", int(reads))
	c.Count("watch_changes", int(changes))
	n := 0
	seen.Range(func(k, _ interface{}) bool { n++; c.Eval(fmt.Sprintf("watch/%d/%v", i, k)); return true })
	c.Count("watch_reads_overlapping_a_change", n)
	c.Eval("")
}

// tokenWindow judges a token's capabilities against the states it may
// have been issued in.
func tokenWindow(win []*Model, e, tok string) string {
	cl, err := jwtSvc.Validate(tok)
	if err != nil {
		return "the token issued is not valid: " + err.Error()
	}
	got := map[int32]bool{}
	for _, x := range cl.Capabilities {
		got[int32(x)] = true
	}
	must, may := map[int32]bool{}, map[int32]bool{}
	inAll := func(f func(m *Model) bool) bool {
		for _, m := range win {
			if !f(m) {
				return false
			}
		}
		return true
	}
	mem := map[string]bool{}
	for _, m := range win {
		for x := range m.E[e].Caps {
			may[x] = true
		}
		for _, g := range m.Effective(e) {
			mem[g] = true
		}
	}
	for _, m := range win {
		for g := range mem {
			if m.G[g] == nil {
				continue
			}
			for x := range m.G[g].Caps {
				may[x] = true
			}
		}
	}
	for _, x := range allCaps {
		if inAll(func(m *Model) bool { return m.E[e].Caps[x] }) {
			must[x] = true
		}
		for g := range win[0].G {
			if inAll(func(m *Model) bool { return m.G[g] != nil && m.G[g].Caps[x] && m.Member(m.E[e].Groups, g) }) {
				must[x] = true
			}
		}
	}
	for x := range must {
		if !got[x] {
			return fmt.Sprintf("the token of %s lacks %s, which it held throughout", e, types.Capability(x))
		}
	}
	for x := range got {
		if !may[x] {
			return fmt.Sprintf("the token of %s has %s, which it never held while it was issued", e, types.Capability(x))
		}
	}
	return ""
}

func init() {
	register(&Check{
		ID:       "P19",
		Rule:     "situations are distinct orders of storage accesses per scenario and backend, and distinct (question, change) overlaps of the watch scenario",
		MinEvals: 300,
		Assume: []string{
			"answers about effective membership are judged for each question by itself against the changes; a single answer that reads several objects may reflect each at a different instant",
			"authority by delegation is decided when the request arrives and is not judged under overlap",
		},
		Run: func(c *Ctx) {
			sc := linScenarios()
			type job struct {
				name string
				run  func(i int, r *rand.Rand, b string)
			}
			jobs := []job{}
			for _, s := range sc {
				s := s
				jobs = append(jobs, job{s.name, func(i int, r *rand.Rand, b string) { s.run(c, i, r, b) }})
			}
			jobs = append(jobs,
				job{"create", func(i int, r *rand.Rand, b string) { linCreate(c, i, r, b) }},
				job{"merge", func(i int, r *rand.Rand, b string) { linMerge(c, i, r, b) }},
				job{"secret", func(i int, r *rand.Rand, b string) { linSecret(c, i, r, b) }},
				job{"pair", func(i int, r *rand.Rand, b string) { linPair(c, i, r, b) }},
				job{"replaced", func(i int, r *rand.Rand, b string) { linReplace(c, i, r, b) }},
				job{"watch", func(i int, r *rand.Rand, b string) { linWatch(c, i, r, b) }},
			)
			for _, j := range jobs {
				j := j
				n := c.N(75, 2500)
				switch j.name {
				case "watch":
					n = c.N(36, 900)
				case "replaced":
					n = c.N(160, 4000)
				case "pair":
					n = c.N(len(pairOps())*14, len(pairOps())*400)
				}
				c.Cases(j.name, n, func(i int, r *rand.Rand) {
					b := linBackends[0]
					if i%3 == 2 {
						b = linBackends[1+(i/3)%2]
					}
					j.run(i, r, b)
				})
			}
		},
	})
}
