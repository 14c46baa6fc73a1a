//go:build go1.22

package main

import (
	types "github.com/netauth/protocol"

	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"

	"google.golang.org/grpc/codes"
)

// MEnt is the reference state of one entity.
type MEnt struct {
	Num    int32
	Secret string
	Locked bool
	Meta   map[string]string
	Groups map[string]bool
	Caps   map[int32]bool
	Keys   map[string]bool
	UM     map[string]string
	KV     map[string]string
}

// MGrp is the reference state of one group.
type MGrp struct {
	Disp, Man string
	Num       int32
	Caps      map[int32]bool
	Rules     map[string]int32
	UM        map[string]string
	KV        map[string]string
}

// Model is the reference state of a server.
type Model struct {
	E map[string]*MEnt
	G map[string]*MGrp
}

func newModel() *Model { return &Model{E: map[string]*MEnt{}, G: map[string]*MGrp{}} }

func newMEnt(num int32, secret string) *MEnt {
	return &MEnt{Num: num, Secret: secret, Meta: map[string]string{}, Groups: map[string]bool{}, Caps: map[int32]bool{},
		Keys: map[string]bool{}, UM: map[string]string{}, KV: map[string]string{}}
}

func newMGrp(num int32, disp, man string) *MGrp {
	return &MGrp{Num: num, Disp: disp, Man: man, Caps: map[int32]bool{}, Rules: map[string]int32{}, UM: map[string]string{}, KV: map[string]string{}}
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	o := make(map[K]V, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

// Clone deep copies.
func (m *Model) Clone() *Model {
	o := newModel()
	for k, e := range m.E {
		c := *e
		c.Meta, c.Groups, c.Caps, c.Keys, c.UM, c.KV = cpMap(e.Meta), cpMap(e.Groups), cpMap(e.Caps), cpMap(e.Keys), cpMap(e.UM), cpMap(e.KV)
		o.E[k] = &c
	}
	for k, g := range m.G {
		c := *g
		c.Caps, c.Rules, c.UM, c.KV = cpMap(g.Caps), cpMap(g.Rules), cpMap(g.UM), cpMap(g.KV)
		o.G[k] = &c
	}
	return o
}

func validName(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/")
}

// Member tells whether an entity with these direct groups is
// effectively in group g.
func (m *Model) Member(direct map[string]bool, g string) bool {
	return m.member(direct, g, 0)
}

func (m *Model) member(direct map[string]bool, g string, depth int) bool {
	gr, ok := m.G[g]
	if !ok || depth > 64 {
		return false
	}
	in := direct[g]
	for t, mode := range gr.Rules {
		if mode == ruleINC && !in && m.member(direct, t, depth+1) {
			in = true
		}
	}
	if !in {
		return false
	}
	for t, mode := range gr.Rules {
		if mode == ruleEXC && m.member(direct, t, depth+1) {
			return false
		}
	}
	return true
}

// Effective lists the groups of an entity, sorted.
func (m *Model) Effective(e string) []string {
	out := []string{}
	x, ok := m.E[e]
	if !ok {
		return out
	}
	for g := range m.G {
		if m.Member(x.Groups, g) {
			out = append(out, g)
		}
	}
	sort.Strings(out)
	return out
}

// Members lists the members of a group, sorted.
func (m *Model) Members(g string) []string {
	out := []string{}
	for n, e := range m.E {
		if m.Member(e.Groups, g) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// EffCaps is the capability set a token for e must carry.
func (m *Model) EffCaps(e string) []int32 {
	s := map[int32]bool{}
	x := m.E[e]
	if x == nil {
		return nil
	}
	for c := range x.Caps {
		s[c] = true
	}
	for _, g := range m.Effective(e) {
		for c := range m.G[g].Caps {
			s[c] = true
		}
	}
	return sortedI32(s)
}

func sortedI32(s map[int32]bool) []int32 {
	out := []int32{}
	for c := range s {
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// reach explores the rule graph from a group.
func (m *Model) reach(from, want string, seen map[string]bool) (found, dangling bool) {
	if from == want {
		return true, false
	}
	if seen[from] {
		return false, false
	}
	seen[from] = true
	g, ok := m.G[from]
	if !ok {
		return false, true
	}
	for t := range g.Rules {
		f, d := m.reach(t, want, seen)
		found = found || f
		dangling = dangling || d
	}
	return
}

func (m *Model) maxENum() int32 {
	var x int32
	for _, e := range m.E {
		if e.Num > x {
			x = e.Num
		}
	}
	return x
}

func (m *Model) maxGNum() int32 {
	var x int32
	for _, g := range m.G {
		if g.Num > x {
			x = g.Num
		}
	}
	return x
}

// Outcome classes.
const (
	wantOK = iota
	wantFail
	wantAny
)

// Expect is what the reference says about one request.
type Expect struct {
	Want  int
	Codes []codes.Code // acceptable failure codes; nil means any
	// Apply moves the model; called only when the request succeeded.
	Apply func(r Res) error
	// Check judges the answer's content of a successful request.
	Check func(r Res) error
	Why   string
}

func failWith(why string, c ...codes.Code) Expect { return Expect{Want: wantFail, Codes: c, Why: why} }

func kvString(vals []KVVal) string {
	s := ""
	for _, v := range vals {
		if v.I != nil {
			s += fmt.Sprintf("%q@%d,", v.V, *v.I)
		} else {
			s += fmt.Sprintf("%q,", v.V)
		}
	}
	return s
}

var idxRE = regexp.MustCompile(`\{\d+\}$`)

func umStrip(k string) string { return idxRE.ReplaceAllString(k, "") }

func umSplit(k, v string) (string, string) {
	s := k + ":" + v
	i := strings.Index(s, ":")
	return s[:i], s[i+1:]
}

func umApply(um map[string]string, o Op) {
	k, v := umSplit(o.Key, o.Val)
	switch o.Act {
	case actUPSERT:
		um[k] = v
	case actCLEAREXACT:
		delete(um, k)
	case actCLEARFUZZY:
		for x := range um {
			if umStrip(x) == umStrip(k) {
				delete(um, x)
			}
		}
	}
}

func umRead(um map[string]string, key string) []string {
	out := []string{}
	for k, v := range um {
		if key == "*" || umStrip(k) == umStrip(key) {
			out = append(out, k+":"+v)
		}
	}
	sort.Strings(out)
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	x := append([]string{}, a...)
	y := append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// Predict states what a fully authorised request must do.
func (m *Model) Predict(o Op) Expect {
	e := m.E[o.E]
	g := m.G[o.G]
	needE := func() (Expect, bool) {
		if e == nil {
			return failWith("entity does not exist", codes.NotFound), false
		}
		return Expect{}, true
	}
	needG := func() (Expect, bool) {
		if g == nil {
			return failWith("group does not exist", codes.NotFound), false
		}
		return Expect{}, true
	}
	// Lookups by a name storage cannot represent fail in any manner.
	if o.E != "" || strings.HasPrefix(o.K, "Entity") {
		if e == nil && !validName(o.E) && o.K != "EntitySearch" {
			return failWith("no entity can have this name")
		}
	}
	switch o.K {
	case "EntityCreate":
		if e != nil {
			return failWith("entity exists", codes.AlreadyExists)
		}
		max := m.maxENum()
		if o.N == -1 && max == math.MaxInt32 {
			return failWith("no number left")
		}
		return Expect{Want: wantOK, Apply: func(Res) error {
			m.E[o.E] = newMEnt(o.N, o.S)
			return nil
		}}
	case "EntityUpdate":
		if x, ok := needE(); !ok {
			return x
		}
		return Expect{Want: wantOK, Apply: func(Res) error {
			for f, v := range o.M {
				e.Meta[f] = v
			}
			return nil
		}}
	case "EntityUM":
		if x, ok := needE(); !ok {
			return x
		}
		if o.Act == actREAD {
			want := umRead(e.UM, o.Key)
			return Expect{Want: wantOK, Check: func(r Res) error {
				if !sameStrings(want, r.Strs) {
					return fmt.Errorf("read %q, want %q", r.Strs, want)
				}
				return nil
			}}
		}
		return Expect{Want: wantOK, Apply: func(Res) error { umApply(e.UM, o); return nil }}
	case "GroupUM":
		if x, ok := needG(); !ok {
			return x
		}
		if o.Act == actREAD {
			want := umRead(g.UM, o.Key)
			return Expect{Want: wantOK, Check: func(r Res) error {
				if !sameStrings(want, r.Strs) {
					return fmt.Errorf("read %q, want %q", r.Strs, want)
				}
				return nil
			}}
		}
		return Expect{Want: wantOK, Apply: func(Res) error { umApply(g.UM, o); return nil }}
	case "EntityKeys":
		if x, ok := needE(); !ok {
			return x
		}
		k := strings.ToUpper(o.Key) + ":" + o.Val
		switch o.Act {
		case actREAD:
			want := sortedKeys(e.Keys)
			return Expect{Want: wantOK, Check: func(r Res) error {
				if !sameStrings(want, r.Strs) {
					return fmt.Errorf("read %q, want %q", r.Strs, want)
				}
				return nil
			}}
		case actADD:
			return Expect{Want: wantOK, Apply: func(Res) error { e.Keys[k] = true; return nil }}
		default:
			// A type or key that is not given matches all of them.
			return Expect{Want: wantOK, Apply: func(Res) error {
				for have := range e.Keys {
					i := strings.Index(have, ":")
					if (o.Key == "" || have[:i] == strings.ToUpper(o.Key)) && (o.Val == "" || have[i+1:] == o.Val) {
						delete(e.Keys, have)
					}
				}
				return nil
			}}
		}
	case "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKVGet":
		if x, ok := needE(); !ok {
			return x
		}
		return kvPredict(e.KV, o, true)
	case "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupKVGet":
		if x, ok := needG(); !ok {
			return x
		}
		return kvPredict(g.KV, o, false)
	case "EntityDestroy":
		if x, ok := needE(); !ok {
			return x
		}
		return Expect{Want: wantOK, Apply: func(Res) error { delete(m.E, o.E); return nil }}
	case "EntityLock", "EntityUnlock":
		if x, ok := needE(); !ok {
			return x
		}
		return Expect{Want: wantOK, Apply: func(Res) error { e.Locked = o.K == "EntityLock"; return nil }}
	case "AuthEntity", "AuthGetToken":
		if e == nil || e.Locked || e.Secret != o.S {
			return failWith("wrong identity, secret or locked", codes.Unauthenticated)
		}
		return Expect{Want: wantOK}
	case "AuthChangeSecret":
		if e == nil {
			return failWith("entity does not exist")
		}
		return Expect{Want: wantOK, Apply: func(Res) error { e.Secret = o.S2; return nil }}
	case "GroupCreate":
		if g != nil {
			return failWith("group exists", codes.AlreadyExists)
		}
		if !validName(o.G) {
			return failWith("no group can have this name")
		}
		if o.T != "" && o.T != o.G && m.G[o.T] == nil {
			return failWith("managing group does not exist")
		}
		if o.N == -1 && m.maxGNum() == math.MaxInt32 {
			return failWith("no number left")
		}
		return Expect{Want: wantOK, Apply: func(Res) error {
			m.G[o.G] = newMGrp(o.N, o.Val, o.T)
			return nil
		}}
	case "GroupUpdate":
		if x, ok := needG(); !ok {
			return x
		}
		return Expect{Want: wantOK, Apply: func(Res) error {
			if v, ok := o.M["DisplayName"]; ok {
				g.Disp = v
			}
			if v, ok := o.M["ManagedBy"]; ok {
				g.Man = v
			}
			return nil
		}}
	case "GroupUpdateRules":
		if g == nil {
			return failWith("group does not exist")
		}
		if o.Act == ruleDEL {
			if _, ok := g.Rules[o.T]; !ok {
				return Expect{Want: wantAny}
			}
			return Expect{Want: wantOK, Apply: func(Res) error { delete(g.Rules, o.T); return nil }}
		}
		if m.G[o.T] == nil {
			return failWith("target does not exist")
		}
		if _, ok := g.Rules[o.T]; ok {
			return failWith("target already named by a rule")
		}
		found, dangling := m.reach(o.T, o.G, map[string]bool{})
		if found {
			return failWith("would create a cycle")
		}
		x := Expect{Want: wantOK, Apply: func(Res) error { g.Rules[o.T] = o.Act; return nil }}
		if dangling {
			x.Want = wantAny
		}
		return x
	case "GroupAddMember", "GroupDelMember":
		gs := o.Gs
		if gs == nil {
			gs = []string{o.G}
		}
		if len(gs) == 0 {
			return Expect{Want: wantAny}
		}
		if e == nil {
			return failWith("entity does not exist")
		}
		x := Expect{Want: wantOK}
		if o.K == "GroupAddMember" {
			for _, n := range gs {
				if m.G[n] == nil {
					x.Want = wantAny
				}
			}
		}
		x.Apply = func(Res) error {
			for _, n := range gs {
				if n == "" {
					continue
				}
				if o.K == "GroupAddMember" {
					e.Groups[n] = true
				} else {
					delete(e.Groups, n)
				}
			}
			return nil
		}
		return x
	case "GroupDestroy":
		if x, ok := needG(); !ok {
			return x
		}
		return Expect{Want: wantOK, Apply: func(Res) error { delete(m.G, o.G); return nil }}
	case "SystemCapabilities":
		if o.Act != actADD && o.Act != actDROP || o.T == "" {
			return failWith("malformed")
		}
		var caps map[int32]bool
		if o.Dir {
			if m.E[o.T] == nil {
				return failWith("entity does not exist")
			}
			caps = m.E[o.T].Caps
		} else {
			if m.G[o.T] == nil {
				return failWith("group does not exist")
			}
			caps = m.G[o.T].Caps
		}
		if _, ok := types.Capability_name[o.Cap]; !ok {
			if o.Act == actADD || o.Cap == capNone {
				return failWith("no such capability")
			}
			return Expect{Want: wantAny}
		}
		return Expect{Want: wantOK, Apply: func(Res) error {
			if o.Act == actADD {
				caps[o.Cap] = true
			} else {
				delete(caps, o.Cap)
			}
			return nil
		}}
	case "EntityInfo", "EntityGroups":
		if x, ok := needE(); !ok {
			return x
		}
		return Expect{Want: wantOK}
	case "GroupInfo":
		if x, ok := needG(); !ok {
			return x
		}
		return Expect{Want: wantOK}
	case "GroupMembers":
		return Expect{Want: wantAny}
	case "EntitySearch", "GroupSearch", "SystemPing", "SystemStatus", "AuthValidateToken":
		return Expect{Want: wantAny}
	}
	panic("no prediction for " + o.K)
}

func kvPredict(kv map[string]string, o Op, isEnt bool) Expect {
	_, present := kv[o.Key]
	nf, ae := []codes.Code{codes.NotFound}, []codes.Code{codes.AlreadyExists}
	if !isEnt {
		nf, ae = nil, nil
	}
	switch {
	case strings.HasSuffix(o.K, "KVGet"):
		if !present {
			return failWith("key absent")
		}
		want := kv[o.Key]
		return Expect{Want: wantOK, Check: func(r Res) error {
			if len(r.KV) != 1 || r.KV[0].GetKey() != o.Key || kvProto(r.KV[0]) != want {
				return fmt.Errorf("read %v, want %q=%s", r.KV, o.Key, want)
			}
			return nil
		}}
	case strings.HasSuffix(o.K, "KVAdd"):
		if present {
			return Expect{Want: wantFail, Codes: ae, Why: "key present"}
		}
		return Expect{Want: wantOK, Apply: func(Res) error { kv[o.Key] = kvString(o.Vals); return nil }}
	case strings.HasSuffix(o.K, "KVDel"):
		if !present {
			return Expect{Want: wantFail, Codes: nf, Why: "key absent"}
		}
		return Expect{Want: wantOK, Apply: func(Res) error { delete(kv, o.Key); return nil }}
	default:
		if !present {
			return Expect{Want: wantFail, Codes: nf, Why: "key absent"}
		}
		return Expect{Want: wantOK, Apply: func(Res) error { kv[o.Key] = kvString(o.Vals); return nil }}
	}
}
