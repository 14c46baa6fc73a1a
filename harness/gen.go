//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Names that are easily confused with each other or with the
// separators the code uses.
var (
	entPool = []string{"ab", "a", "abc", "entity1", "ABC", "a b", "ünï", "INCLUDE", "groups", "a:b", "x.dat", "*", "entity10", "-1", "[a]", "a\\b", "ab ", " ", ".ab", "..a", "-", "root"}
	grpPool = []string{"grp", "grp1", "grp10", "a", "INCLUDE", "gr", "g:p", "EXCLUDE:grp", "ünï", "entities", "DROP", "(grp)", "a b", "*", "grp|a", "!gr", " ", ".grp", "...", "~", "root"}
	secPool = []string{"secret", "Secret", "secret ", "", "s3cr3t", "pässwörd", "secre", "x"}
	umKeys  = []string{"k", "key", "k{0}", "k{1}", "k{10}", "K", "", "ke", "key{0}", "a:b", "phone number", "k.*", "k{}", "k{1}b", "k{-1}", "*", "k*", "ke*"}
	kvKeys  = []string{"k", "key", "K", "k:1", "", "k ", "ke", "kéy", "k/1"}
	keyVals = []string{"AAAA", "AAAAB", "AAA", "AAAA comment", "ssh-rsa AAAA==", "B", "AAAA:B", ":"}
	kinKeys = []string{"telephone", "Telephone", "TELEPHONE", "telephone ", " telephone", "telephones", "telephon", "telephone{1}", "Telephone{1}", "telephone{1}{2}", "telephone{123456}", "telephone{99999999999999999999}", "telephone{1", "telephone{1} ", "tele.phone", "téléphone", "te\u0301le\u0301phone"}
	keyTyps = []string{"SSH", "ssh", "PGP", "SS", "X509"}
	strVals = []string{"v", "value", "", "Väl", "a:b", "v1", "V", "two words", "line\nbreak", " padded\t"}
)

// GenW weighs the request kinds of a generated history.
type GenW map[string]int

// Gen builds an operation generator over sub-pools of names.
type Gen struct {
	E, G []string
	W    []string
	ws   []int
	Sec  []string
	// NoMissing biases targets to existing objects (0..100).
	Exist int
	// X populates protected fields in updates with this percentage.
	X int
	// AutoOnly uses automatic numbers only.
	AutoOnly bool
	// Big aims at many objects, and at one entity and one group that
	// come to hold much more than others.
	Big bool
	// Close is the share of added rules that would complete a cycle.
	Close int
}

// bigGen is a generator over many names.
func bigGen(r *rand.Rand, w GenW) *Gen {
	g := newGen(r, w, 4, 4)
	g.Big, g.Exist = true, 90
	for n := 8 + r.Intn(30); len(g.E) < n; {
		v := near(r, oneOf(r, g.E))
		if r.Intn(2) == 0 || len(v) > 20 || contains(g.E, v) {
			v = fmt.Sprintf("e%d", len(g.E))
		}
		g.E = append(g.E, v)
	}
	for n := 12 + r.Intn(16); len(g.G) < n; {
		v := near(r, oneOf(r, g.G))
		if r.Intn(2) == 0 || len(v) > 20 || contains(g.G, v) {
			v = fmt.Sprintf("g%d", len(g.G))
		}
		g.G = append(g.G, v)
	}
	return g
}

// paths counts the ways through the rules that begin at each group, at
// most, when one more rule is added.
func paths(m *Model, from, to string) int {
	memo := map[string]int{}
	var f func(string, int) int
	f = func(n string, d int) int {
		if v, ok := memo[n]; ok {
			return v
		}
		if d > 64 {
			return 1 << 20
		}
		s := 1
		if g := m.G[n]; g != nil {
			for t := range g.Rules {
				s += f(t, d+1)
			}
			if n == from && g.Rules[to] == 0 {
				s += f(to, d+1)
			}
		}
		if s > 1<<20 {
			s = 1 << 20
		}
		memo[n] = s
		return s
	}
	max := 0
	for n := range m.G {
		if v := f(n, 0); v > max {
			max = v
		}
	}
	return max
}

// ancestors are the groups from which rules lead to the named one.
func ancestors(m *Model, to string) []string {
	up := map[string][]string{}
	for n, g := range m.G {
		for t := range g.Rules {
			up[t] = append(up[t], n)
		}
	}
	seen := map[string]bool{}
	for todo := []string{to}; len(todo) > 0; todo = todo[1:] {
		for _, n := range up[todo[0]] {
			if !seen[n] {
				seen[n] = true
				todo = append(todo, n)
			}
		}
	}
	delete(seen, to)
	return sortedKeys(seen)
}

// longest gives the two groups that are the farthest apart, below first.
func longest(m *Model) (string, string) {
	down := map[string][2]string{} // how far, and to where
	depth := map[string]int{}
	var f func(string) int
	f = func(n string) int {
		if d, ok := depth[n]; ok {
			return d
		}
		depth[n] = 0
		end, d := n, 0
		if g := m.G[n]; g != nil {
			for _, t := range sortedKeys(g.Rules) {
				if m.G[t] != nil && f(t)+1 > d {
					d, end = f(t)+1, down[t][1]
				}
			}
		}
		depth[n], down[n] = d, [2]string{n, end}
		return d
	}
	best := ""
	for _, n := range sortedKeys(m.G) {
		if f(n); best == "" || depth[n] > depth[best] {
			best = n
		}
	}
	return down[best][1], best
}

func (g *Gen) key(r *rand.Rand, pool []string) string {
	k := oneOf(r, pool)
	if r.Intn(4) == 0 {
		// Spellings of one longer key that are all different keys.
		k = oneOf(r, kinKeys)
		if r.Intn(3) == 0 {
			k = strings.Repeat(k, 1+r.Intn(4))
		}
	}
	if g.Big && r.Intn(3) > 0 {
		k = fmt.Sprintf("%s%d", oneOf(r, []string{"k", "key", "K", ""}), r.Intn(40))
	}
	return k
}

// val is a value, seldom a long one.
func (g *Gen) val(r *rand.Rand) string {
	if r.Intn(60) == 0 || g.Big && r.Intn(12) == 0 {
		return strings.Repeat("long value ", 10+r.Intn(200)) + fmt.Sprint(r.Intn(20))
	}
	return oneOf(r, strVals)
}

func (g *Gen) vals(r *rand.Rand) []KVVal {
	out := genVals(r)
	if g.Big && r.Intn(3) == 0 {
		for n := r.Intn(60); n > 0; n-- {
			out = append(out, genVals(r)...)
		}
	}
	return out
}

func newGen(r *rand.Rand, w GenW, ne, ng int) *Gen {
	g := &Gen{Exist: 85, X: 30, Sec: secPool}
	p := r.Perm(len(entPool))
	for i := 0; i < ne && i < len(p); i++ {
		g.E = append(g.E, entPool[p[i]])
	}
	p = r.Perm(len(grpPool))
	for i := 0; i < ng && i < len(p); i++ {
		g.G = append(g.G, grpPool[p[i]])
	}
	// Names that differ from another in the pool by next to nothing.
	for _, l := range [][]string{g.E, g.G} {
		if len(l) > 1 && r.Intn(3) == 0 {
			v := near(r, l[0])
			for _, x := range l {
				if x == v {
					v = l[len(l)-1]
				}
			}
			l[len(l)-1] = v
		}
	}
	for _, k := range sortedKeys(w) {
		if w[k] > 0 {
			g.W = append(g.W, k)
			g.ws = append(g.ws, w[k])
		}
	}
	return g
}

// near returns a name easily taken for s.
func near(r *rand.Rand, s string) string {
	v := s
	switch r.Intn(9) {
	case 8:
		v = s + strings.Repeat(oneOf(r, []string{"x", "-", "0", "ab"}), 6+r.Intn(45))
	case 0, 1:
		if v = strings.ToUpper(s); v == s {
			v = strings.ToLower(s)
		}
	case 2:
		v = s + " "
	case 3:
		v = " " + s
	case 4:
		v = s + oneOf(r, []string{"1", "a", "*", ":", "%", "?"})
	case 5:
		rs := []rune(s)
		v = string(rs[:len(rs)-1])
	case 6:
		v = oneOf(r, []string{"x", "a", "*"}) + s
	case 7:
		v = s + s
	}
	if v == "" || v == "." || v == ".." || strings.Contains(v, "/") {
		return s + "1"
	}
	return v
}

func (g *Gen) ent(r *rand.Rand, m *Model) string {
	if g.Big && m.E[g.E[0]] != nil && r.Intn(5) < 2 {
		return g.E[0]
	}
	if len(m.E) > 0 && r.Intn(100) < g.Exist {
		return oneOf(r, sortedKeys(m.E))
	}
	return oneOf(r, g.E)
}

func (g *Gen) newEnt(r *rand.Rand, m *Model) string {
	free := []string{}
	for _, n := range g.E {
		if m.E[n] == nil {
			free = append(free, n)
		}
	}
	if len(free) > 0 && r.Intn(100) < 80 {
		return oneOf(r, free)
	}
	return oneOf(r, g.E)
}

func (g *Gen) grp(r *rand.Rand, m *Model) string {
	if g.Big && m.G[g.G[0]] != nil && r.Intn(5) < 2 {
		return g.G[0]
	}
	if len(m.G) > 0 && r.Intn(100) < g.Exist {
		return oneOf(r, sortedKeys(m.G))
	}
	return oneOf(r, g.G)
}

func (g *Gen) newGrp(r *rand.Rand, m *Model) string {
	free := []string{}
	for _, n := range g.G {
		if m.G[n] == nil {
			free = append(free, n)
		}
	}
	if len(free) > 0 && r.Intn(100) < 80 {
		return oneOf(r, free)
	}
	return oneOf(r, g.G)
}

func (g *Gen) num(r *rand.Rand) int32 {
	if g.AutoOnly || r.Intn(3) > 0 {
		return -1
	}
	return oneOf(r, []int32{1, 2, 7, 10, 100, 0, 65535, -2, 2147483000})
}

func genVals(r *rand.Rand) []KVVal {
	out := []KVVal{}
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		v := KVVal{V: oneOf(r, strVals)}
		if r.Intn(2) == 0 {
			x := int32(r.Intn(5) - 1)
			v.I = &x
		}
		out = append(out, v)
	}
	return out
}

// Next draws an operation.
func (g *Gen) Next(r *rand.Rand, m *Model, i int) Op {
	// Early on, make something to work with.
	if len(m.E) < 2 && len(g.E) > 1 && contains(g.W, "EntityCreate") && r.Intn(2) == 0 {
		return Op{K: "EntityCreate", E: g.newEnt(r, m), N: g.num(r), S: oneOf(r, g.Sec)}
	}
	if g.Big && i < 40 && i%2 == 0 {
		if contains(g.W, "EntityCreate") && (i%4 == 0 || !contains(g.W, "GroupCreate")) {
			return Op{K: "EntityCreate", E: g.newEnt(r, m), N: g.num(r), S: oneOf(r, g.Sec)}
		}
		if contains(g.W, "GroupCreate") {
			return Op{K: "GroupCreate", G: g.newGrp(r, m), N: g.num(r), Val: oneOf(r, strVals)}
		}
	}
	if len(m.G) < 2 && len(g.G) > 1 && contains(g.W, "GroupCreate") && r.Intn(2) == 0 {
		return Op{K: "GroupCreate", G: g.newGrp(r, m), N: g.num(r), Val: oneOf(r, strVals)}
	}
	k := g.W[pickW(r, g.ws)]
	o := Op{K: k}
	switch k {
	case "EntityCreate":
		o.E, o.N, o.S = g.newEnt(r, m), g.num(r), oneOf(r, g.Sec)
	case "EntityUpdate":
		o.E = g.ent(r, m)
		o.M = map[string]string{}
		for _, f := range entFields {
			if r.Intn(3) == 0 {
				o.M[f] = oneOf(r, strVals)
			}
		}
		o.X = r.Intn(100) < g.X
		o.N = r.Int31n(1 << 20)
	case "EntityUM":
		o.E = g.ent(r, m)
		o.Act = oneOf(r, []int32{actUPSERT, actUPSERT, actUPSERT, actCLEAREXACT, actCLEARFUZZY, actREAD})
		o.Key, o.Val = g.key(r, umKeys), g.val(r)
		if o.Act == actREAD && r.Intn(4) == 0 {
			o.Key = "*"
		}
	case "GroupUM":
		o.G = g.grp(r, m)
		o.Act = oneOf(r, []int32{actUPSERT, actUPSERT, actUPSERT, actCLEAREXACT, actCLEARFUZZY, actREAD})
		o.Key, o.Val = g.key(r, umKeys), g.val(r)
		if o.Act == actREAD && r.Intn(4) == 0 {
			o.Key = "*"
		}
	case "EntityKeys":
		o.E = g.ent(r, m)
		o.Act = oneOf(r, []int32{actADD, actADD, actDROP, actREAD})
		o.Key, o.Val = oneOf(r, keyTyps), g.key(r, keyVals)
		if o.Act == actDROP && r.Intn(12) == 0 {
			if r.Intn(2) == 0 {
				o.Key = ""
			} else {
				o.Val = ""
			}
		}
	case "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKVGet":
		o.E = g.ent(r, m)
		o.Key = g.key(r, kvKeys)
		o.Vals = g.vals(r)
	case "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupKVGet":
		o.G = g.grp(r, m)
		o.Key = g.key(r, kvKeys)
		o.Vals = g.vals(r)
	case "EntityDestroy", "EntityLock", "EntityUnlock", "EntityInfo", "EntityGroups":
		o.E = g.ent(r, m)
	case "AuthEntity", "AuthGetToken":
		o.E = g.ent(r, m)
		o.S = oneOf(r, g.Sec)
		if e := m.E[o.E]; e != nil && r.Intn(2) == 0 {
			o.S = e.Secret
		}
	case "AuthChangeSecret":
		o.E = g.ent(r, m)
		o.S2 = oneOf(r, g.Sec)
	case "GroupCreate":
		o.G, o.N, o.Val = g.newGrp(r, m), g.num(r), oneOf(r, strVals)
		switch r.Intn(9) {
		case 0, 1:
			o.T = o.G
		case 2, 3:
			o.T = g.grp(r, m)
		case 4:
			// Not the name of the group itself, which need not exist.
			o.T = near(r, o.G)
		}
	case "GroupUpdate":
		o.G = g.grp(r, m)
		o.M = map[string]string{}
		if r.Intn(3) > 0 {
			o.M["DisplayName"] = oneOf(r, strVals)
		}
		if r.Intn(3) == 0 {
			o.M["ManagedBy"] = g.grp(r, m)
		}
		o.X = r.Intn(100) < g.X
		o.N = r.Int31n(1 << 20)
	case "GroupUpdateRules":
		o.G, o.T = g.grp(r, m), g.grp(r, m)
		o.Act = oneOf(r, []int32{ruleINC, ruleINC, ruleEXC, ruleEXC, ruleDEL})
		if o.Act == ruleDEL {
			if x := m.G[o.G]; x != nil && len(x.Rules) > 0 && r.Intn(4) > 0 {
				o.T = oneOf(r, sortedKeys(x.Rules))
			}
		} else if up := ancestors(m, o.G); len(up) > 0 && r.Intn(100) < max(25, g.Close) {
			// Would close a cycle, however long.
			o.T = oneOf(r, up)
			if g.Close > 0 && r.Intn(3) == 0 {
				o.G, o.T = longest(m)
			}
		} else if g.Big && paths(m, o.G, o.T) > 400 {
			o.Act = ruleDEL
		}
	case "GroupAddMember", "GroupDelMember":
		o.E, o.G = g.ent(r, m), g.grp(r, m)
		if k == "GroupDelMember" {
			if x := m.E[o.E]; x != nil && len(x.Groups) > 0 && r.Intn(4) > 0 {
				o.G = oneOf(r, sortedKeys(x.Groups))
			}
		}
		if r.Intn(8) == 0 && len(m.G) > 1 {
			gs := sortedKeys(m.G)
			o.Gs = []string{oneOf(r, gs), oneOf(r, gs)}
		}
	case "GroupDestroy", "GroupInfo", "GroupMembers":
		o.G = g.grp(r, m)
	case "SystemCapabilities":
		o.Dir = r.Intn(2) == 0
		if o.Dir {
			o.T = g.ent(r, m)
		} else {
			o.T = g.grp(r, m)
		}
		o.Act = oneOf(r, []int32{actADD, actADD, actDROP})
		o.Cap = oneOf(r, allCaps)
	case "!restart", "!abrupt":
	default:
		panic(fmt.Sprint("generator: ", k))
	}
	return o
}
