//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// Properties judged by model-based histories.

func merge(ws ...GenW) GenW {
	o := GenW{}
	for _, w := range ws {
		for k, v := range w {
			o[k] += v
		}
	}
	return o
}

var (
	wBase = GenW{"EntityCreate": 6, "GroupCreate": 6}
	wLife = GenW{"EntityDestroy": 4, "GroupDestroy": 4}
	wMemb = GenW{"GroupAddMember": 20, "GroupDelMember": 8, "GroupUpdateRules": 20}
	wAttr = GenW{"EntityUM": 10, "GroupUM": 8, "EntityKeys": 8, "EntityKVAdd": 5, "EntityKVDel": 3, "EntityKVReplace": 3, "EntityKVGet": 2,
		"GroupKVAdd": 5, "GroupKVDel": 3, "GroupKVReplace": 3, "GroupKVGet": 2}
	wMeta = GenW{"EntityUpdate": 10, "GroupUpdate": 8}
	wSec  = GenW{"AuthChangeSecret": 6, "EntityLock": 4, "EntityUnlock": 4}
	wCap  = GenW{"SystemCapabilities": 8}
	wRest = GenW{"!restart": 1, "!abrupt": 1}
)

func has(l string, k string) bool { return strings.Contains(" "+l+" ", " "+k+" ") }

var backends = []string{"memory", "memory", "filesystem", "bitcask"}

// seqCheck runs a family of history configurations over the backends.
func seqCheck(c *Ctx, quick, thorough int, mk func(r *rand.Rand) (GenW, int, int), base EngineCfg) {
	for bi, be := range []string{"memory", "filesystem", "bitcask"} {
		n := c.N(quick, thorough)
		if bi > 0 {
			n = n / 6
		}
		cfg := base
		cfg.Name = base.Name + "-" + be
		cfg.World.Backend = be
		// The generator is drawn per case from the case's own source.
		cfg.Gen = nil
		runGenerated(c, cfg, n, mk)
	}
	w, _, _ := mk(rand.New(rand.NewSource(1)))
	bigCheck(c, quick/14, thorough/20, w, base)
}

// bigCheck runs histories over many objects, one of each kind holding
// much more than the others.
func bigCheck(c *Ctx, quick, thorough int, w GenW, base EngineCfg) {
	base.Name += "-many"
	c.Cases(base.Name, c.N(quick, thorough), func(i int, r *rand.Rand) {
		k := base
		k.World.Backend = oneOf(r, backends)
		w := w
		if r.Intn(2) == 0 {
			w = leaning(r, w)
		}
		g := bigGen(r, w)
		k.Len, k.AuditEvery = 220, 15
		k.Names = union(g.E, g.G)
		k.Gen = g.Next
		k.runCase(c, i, r)
	})
}

// leaning makes one family of requests, and of these the ones that add,
// most of the history, so that one object comes to hold very much.
func leaning(r *rand.Rand, w GenW) GenW {
	var fam []string
	for _, k := range sortedKeys(w) {
		if w[k] > 0 && (strings.HasPrefix(k, "Entity") || strings.HasPrefix(k, "Group")) {
			fam = append(fam, k)
		}
	}
	if len(fam) == 0 {
		return w
	}
	stem := func(k string) string {
		for _, x := range []string{"Add", "Del", "Replace", "Get"} {
			k = strings.TrimSuffix(k, x)
		}
		return k
	}
	f := stem(oneOf(r, fam))
	out, total := GenW{}, 0
	for k, v := range w {
		out[k] = v
		total += v
	}
	for _, k := range fam {
		switch {
		case stem(k) != f:
		case strings.HasSuffix(k, "Del"), strings.HasSuffix(k, "Replace"):
			out[k] += total
		case strings.HasSuffix(k, "Get"):
		default:
			out[k] += total * 6
		}
	}
	return out
}

func runGenerated(c *Ctx, cfg EngineCfg, n int, mk func(r *rand.Rand) (GenW, int, int)) {
	per := cfg
	c.Cases(cfg.Name, n, func(i int, r *rand.Rand) {
		w, ne, ng := mk(r)
		g := newGen(r, w, ne, ng)
		k := per
		k.Names = union(g.E, g.G)
		k.Gen = g.Next
		k.runCase(c, i, r)
	})
}

func init() {
	register(&Check{
		ID: "P08", MinEvals: 5000,
		Rule: "a situation is the multiset of (direct, include, exclude) shapes of the groups at the moment the reported memberships were compared with a reference computed from the model; it is non-trivial when at least one rule exists and some entity has a direct group",
		Run: func(c *Ctx) {
			cfg := EngineCfg{Name: "membership", Len: 40, NoAuth: true,
				Focus: func(o Op, a string) bool { return has("E/eff G/members", a) || a == "startup" },
				NonTrivial: func(m *Model, o Op, r Res) string {
					return membSig(m)
				}}
			seqCheck(c, 700, 20000, func(r *rand.Rand) (GenW, int, int) {
				return merge(wBase, wMemb, GenW{"EntityDestroy": 2, "GroupDestroy": 3, "!restart": 1, "!abrupt": 1}), 2 + r.Intn(4), 2 + r.Intn(5)
			}, cfg)
			shapeCheck(c, c.N(24, 800), 40, 25, merge(wMemb, GenW{"EntityDestroy": 1, "GroupDestroy": 3, "GroupCreate": 3, "!restart": 1}), cfg)
			crowdCheck(c, c.N(8, 200), 40, []bool{true, false}, merge(wMemb, GenW{"EntityDestroy": 3, "GroupDestroy": 3, "GroupCreate": 2, "!restart": 1}), cfg)
		},
	})
	register(&Check{
		ID: "P09", MinEvals: 5000,
		Rule: "a situation is (request kind, accepted?, rule-graph shape); non-trivial when the request is a rule change",
		Run: func(c *Ctx) {
			cfg := EngineCfg{Name: "rules", Len: 45, NoAuth: true,
				Focus: func(o Op, a string) bool {
					return o.K == "GroupUpdateRules" || a == "G/rules"
				},
				NonTrivial: func(m *Model, o Op, r Res) string {
					if o.K != "GroupUpdateRules" {
						return ""
					}
					return fmt.Sprintf("%d/%s/%s", o.Act, r.Code, ruleShape(m))
				}}
			seqCheck(c, 700, 20000, func(r *rand.Rand) (GenW, int, int) {
				return merge(GenW{"GroupCreate": 8, "EntityCreate": 2, "GroupUpdateRules": 40, "GroupAddMember": 4, "GroupDestroy": 2, "!restart": 1}), 2, 2 + r.Intn(7)
			}, cfg)
			shapeCheck(c, c.N(40, 1200), 100, 70, GenW{"GroupCreate": 2, "GroupUpdateRules": 60, "GroupAddMember": 3, "GroupDestroy": 1, "!restart": 1}, cfg)
			crowdCheck(c, c.N(8, 200), 40, []bool{false}, GenW{"GroupCreate": 2, "GroupUpdateRules": 60, "GroupAddMember": 3, "GroupDestroy": 2, "!restart": 1}, cfg)
		},
	})
	register(&Check{
		ID: "P10", MinEvals: 5000,
		Rule: "a situation is (request, answer, automatic or explicit number, number of live entities, was the name used before)",
		Run: func(c *Ctx) {
			seqCheck(c, 600, 15000, func(r *rand.Rand) (GenW, int, int) {
				return merge(GenW{"EntityCreate": 30, "EntityDestroy": 14, "GroupCreate": 3, "GroupAddMember": 5, "SystemCapabilities": 3}, GenW{"EntityUM": 2, "EntityKeys": 2, "EntityKVAdd": 2, "EntityUpdate": 3, "EntityLock": 3,
					"AuthChangeSecret": 2, "EntityInfo": 3, "EntityUnlock": 1, "EntityGroups": 2, "EntityKVDel": 1, "!restart": 1}), 3 + r.Intn(4), 2
			}, EngineCfg{Name: "entities", Len: 40,
				Extra: searchGone,
				Focus: func(o Op, a string) bool {
					return has("EntityCreate EntityDestroy", o.K) || has("E/exists E/num E/id LIST/entities S/entity", a) || (strings.HasPrefix(o.K, "Entity") && a == "result")
				}})
			edgeNumbers(c, true)
			crowdCheck(c, c.N(6, 150), 60, []bool{true}, GenW{"EntityCreate": 30, "EntityDestroy": 10, "EntityInfo": 2, "EntityGroups": 2, "!restart": 1}, EngineCfg{Name: "entities", NoAuth: true,
				Extra: searchGone,
				Focus: func(o Op, a string) bool {
					return has("EntityCreate EntityDestroy", o.K) || has("E/exists E/num E/id LIST/entities S/entity", a) || (strings.HasPrefix(o.K, "Entity") && a == "result")
				}})
		},
	})
	register(&Check{
		ID: "P11", MinEvals: 5000,
		Rule: "a situation is (request, answer, automatic or explicit number, number of live groups)",
		Run: func(c *Ctx) {
			seqCheck(c, 600, 15000, func(r *rand.Rand) (GenW, int, int) {
				return merge(GenW{"GroupCreate": 30, "GroupDestroy": 14, "EntityCreate": 3, "GroupAddMember": 6, "SystemCapabilities": 3}, GenW{"GroupUM": 2, "GroupKVAdd": 2, "GroupUpdate": 3, "GroupUpdateRules": 6,
					"GroupInfo": 3, "GroupKVDel": 1, "!restart": 1}), 2, 3 + r.Intn(4)
			}, EngineCfg{Name: "groups", Len: 40, NoAuth: true,
				Extra: searchGone,
				Focus: func(o Op, a string) bool {
					return has("GroupCreate GroupDestroy", o.K) || has("G/exists G/num G/id LIST/groups S/group", a) || (has("GroupInfo GroupUM GroupKVAdd GroupKVDel GroupUpdate GroupUpdateRules", o.K) && a == "result")
				}})
			edgeNumbers(c, false)
			crowdCheck(c, c.N(6, 150), 60, []bool{false}, GenW{"GroupCreate": 30, "GroupDestroy": 10, "GroupInfo": 2, "GroupMembers": 2, "!restart": 1}, EngineCfg{Name: "groups", NoAuth: true,
				Extra: searchGone,
				Focus: func(o Op, a string) bool {
					return has("GroupCreate GroupDestroy", o.K) || has("G/exists G/num G/id LIST/groups S/group", a)
				}})
		},
	})
	register(&Check{
		ID: "P12", MinEvals: 5000,
		Rule: "a situation is (kind of object, set of fields supplied, protected fields supplied too?, answer, richness of the object before)",
		Run: func(c *Ctx) {
			seqCheck(c, 600, 15000, func(r *rand.Rand) (GenW, int, int) {
				return merge(wBase, GenW{"EntityUpdate": 26, "GroupUpdate": 22, "GroupAddMember": 4, "SystemCapabilities": 4, "EntityUM": 3, "GroupUM": 3, "EntityKeys": 3, "EntityKVAdd": 3, "GroupKVAdd": 3, "EntityLock": 3, "GroupUpdateRules": 4, "AuthChangeSecret": 2}), 2 + r.Intn(2), 2 + r.Intn(3)
			}, EngineCfg{Name: "updates", Len: 40,
				Focus: func(o Op, a string) bool {
					return has("EntityUpdate GroupUpdate", o.K) || has("E/meta G/disp G/man", a)
				},
				NonTrivial: func(m *Model, o Op, r Res) string {
					if !has("EntityUpdate GroupUpdate", o.K) {
						return ""
					}
					return fmt.Sprintf("%s/%v/%v/%s", o.K, sortedKeys(o.M), o.X, r.Code)
				}})
		},
	})
	register(&Check{
		ID: "P13", MinEvals: 5000,
		Rule: "a situation is (request, action, key class, answer, number of keys held before)",
		Run: func(c *Ctx) {
			seqCheck(c, 600, 15000, func(r *rand.Rand) (GenW, int, int) {
				return merge(GenW{"EntityCreate": 4, "GroupCreate": 4}, wAttr, wAttr, wMeta), 2, 2
			}, EngineCfg{Name: "attributes", Len: 60, NoAuth: true,
				Focus: func(o Op, a string) bool {
					return has("EntityUM GroupUM EntityKeys EntityKVAdd EntityKVDel EntityKVReplace EntityKVGet GroupKVAdd GroupKVDel GroupKVReplace GroupKVGet", o.K) || has("E/um E/kv E/keys G/um G/kv", a)
				},
				NonTrivial: func(m *Model, o Op, r Res) string {
					if !has("EntityUM GroupUM EntityKeys EntityKVAdd EntityKVDel EntityKVReplace EntityKVGet GroupKVAdd GroupKVDel GroupKVReplace GroupKVGet", o.K) {
						return ""
					}
					n := 0
					if e := m.E[o.E]; e != nil {
						n = len(e.UM)*100 + len(e.KV)*10 + len(e.Keys)
					}
					if g := m.G[o.G]; g != nil {
						n = len(g.UM)*100 + len(g.KV)*10
					}
					return fmt.Sprintf("%s/%d/%s/%s/%d", o.K, o.Act, o.Key, r.Code, n)
				}})
		},
	})
	register(&Check{
		ID: "P29", MinEvals: 5000,
		Rule: "a situation is (holder kind, grant or removal, capability, answer, capabilities held before)",
		Run: func(c *Ctx) {
			seqCheck(c, 600, 15000, func(r *rand.Rand) (GenW, int, int) {
				return merge(wBase, GenW{"SystemCapabilities": 40, "GroupAddMember": 4, "EntityUpdate": 4, "GroupUpdate": 4, "EntityDestroy": 1, "GroupDestroy": 1, "EntityUM": 2, "EntityLock": 1, "GroupUM": 2, "EntityKVAdd": 2, "EntityKeys": 1, "GroupUpdateRules": 2, "GroupKVAdd": 1}), 2 + r.Intn(3), 2 + r.Intn(3)
			}, EngineCfg{Name: "capabilities", Len: 50, NoAuth: true,
				Focus: func(o Op, a string) bool {
					return o.K == "SystemCapabilities" || has("E/caps G/caps", a)
				},
				NonTrivial: func(m *Model, o Op, r Res) string {
					if o.K != "SystemCapabilities" {
						return ""
					}
					var caps map[int32]bool
					if o.Dir && m.E[o.T] != nil {
						caps = m.E[o.T].Caps
					} else if !o.Dir && m.G[o.T] != nil {
						caps = m.G[o.T].Caps
					}
					return fmt.Sprintf("%v/%d/%d/%s/%v", o.Dir, o.Act, o.Cap, r.Code, sortedI32(caps))
				}})
			capFull(c)
			capEdges(c)
		},
	})
}

func membSig(m *Model) string {
	rules, direct := 0, 0
	s := []string{}
	for _, n := range sortedKeys(m.G) {
		inc, exc := 0, 0
		for _, mode := range m.G[n].Rules {
			rules++
			if mode == ruleINC {
				inc++
			} else {
				exc++
			}
		}
		s = append(s, fmt.Sprintf("%d.%d", inc, exc))
	}
	for _, n := range sortedKeys(m.E) {
		direct += len(m.E[n].Groups)
		s = append(s, qlist(m.Effective(n)))
	}
	if rules == 0 || direct == 0 {
		return ""
	}
	return strings.Join(s, ",")
}

func ruleShape(m *Model) string {
	s := []string{}
	for _, n := range sortedKeys(m.G) {
		t := []string{}
		for _, k := range sortedKeys(m.G[n].Rules) {
			t = append(t, fmt.Sprintf("%s%d", k, m.G[n].Rules[k]))
		}
		s = append(s, n+">"+strings.Join(t, "+"))
	}
	return strings.Join(s, ";")
}

// searchGone checks that lookups by search agree on which objects exist.
func searchGone(w *World, m *Model, o Op, r Res) []Diff {
	out := []Diff{}
	switch o.K {
	case "EntityCreate", "EntityDestroy":
		got := []string{}
		x := Exec(ctxNone(), w.Srv, Op{K: "EntitySearch", Key: "*"})
		if !x.OK() {
			return []Diff{{"S/entity", "an answer", x.Err}}
		}
		got = entityNames(x.Ents)
		if want := sortedKeys(m.E); !sameStrings(want, got) {
			out = append(out, Diff{"S/entity", qlist(want), qlist(got)})
		}
	case "GroupCreate", "GroupDestroy":
		x := Exec(ctxNone(), w.Srv, Op{K: "GroupSearch", Key: "*"})
		if !x.OK() {
			return []Diff{{"S/group", "an answer", x.Err}}
		}
		got := groupNames(x.Grps)
		if want := sortedKeys(m.G); !sameStrings(want, got) {
			out = append(out, Diff{"S/group", qlist(want), qlist(got)})
		}
	}
	return out
}

// edgeNumbers covers number assignment at the edges of the range.
func edgeNumbers(c *Ctx, ents bool) {
	mk := func(name string, n int32) Op {
		if ents {
			return Op{K: "EntityCreate", E: name, N: n, S: "s"}
		}
		return Op{K: "GroupCreate", G: name, N: n}
	}
	del := func(name string) Op {
		if ents {
			return Op{K: "EntityDestroy", E: name}
		}
		return Op{K: "GroupDestroy", G: name}
	}
	seqs := [][]Op{
		{mk("m", 2147483647), mk("n", -1), del("m"), mk("o", -1)},
		{mk("m", 2147483646), mk("n", -1), mk("o", -1)},
		{mk("neg", -2), mk("n", -1), mk("z", 0), mk("o", -1)},
		{mk("a", -1), mk("b", -1), del("a"), mk("c", -1), del("b"), del("c"), mk("d", -1)},
		{mk("a", 5), mk("b", 1), mk("c", 3), mk("d", -1), mk("a", -1), mk("e", -1)},
		{mk("a", -1), {K: "!abrupt"}, mk("b", -1), {K: "!restart"}, mk("c", -1)},
		// The two kinds number independently.
		{{K: "EntityCreate", E: "x", N: 500, S: "s"}, {K: "GroupCreate", G: "x", N: 900}, mk("p", -1), mk("q", -1)},
	}
	cfg := EngineCfg{Name: "numbers", NoAuth: true, Names: []string{"m", "n", "o", "a", "b", "c", "d", "e", "p", "q", "x"}, Extra: searchGone}
	for _, be := range []string{"memory", "filesystem", "bitcask"} {
		cfg := cfg
		cfg.World.Backend = be
		cfg.Name = "numbers-" + be
		c.Cases(cfg.Name, len(seqs), func(i int, r *rand.Rand) {
			k := cfg
			k.fixed(c, i, seqs[i])
		})
	}
}

// capEdges covers refused capability requests.
// capFull changes the capabilities of holders of nearly all there are.
func capFull(c *Ctx) {
	c.Cases("full-sets", c.N(60, 1500), func(i int, r *rand.Rand) {
		setup := []Op{{K: "EntityCreate", E: "e", N: -1, S: "s"}, {K: "EntityCreate", E: "f", N: -1, S: "s"}, {K: "GroupCreate", G: "g", N: -1}, {K: "GroupCreate", G: "h", N: -1}}
		for _, t := range []string{"e", "f", "g", "h"} {
			for _, k := range r.Perm(len(allCaps))[:len(allCaps)-r.Intn(3)] {
				setup = append(setup, Op{K: "SystemCapabilities", T: t, Dir: t < "g", Act: actADD, Cap: allCaps[k]})
			}
		}
		cfg := EngineCfg{Name: "full-sets", Len: 60, NoAuth: true, Setup: setup, World: WOpts{Backend: oneOf(r, backends)}, Names: []string{"e", "f", "g", "h"},
			Gen: func(r *rand.Rand, m *Model, i int) Op {
				t := oneOf(r, []string{"e", "f", "g", "h"})
				return Op{K: "SystemCapabilities", T: t, Dir: t < "g", Act: oneOf(r, []int32{actADD, actADD, actDROP}), Cap: oneOf(r, allCaps)}
			},
			Focus: func(o Op, a string) bool { return o.K == "SystemCapabilities" || has("E/caps G/caps", a) }}
		cfg.runCase(c, i, r)
	})
}

func capEdges(c *Ctx) {
	setup := []Op{
		{K: "EntityCreate", E: "e1", N: -1, S: "s"}, {K: "EntityCreate", E: "e2", N: -1, S: "s"},
		{K: "GroupCreate", G: "g1", N: -1}, {K: "GroupCreate", G: "g2", N: -1},
		{K: "SystemCapabilities", T: "e1", Dir: true, Act: actADD, Cap: 10},
		{K: "SystemCapabilities", T: "g1", Act: actADD, Cap: 20},
	}
	// Names that exist only as the other kind, empty targets, other actions.
	var edge []Op
	for _, d := range []bool{true, false} {
		for _, t := range []string{"", "e1", "g1", "nobody", "../entities/e1", "e1/", "/"} {
			for _, a := range []int32{actADD, actDROP, actREAD, actUPSERT, actCLEAREXACT} {
				edge = append(edge, Op{K: "SystemCapabilities", T: t, Dir: d, Act: a, Cap: 15})
			}
		}
	}
	// Capabilities that are not named, or are none, on holders of each
	// capability, none, and superuser authority alone.
	for _, d := range []bool{true, false} {
		for _, t := range []string{"e1", "g1", "e2", "g2", "both", "nobody"} {
			for _, a := range []int32{actADD, actDROP} {
				for _, x := range []int32{capNone, -1, 1, 9, 42, 1 << 30, -1 << 31} {
					edge = append(edge, Op{K: "SystemCapabilities", T: t, Dir: d, Act: a, Cap: x})
				}
			}
		}
	}
	setup = append(setup, Op{K: "EntityCreate", E: "both", N: -1, S: "s"}, Op{K: "GroupCreate", G: "both", N: -1},
		Op{K: "SystemCapabilities", T: "both", Dir: true, Act: actADD, Cap: 0}, Op{K: "SystemCapabilities", T: "both", Act: actADD, Cap: 0})
	for _, x := range allCaps {
		setup = append(setup, Op{K: "SystemCapabilities", T: "e2", Dir: true, Act: actADD, Cap: x}, Op{K: "SystemCapabilities", T: "g2", Act: actADD, Cap: x})
	}
	c.Cases("edges", len(edge), func(i int, r *rand.Rand) {
		k := EngineCfg{Name: "edges", NoAuth: true, Names: []string{"e1", "e2", "g1", "g2", "both"}}
		k.fixed(c, i, append(append([]Op{}, setup...), edge[i], Op{K: "SystemCapabilities", T: "e1", Dir: true, Act: actDROP, Cap: 10}))
	})
}
