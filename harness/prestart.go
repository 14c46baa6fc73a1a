//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/golang/protobuf/proto"
)

var snapQueries = []string{"*", "ab", "a", "ID:ab", "ID:a", "value", "two", "v1", "meta.DisplayName:value", "meta.Home:v", "DisplayName:value", "Name:grp", "Name:grp1", "grp", "meta.Groups:grp", "ManagedBy:grp", "Väl", "meta.Shell:*", "+two +words", "-value"}

// snapshot reads every kind of answer a client can get.
func snapshot(w *World, m *Model, probe bool) Flat {
	f := Flat{}
	raw, err := w.Spy.Dump()
	if err != nil {
		f["RAW/error"] = err.Error()
	}
	for k, v := range raw {
		f["RAW"+k] = fmt.Sprintf("%d bytes %q", len(v), v)
	}
	ex := func(o Op) Res { return Exec(ctxNone(), w.Srv, o) }
	for _, q := range snapQueries {
		for _, k := range []string{"EntitySearch", "GroupSearch"} {
			r := ex(Op{K: k, Key: q})
			l := append(entityNames(r.Ents), groupNames(r.Grps)...)
			for i, e := range r.Ents {
				l[i] += proto.CompactTextString(e)
			}
			for i, g := range r.Grps {
				l[i] += proto.CompactTextString(g)
			}
			f["Q/"+k+"/"+q] = r.Code.String() + qlist(l)
		}
	}
	for _, n := range union(sortedKeys(m.E), entPool) {
		for _, s := range secPool {
			f["A/"+n+"/"+s] = ex(Op{K: "AuthEntity", E: n, S: s}).Code.String()
		}
		r := ex(Op{K: "EntityGroups", E: n})
		f["M/e/"+n] = r.Code.String() + qlist(groupNames(r.Grps))
		i := ex(Op{K: "EntityInfo", E: n})
		f["I/e/"+n] = i.Code.String()
		for _, e := range i.Ents {
			f["I/e/"+n] += proto.CompactTextString(e)
		}
		if e := m.E[n]; e != nil && !e.Locked {
			t := ex(Op{K: "AuthGetToken", E: n, S: e.Secret})
			f["T/"+n] = t.Code.String()
			if t.OK() {
				cl, err := w.Tok.Validate(t.Tok)
				f["T/"+n] += fmt.Sprint(err, cl.EntityID, capStr(cl.Capabilities))
			}
		}
	}
	for _, n := range union(sortedKeys(m.G), grpPool) {
		r := ex(Op{K: "GroupMembers", G: n})
		f["M/g/"+n] = r.Code.String() + qlist(entityNames(r.Ents))
		i := ex(Op{K: "GroupInfo", G: n})
		f["I/g/"+n] = i.Code.String()
		for _, g := range i.Grps {
			f["I/g/"+n] += proto.CompactTextString(g)
		}
	}
	if probe {
		rt := ctxRoot()
		e := Exec(rt, w.Srv, Op{K: "EntityCreate", E: "probe-e", N: -1, S: "x"})
		f["N/e"] = e.Code.String()
		if e.OK() {
			if i := ex(Op{K: "EntityInfo", E: "probe-e"}); len(i.Ents) == 1 {
				f["N/e"] = fmt.Sprint(i.Ents[0].GetNumber())
			}
			Exec(rt, w.Srv, Op{K: "EntityDestroy", E: "probe-e"})
		}
		g := Exec(rt, w.Srv, Op{K: "GroupCreate", G: "probe-g", N: -1})
		f["N/g"] = g.Code.String()
		if g.OK() {
			if i := ex(Op{K: "GroupInfo", G: "probe-g"}); len(i.Grps) == 1 {
				f["N/g"] = fmt.Sprint(i.Grps[0].GetNumber())
			}
			Exec(rt, w.Srv, Op{K: "GroupDestroy", G: "probe-g"})
		}
	}
	return f
}

func init() {
	register(&Check{
		ID: "P14", MinEvals: 20000,
		Rule:   "a situation is (clean or abrupt, backend, kind of the last request before it, entities, groups, rules, locked, destroyed since the last one, previous request also a restart)",
		Assume: []string{"an abrupt end is a copy of the files as they stand between two requests; ends in the middle of a request are P15's", "operating system crashes and lost page caches are not modelled"},
		Run: func(c *Ctx) {
			for _, be := range []string{"filesystem", "bitcask"} {
				for _, cr := range []string{"nocrypto", "bcrypt"} {
					n := c.N(110, 4000)
					if cr == "bcrypt" {
						n /= 3
					}
					be, cr := be, cr
					name := "restart-" + be + "-" + cr
					c.Cases(name, n, func(i int, r *rand.Rand) {
						g := newGen(r, merge(GenW{"EntityCreate": 8, "GroupCreate": 8, "EntityDestroy": 5, "GroupDestroy": 5, "AuthChangeSecret": 4, "EntityLock": 3, "EntityUnlock": 2,
							"EntityUpdate": 5, "GroupUpdate": 5, "EntityUM": 5, "GroupUM": 4, "EntityKeys": 4, "EntityKVAdd": 4, "GroupKVAdd": 4, "EntityKVDel": 2, "GroupKVDel": 2, "EntityKVReplace": 2, "GroupKVReplace": 2,
							"GroupAddMember": 10, "GroupDelMember": 4, "GroupUpdateRules": 10, "SystemCapabilities": 5, "!restart": 4, "!abrupt": 5}), 4, 5)
						big := i%6 == 5
						last, twice := "", false
						cfg := EngineCfg{Name: name, Len: 34, World: WOpts{Backend: be, Crypto: cr}, Names: union(g.E, g.G),
							Snap: func(w *World, m *Model, i int) Flat { return snapshot(w, m, (i*7)%3 == 0) },
							Gen: func(r *rand.Rand, m *Model, i int) Op {
								o := g.Next(r, m, i)
								if twice = strings.HasPrefix(last, "!"); twice && r.Intn(3) == 0 {
									o = Op{K: oneOf(r, []string{"!restart", "!abrupt"})}
								}
								// Enough data for several data files.
								if big && strings.HasSuffix(o.K, "KVAdd") || strings.HasSuffix(o.K, "KVReplace") && big {
									o.Vals = []KVVal{{V: strings.Repeat(oneOf(r, []string{"x", "yz", "é"}), 1000+r.Intn(250000))}}
								}
								if !strings.HasPrefix(o.K, "!") || last == "" {
									last = o.K
								}
								if strings.HasPrefix(o.K, "!") {
									rules, locked := 0, 0
									for _, x := range m.G {
										rules += len(x.Rules)
									}
									for _, x := range m.E {
										if x.Locked {
											locked++
										}
									}
									c.Eval(fmt.Sprintf("%s/%s/%s/%d/%d/%d/%d/%v", o.K, be, last, len(m.E), len(m.G), rules, locked, twice))
									last = o.K
								}
								return o
							},
							Focus:      func(o Op, a string) bool { return o.K == "!restart" || o.K == "!abrupt" },
							NonTrivial: func(m *Model, o Op, r Res) string { return "" }}
						if big {
							cfg.World.Crypto = "nocrypto"
						}
						cfg.runCase(c, i, r)
					})
				}
				// Many objects.
				c.Cases("many-"+be, c.N(3, 60), func(i int, r *rand.Rand) {
					g := bigGen(r, merge(wMemb, wAttr, wMeta, wSec, wCap, GenW{"EntityCreate": 3, "GroupCreate": 3, "EntityDestroy": 3, "GroupDestroy": 3, "!restart": 4, "!abrupt": 4}))
					for n := 70 + r.Intn(150); len(g.E) < n; {
						g.E = append(g.E, fmt.Sprintf("entity%d", len(g.E)))
					}
					for n := 60 + r.Intn(60); len(g.G) < n; {
						g.G = append(g.G, fmt.Sprintf("group%d", len(g.G)))
					}
					cfg := EngineCfg{Name: "many-" + be, Len: 60, World: WOpts{Backend: be}, Names: union(g.E, g.G), AuditEvery: 1 << 30, NoAuth: true,
						Snap:  func(w *World, m *Model, i int) Flat { return snapshot(w, m, false) },
						Gen:   g.Next,
						Focus: func(o Op, a string) bool { return o.K == "!restart" || o.K == "!abrupt" }}
					for _, n := range g.E {
						cfg.Setup = append(cfg.Setup, Op{K: "EntityCreate", E: n, N: -1, S: "s"})
					}
					for k, n := range g.G {
						cfg.Setup = append(cfg.Setup, Op{K: "GroupCreate", G: n, N: -1, Val: "v"})
						if k > 0 && r.Intn(3) > 0 {
							cfg.Setup = append(cfg.Setup, Op{K: "GroupUpdateRules", G: n, T: g.G[r.Intn(k)/2*2], Act: oneOf(r, []int32{ruleINC, ruleEXC})})
						}
					}
					for _, n := range g.E {
						for k := r.Intn(3); k > 0; k-- {
							cfg.Setup = append(cfg.Setup, Op{K: "GroupAddMember", E: n, G: oneOf(r, g.G)})
						}
					}
					cfg.Setup = append(cfg.Setup, Op{K: oneOf(r, []string{"!restart", "!abrupt"})})
					cfg.runCase(c, i, r)
				})
				// The end of the number range survives too.
				be := be
				c.Cases("numbers-"+be, 1, func(i int, r *rand.Rand) {
					cfg := EngineCfg{Name: "numbers-" + be, World: WOpts{Backend: be}, Names: []string{"a", "b"},
						Snap:  func(w *World, m *Model, i int) Flat { return snapshot(w, m, true) },
						Focus: func(o Op, a string) bool { return strings.HasPrefix(o.K, "!") }}
					for k, ops := range [][]Op{
						{{K: "!restart"}, {K: "EntityCreate", E: "a", N: math.MaxInt32, S: "s"}, {K: "!restart"}, {K: "!abrupt"}, {K: "EntityDestroy", E: "a"}, {K: "!restart"}, {K: "EntityCreate", E: "a", N: -1, S: "t"}, {K: "!abrupt"}, {K: "!abrupt"}, {K: "!restart"}},
						{{K: "!abrupt"}, {K: "GroupCreate", G: "a", N: math.MaxInt32}, {K: "!restart"}, {K: "!abrupt"}, {K: "GroupDestroy", G: "a"}, {K: "!abrupt"}, {K: "GroupCreate", G: "a", N: -1, Val: "t"}, {K: "!restart"}, {K: "!abrupt"}},
						{{K: "EntityCreate", E: "a", N: -2, S: ""}, {K: "!restart"}, {K: "EntityCreate", E: "b", N: 0, S: ""}, {K: "!restart"}, {K: "!restart"}, {K: "EntityLock", E: "a"}, {K: "!abrupt"}, {K: "EntityUnlock", E: "a"}, {K: "!abrupt"}},
					} {
						cfg.fixed(c, k, ops)
					}
				})
			}
		},
	})
}
