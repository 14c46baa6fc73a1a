//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/golang/protobuf/proto"
)

// Words the index keeps whole: no stop words.  It finds them in
// whichever case.
var srchWords = []string{"alpha", "beta", "gamma7", "delta", "omega", "zulu99", "demo1", "demo2", "bash", "wheel", "x1", "alphabet", "Alpha", "DELTA", "Demo1", "X1"}

type srchQ struct {
	Kind, Expr string
	Match      func(m *Model, n string) bool
}

func wordsOf(v string) map[string]bool {
	out := map[string]bool{}
	for _, t := range strings.FieldsFunc(v, func(r rune) bool { return r == ' ' || r == '/' }) {
		out[strings.ToLower(t)] = true
	}
	return out
}

// entField and grpField give the current words of a searchable field.
func entField(m *Model, n, f string) map[string]bool {
	e := m.E[n]
	switch {
	case f == "ID":
		return wordsOf(n)
	case f == "meta.Groups":
		return wordsOf(strings.Join(sortedKeys(e.Groups), " "))
	default:
		return wordsOf(e.Meta[strings.TrimPrefix(f, "meta.")])
	}
}

func grpField(m *Model, n, f string) map[string]bool {
	g := m.G[n]
	switch f {
	case "Name":
		return wordsOf(n)
	case "ManagedBy":
		return wordsOf(g.Man)
	default:
		return wordsOf(g.Disp)
	}
}

var (
	srchEntFields = func() []string {
		l := []string{"ID", "meta.Groups"}
		for _, f := range entFields {
			l = append(l, "meta."+f)
		}
		return l
	}()
	srchGrpFields = []string{"Name", "DisplayName", "ManagedBy"}
)

// clause is one condition of a query.
type clause struct {
	expr string
	ok   func(m *Model, n string) bool
}

func genClause(r *rand.Rand, kind string, words []string) clause {
	fields, get := srchEntFields, entField
	if kind == "GroupSearch" {
		fields, get = srchGrpFields, grpField
	}
	f, t := oneOf(r, fields), oneOf(r, words)
	switch r.Intn(8) {
	case 0: // a prefix
		p := strings.ToLower(t[:1+r.Intn(len(t))])
		return clause{f + ":" + p + "*", func(m *Model, n string) bool {
			for w := range get(m, n, f) {
				if strings.HasPrefix(w, p) {
					return true
				}
			}
			return false
		}}
	case 1: // the number
		x := int32(r.Intn(9))
		num := func(m *Model, n string) int32 {
			if kind == "GroupSearch" {
				return m.G[n].Num
			}
			return m.E[n].Num
		}
		if r.Intn(2) == 0 {
			return clause{fmt.Sprintf("Number:>=%d", x), func(m *Model, n string) bool { return num(m, n) >= x }}
		}
		return clause{fmt.Sprintf("Number:<%d", x), func(m *Model, n string) bool { return num(m, n) < x }}
	}
	return clause{f + ":" + t, func(m *Model, n string) bool { return get(m, n, f)[strings.ToLower(t)] }}
}

func genQuery(r *rand.Rand, words []string) srchQ {
	kind := oneOf(r, []string{"EntitySearch", "EntitySearch", "GroupSearch"})
	a := genClause(r, kind, words)
	switch r.Intn(8) {
	case 0:
		b := genClause(r, kind, words)
		return srchQ{kind, "+" + a.expr + " +" + b.expr, func(m *Model, n string) bool { return a.ok(m, n) && b.ok(m, n) }}
	case 1:
		b := genClause(r, kind, words)
		return srchQ{kind, a.expr + " " + b.expr, func(m *Model, n string) bool { return a.ok(m, n) || b.ok(m, n) }}
	case 2:
		b := genClause(r, kind, words)
		return srchQ{kind, "+" + a.expr + " -" + b.expr, func(m *Model, n string) bool { return a.ok(m, n) && !b.ok(m, n) }}
	case 3:
		return srchQ{kind, "*", func(*Model, string) bool { return true }}
	}
	return srchQ{kind, a.expr, a.ok}
}

// runQuery compares one search with the reference.
func (q srchQ) run(c *Ctx, w *World, m *Model) []Diff {
	r := Exec(ctxNone(), w.Srv, Op{K: q.Kind, Key: q.Expr})
	want := []string{}
	if q.Kind == "EntitySearch" {
		for n := range m.E {
			if q.Match(m, n) {
				want = append(want, n)
			}
		}
	} else {
		for n := range m.G {
			if q.Match(m, n) {
				want = append(want, n)
			}
		}
	}
	got := append(entityNames(r.Ents), groupNames(r.Grps)...)
	if !r.OK() || !sameStrings(want, got) {
		return []Diff{{"S/" + q.Kind, fmt.Sprintf("%q finds %s", q.Expr, qlist(want)), qlist(got) + r.Err}}
	}
	for _, e := range r.Ents {
		i := Exec(ctxNone(), w.Srv, Op{K: "EntityInfo", E: e.GetID()})
		if len(i.Ents) != 1 || !proto.Equal(i.Ents[0], e) {
			return []Diff{{"S/content", fmt.Sprintf("%q returns %s as it is", q.Expr, e.GetID()), trunc(proto.CompactTextString(e), 400)}}
		}
	}
	for _, g := range r.Grps {
		i := Exec(ctxNone(), w.Srv, Op{K: "GroupInfo", G: g.GetName()})
		if len(i.Grps) != 1 || !proto.Equal(i.Grps[0], g) {
			return []Diff{{"S/content", fmt.Sprintf("%q returns %s as it is", q.Expr, g.GetName()), trunc(proto.CompactTextString(g), 400)}}
		}
	}
	c.Eval(fmt.Sprintf("%s/%s/%d", q.Kind, q.Expr, len(want)))
	c.Count("found", len(want))
	return nil
}

func srchVals(r *rand.Rand, o *Op) {
	phrase := func() string {
		s := []string{}
		for k := r.Intn(4); k > 0; k-- {
			s = append(s, oneOf(r, srchWords))
		}
		return strings.Join(s, " ")
	}
	switch o.K {
	case "EntityUpdate":
		for f := range o.M {
			o.M[f] = phrase()
			if f == "Shell" || f == "Home" {
				o.M[f] = "/" + strings.Replace(o.M[f], " ", "/", -1)
			}
		}
	case "GroupCreate":
		o.Val = phrase()
	case "GroupUpdate":
		if _, ok := o.M["DisplayName"]; ok {
			o.M["DisplayName"] = phrase()
		}
	}
}

func srchGen(r *rand.Rand, rest int) *Gen {
	g := newGen(r, merge(GenW{"EntityCreate": 10, "GroupCreate": 9, "EntityDestroy": 6, "GroupDestroy": 5, "EntityUpdate": 22, "GroupUpdate": 14, "GroupAddMember": 10, "GroupDelMember": 5,
		"EntityLock": 2, "EntityUnlock": 1, "AuthChangeSecret": 2, "AuthEntity": 2, "EntityUM": 2, "EntityKeys": 2, "EntityKVAdd": 2, "GroupUM": 1, "GroupUpdateRules": 3, "SystemCapabilities": 2}, GenW{"!restart": rest, "!abrupt": rest}), 0, 0)
	for _, j := range r.Perm(len(srchWords))[:5] {
		g.E = append(g.E, srchWords[j])
	}
	for _, j := range r.Perm(len(srchWords))[:4] {
		g.G = append(g.G, srchWords[j])
	}
	return g
}

func init() {
	register(&Check{
		ID: "P18", MinEvals: 20000,
		Rule:   "a situation is (entities or groups, query, number of objects found)",
		Assume: []string{"values are made of lower case words outside the index's stop words, so that what matches does not depend on how text is analysed", "searches overlapping with a change may see it or not; after it was acknowledged it must be seen"},
		Run: func(c *Ctx) {
			for _, be := range []string{"memory", "filesystem", "bitcask"} {
				n := c.N(150, 6000)
				if be != "memory" {
					n /= 4
				}
				be := be
				name := "search-" + be
				c.Cases(name, n, func(i int, r *rand.Rand) {
					g := srchGen(r, 1)
					qr := rand.New(rand.NewSource(r.Int63()))
					cfg := EngineCfg{Name: name, Len: 45, World: WOpts{Backend: be}, Names: union(g.E, g.G), NoAuth: true,
						Gen: func(r *rand.Rand, m *Model, i int) Op {
							o := g.Next(r, m, i)
							srchVals(r, &o)
							return o
						},
						Extra: func(w *World, m *Model, o Op, res Res) []Diff {
							for k := 0; k < 8; k++ {
								if d := genQuery(qr, srchWords).run(c, w, m); d != nil {
									return d
								}
							}
							return nil
						},
						Focus:      func(o Op, a string) bool { return strings.HasPrefix(a, "S/") },
						NonTrivial: func(m *Model, o Op, r Res) string { return "" }}
					cfg.runCase(c, i, r)
				})
			}
			// Objects that hold much of everything are found like others.
			c.Cases("heavy", c.N(24, 800), func(i int, r *rand.Rand) {
				g := srchGen(r, 1)
				qr := rand.New(rand.NewSource(r.Int63()))
				setup := []Op{}
				for _, e := range g.E {
					setup = append(setup, Op{K: "EntityCreate", E: e, N: -1, S: "s"})
				}
				for _, x := range g.G {
					setup = append(setup, Op{K: "GroupCreate", G: x, N: -1})
				}
				n := 6 + r.Intn(40)
				for k := 0; k < n; k++ {
					t := fmt.Sprintf("zz%d", k)
					setup = append(setup, Op{K: "GroupCreate", G: t, N: -1},
						Op{K: "GroupUpdateRules", G: g.G[0], T: t, Act: oneOf(r, []int32{ruleINC, ruleEXC})},
						Op{K: "GroupAddMember", E: g.E[0], G: t},
						Op{K: "EntityKeys", E: g.E[0], Act: actADD, Key: "SSH", Val: t},
						Op{K: "EntityUM", E: g.E[0], Act: actUPSERT, Key: t, Val: "v"},
						Op{K: "GroupUM", G: g.G[0], Act: actUPSERT, Key: t, Val: "v"},
						Op{K: "EntityKVAdd", E: g.E[0], Key: t, Vals: []KVVal{{V: "v"}}},
						Op{K: "GroupKVAdd", G: g.G[0], Key: t, Vals: []KVVal{{V: "v"}}})
				}
				for _, x := range allCaps {
					setup = append(setup, Op{K: "SystemCapabilities", T: g.E[0], Dir: true, Act: actADD, Cap: x}, Op{K: "SystemCapabilities", T: g.G[0], Act: actADD, Cap: x})
				}
				be := []string{"memory", "filesystem", "bitcask"}[i%3]
				cfg := EngineCfg{Name: "heavy", Len: 30, World: WOpts{Backend: be}, Names: union(g.E, g.G), NoAuth: true, Setup: setup, AuditEvery: 4,
					Gen: func(r *rand.Rand, m *Model, i int) Op {
						o := g.Next(r, m, i)
						srchVals(r, &o)
						if r.Intn(2) == 0 && has("EntityUpdate GroupUpdate GroupKVAdd EntityKVAdd GroupAddMember", o.K) {
							if o.E != "" && m.E[g.E[0]] != nil {
								o.E = g.E[0]
							} else if o.G != "" && m.G[g.G[0]] != nil {
								o.G = g.G[0]
							}
						}
						return o
					},
					Extra: func(w *World, m *Model, o Op, res Res) []Diff {
						if has("EntityKeys EntityUM GroupUM", o.K) {
							return nil
						}
						for k := 0; k < 30; k++ {
							if d := genQuery(qr, srchWords).run(c, w, m); d != nil {
								return d
							}
						}
						return nil
					},
					Focus:      func(o Op, a string) bool { return strings.HasPrefix(a, "S/") },
					NonTrivial: func(m *Model, o Op, r Res) string { return "" }}
				cfg.runCase(c, i, r)
			})
			// Overlapping changes: when all are done, every search
			// answers from what is stored.
			c.Cases("overlapping", c.N(40, 1200), func(i int, r *rand.Rand) {
				w := MustWorld(c, WOpts{Backend: oneOf(r, []string{"memory", "filesystem", "bitcask"})})
				if w == nil {
					return
				}
				defer w.Close()
				g := srchGen(r, 0)
				for _, e := range g.E {
					Exec(ctxRoot(), w.Srv, Op{K: "EntityCreate", E: e, N: -1, S: "s"})
				}
				for _, x := range g.G {
					Exec(ctxRoot(), w.Srv, Op{K: "GroupCreate", G: x, N: -1})
				}
				var wg sync.WaitGroup
				for t := 0; t < 4; t++ {
					tr := rand.New(rand.NewSource(r.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						m := newModel()
						for _, e := range g.E {
							m.E[e] = newMEnt(0, "")
						}
						for _, x := range g.G {
							m.G[x] = newMGrp(0, "", "")
						}
						for k := 0; k < 15; k++ {
							o := g.Next(tr, m, k)
							srchVals(tr, &o)
							Exec(ctxRoot(), w.Srv, o)
						}
					}()
				}
				wg.Wait()
				m := newModel()
				for _, e := range union(g.E) {
					if x := Exec(ctxNone(), w.Srv, Op{K: "EntityInfo", E: e}); x.OK() {
						me := newMEnt(x.Ents[0].GetNumber(), "")
						for _, f := range entFields {
							if v := entFieldPtr(x.Ents[0].GetMeta(), f); v != nil {
								me.Meta[f] = *v
							}
						}
						for _, n := range x.Ents[0].GetMeta().GetGroups() {
							me.Groups[n] = true
						}
						m.E[e] = me
					}
				}
				for _, n := range union(g.G) {
					if x := Exec(ctxNone(), w.Srv, Op{K: "GroupInfo", G: n}); x.OK() {
						m.G[n] = newMGrp(x.Grps[0].GetNumber(), x.Grps[0].GetDisplayName(), x.Grps[0].GetManagedBy())
					}
				}
				for k := 0; k < 60; k++ {
					q := genQuery(r, srchWords)
					if d := q.run(c, w, m); d != nil {
						c.Violate("overlapping:"+d[0].Aspect(), "after overlapping changes have finished: "+d[0].String(), map[string]interface{}{"case": i, "backend": w.Backend})
						return
					}
				}
			})
			// Many objects: nothing found is left out.
			c.Cases("many", 1, func(i int, r *rand.Rand) {
				w := MustWorld(c, WOpts{})
				if w == nil {
					return
				}
				n := c.N(1200, 4000)
				for k := 0; k < n; k++ {
					Exec(ctxRoot(), w.Srv, Op{K: "EntityCreate", E: fmt.Sprintf("many%d", k), N: int32(k + 1), S: "s"})
					if k%4 == 0 {
						Exec(ctxRoot(), w.Srv, Op{K: "GroupCreate", G: fmt.Sprintf("many%d", k), N: int32(k + 1)})
					}
				}
				for _, q := range []string{"*", "ID:many*", "Number:>=1"} {
					if x := Exec(ctxNone(), w.Srv, Op{K: "EntitySearch", Key: q}); len(x.Ents) != n {
						c.Violate("many-entities", fmt.Sprintf("%q finds %d of %d entities", q, len(x.Ents), n), nil)
					}
					c.Eval("many/" + q)
				}
				for _, q := range []string{"*", "Name:many*", "Number:>=1"} {
					if x := Exec(ctxNone(), w.Srv, Op{K: "GroupSearch", Key: q}); len(x.Grps) != (n+3)/4 {
						c.Violate("many-groups", fmt.Sprintf("%q finds %d of %d groups", q, len(x.Grps), (n+3)/4), nil)
					}
				}
			})
		},
	})
}
