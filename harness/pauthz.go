//go:build go1.22

package main

import (
	"fmt"
	"math/rand"

	"google.golang.org/grpc/codes"
)

// authzSetup is the fixed scene of the credential matrix.
var authzSetup = []Op{
	{K: "GroupCreate", G: "managers", N: -1},
	{K: "GroupCreate", G: "included", N: -1},
	{K: "GroupCreate", G: "excluded", N: -1},
	{K: "GroupCreate", G: "dead", N: -1},
	{K: "GroupCreate", G: "g1", N: -1, T: "managers"},
	{K: "GroupCreate", G: "g2", N: -1},
	{K: "GroupCreate", G: "g3", N: -1, T: "managers"},
	{K: "GroupCreate", G: "selfm", N: -1, T: "selfm"},
	{K: "GroupCreate", G: "deadm", N: -1, T: "dead"},
	{K: "GroupUpdateRules", G: "managers", T: "included", Act: ruleINC},
	{K: "GroupUpdateRules", G: "managers", T: "excluded", Act: ruleEXC},
	{K: "GroupUpdateRules", G: "g2", T: "included", Act: ruleINC},
	{K: "EntityCreate", E: "e1", N: -1, S: "s1"},
	{K: "EntityCreate", E: "e2", N: -1, S: "s2"},
	{K: "EntityCreate", E: "mgr", N: -1, S: "s3"},     // direct manager
	{K: "EntityCreate", E: "imgr", N: -1, S: "s4"},    // manager through a rule
	{K: "EntityCreate", E: "xmgr", N: -1, S: "s5"},    // excluded again
	{K: "EntityCreate", E: "dmgr", N: -1, S: "s6"},    // member of a group that is gone
	{K: "EntityCreate", E: "member", N: -1, S: "s7"},  // member of g1 and selfm
	{K: "EntityCreate", E: "managers", N: -1, S: "s"}, // called like the group
	{K: "EntityCreate", E: "locked", N: -1, S: "s8"},
	{K: "GroupAddMember", E: "mgr", G: "managers"},
	{K: "GroupAddMember", E: "imgr", G: "included"},
	{K: "GroupAddMember", E: "xmgr", G: "managers"},
	{K: "GroupAddMember", E: "xmgr", G: "excluded"},
	{K: "GroupAddMember", E: "dmgr", G: "dead"},
	{K: "GroupAddMember", E: "member", G: "g1"},
	{K: "GroupAddMember", E: "member", G: "selfm"},
	{K: "GroupDestroy", G: "dead"},
	{K: "SystemCapabilities", T: "e2", Dir: true, Act: actADD, Cap: 0},
	{K: "SystemCapabilities", T: "g2", Act: actADD, Cap: 0},
	{K: "EntityKVAdd", E: "e1", Key: "k", Vals: []KVVal{{V: "v"}}},
	{K: "GroupKVAdd", G: "g1", Key: "k", Vals: []KVVal{{V: "v"}}},
	{K: "EntityUM", E: "e1", Act: actUPSERT, Key: "k", Val: "v"},
	{K: "GroupUM", G: "g1", Act: actUPSERT, Key: "k", Val: "v"},
	{K: "EntityKeys", E: "e1", Act: actADD, Key: "SSH", Val: "K"},
	{K: "EntityLock", E: "locked"},
}

// authzOps are requests that each make a visible change when allowed.
func authzOps() []Op {
	ops := []Op{
		{K: "EntityCreate", E: "fresh", N: -1, S: "x"},
		{K: "EntityCreate", E: "fresh", N: 77, S: ""},
		{K: "SystemCapabilities", T: "e1", Dir: true, Act: actADD, Cap: 0},
		{K: "SystemCapabilities", T: "e2", Dir: true, Act: actDROP, Cap: 0},
		{K: "SystemCapabilities", T: "g1", Act: actADD, Cap: 21},
		{K: "SystemCapabilities", T: "g2", Act: actDROP, Cap: 0},
		{K: "GroupCreate", G: "fresh", N: -1, T: "managers"},
		{K: "GroupCreate", G: "fresh", N: -1},
		{K: "AuthChangeSecret", E: "e1", S: "s1", S2: "new"},
		{K: "AuthChangeSecret", E: "e1", S: "wrong", S2: "new"},
		{K: "AuthChangeSecret", E: "e1", S: "", S2: "new"},
		{K: "AuthChangeSecret", E: "e1", S: "s2", S2: ""},
		{K: "AuthChangeSecret", E: "mgr", S: "s3", S2: "new"},
		{K: "AuthChangeSecret", E: "locked", S: "s8", S2: "new"},
	}
	for _, e := range []string{"e1", "mgr", "nobody"} {
		ops = append(ops,
			Op{K: "EntityUpdate", E: e, M: map[string]string{"Shell": "/bin/x"}},
			Op{K: "EntityUM", E: e, Act: actUPSERT, Key: "z", Val: "v"},
			Op{K: "EntityKVAdd", E: e, Key: "z", Vals: []KVVal{{V: "1"}}},
			Op{K: "EntityKeys", E: e, Act: actADD, Key: "SSH", Val: "NEW"},
			Op{K: "EntityDestroy", E: e},
			Op{K: "EntityLock", E: e},
		)
	}
	ops = append(ops,
		Op{K: "EntityUM", E: "e1", Act: actCLEAREXACT, Key: "k"},
		Op{K: "EntityUM", E: "e1", Act: actCLEARFUZZY, Key: "k"},
		Op{K: "EntityKVDel", E: "e1", Key: "k"},
		Op{K: "EntityKVReplace", E: "e1", Key: "k", Vals: []KVVal{{V: "2"}}},
		Op{K: "EntityKeys", E: "e1", Act: actDROP, Key: "SSH", Val: "K"},
		Op{K: "EntityUnlock", E: "locked"},
		Op{K: "GroupUM", G: "g1", Act: actCLEAREXACT, Key: "k"},
		Op{K: "GroupUM", G: "g1", Act: actCLEARFUZZY, Key: "k"},
		Op{K: "GroupKVDel", G: "g1", Key: "k"},
		Op{K: "GroupKVReplace", G: "g1", Key: "k", Vals: []KVVal{{V: "2"}}},
		Op{K: "GroupUpdateRules", G: "g2", T: "included", Act: ruleDEL},
		Op{K: "GroupDelMember", E: "mgr", G: "managers"},
		Op{K: "GroupDelMember", E: "xmgr", G: "excluded"},
	)
	for _, g := range []string{"g1", "g2", "selfm", "deadm", "managers", "nogroup"} {
		ops = append(ops,
			Op{K: "GroupUpdate", G: g, M: map[string]string{"DisplayName": "changed"}},
			Op{K: "GroupUpdate", G: g, M: map[string]string{"ManagedBy": "g2"}},
			Op{K: "GroupUM", G: g, Act: actUPSERT, Key: "z", Val: "v"},
			Op{K: "GroupKVAdd", G: g, Key: "z", Vals: []KVVal{{V: "1"}}},
			Op{K: "GroupUpdateRules", G: g, T: "g3", Act: ruleINC},
			Op{K: "GroupUpdateRules", G: g, T: "g3", Act: ruleEXC},
			Op{K: "GroupAddMember", E: "e1", G: g},
			Op{K: "GroupDelMember", E: "member", G: g},
			Op{K: "GroupDestroy", G: g},
		)
	}
	for _, gs := range [][]string{{"g1", "g2"}, {"g2", "g1"}, {"g1", "g3"}, {"g1", "managers"}, {"selfm", "g1"}, {"g1", "g1"}, {"g1", "g3", "g2"}} {
		ops = append(ops, Op{K: "GroupAddMember", E: "e1", Gs: gs}, Op{K: "GroupDelMember", E: "member", Gs: gs})
	}
	return ops
}

func authzCreds(o Op) []string {
	out := []string{""}
	need := needCap[o.K]
	for _, k := range allCaps {
		out = append(out, credStr("nobody", k), credStr("e2", k))
	}
	rest := []int32{}
	for _, k := range allCaps {
		if k != need && k != capRoot {
			rest = append(rest, k)
		}
	}
	out = append(out, credStr("nobody", rest...), credStr("nobody", append([]int32{need}, rest...)...))
	for _, id := range []string{"e1", "e2", "mgr", "imgr", "xmgr", "dmgr", "member", "managers", "locked", "nobody", "", "E1", "e1 ", "g1"} {
		out = append(out, credStr(id))
	}
	out = append(out, credStr("e1", need), credStr("e1", rest...), credStr("mgr", need), credStr("mgr", rest...), credStr("locked", need))
	for _, b := range badCreds {
		out = append(out, b+"|e1", b+"|mgr", b+"|nobody")
	}
	return out
}

func verdictName(v int) string { return [...]string{"allow", "deny", "either"}[v] }

func init() {
	register(&Check{
		ID: "P04", MinEvals: 20000,
		Rule: "a situation is (request and target, credential, verdict by the documented rules, answer); every cell of the request by credential matrix is judged, then random histories",
		Run: func(c *Ctx) {
			// Cells that must be refused share a world per request, as
			// they leave no trace; the others get one each.
			var cells [][]Op
			n := 0
			for _, o := range authzOps() {
				m := newModel()
				for _, x := range authzSetup {
					if e := m.Predict(x); e.Apply != nil {
						e.Apply(Res{})
					}
				}
				deny := []Op{}
				for _, cr := range authzCreds(o) {
					x := o
					x.Cred = cr
					n++
					if v, _ := m.authz(x); v == authDeny {
						deny = append(deny, x)
					} else {
						cells = append(cells, []Op{x})
					}
				}
				cells = append(cells, deny)
			}
			names := []string{"managers", "included", "excluded", "dead", "g1", "g2", "g3", "selfm", "deadm", "fresh", "e1", "e2", "mgr", "imgr", "xmgr", "dmgr", "member", "locked", "nobody", "nogroup"}
			c.Cases("matrix", len(cells), func(i int, r *rand.Rand) {
				cfg := EngineCfg{Name: "matrix", Names: names, AuditEvery: 1 << 30,
					NonTrivial: func(m *Model, o Op, r Res) string { return "" },
					Extra:      nil,
					Each: func(m *Model, o Op, r Res) {
						if mutating(o) && o.Cred != "" {
							c.Eval(fmt.Sprintf("%s/%s/%s", o, o.Cred, r.Code))
						}
					}}
				cfg.fixed(c, i, append(append([]Op{}, authzSetup...), cells[i]...))
			})
			c.Count("matrix_cells", n)
			for _, be := range []string{"memory", "filesystem", "bitcask"} {
				n := c.N(250, 12000)
				if be != "memory" {
					n /= 8
				}
				be := be
				c.Cases("random-"+be, n, func(i int, r *rand.Rand) {
					authzRandom(be, merge(wBase, wLife, wMemb, wAttr, wMeta, wSec, wCap), "random-"+be, func(o Op, a string) bool {
						return mutating(o)
					}).runCase(c, i, r)
				})
			}
		},
	})
	register(&Check{
		ID: "P05", MinEvals: 20000,
		Rule: "a situation is (request, is the presenter a member of the managing group directly or through rules or excluded, verdict, answer)",
		Run: func(c *Ctx) {
			for _, be := range []string{"memory", "filesystem", "bitcask"} {
				n := c.N(500, 20000)
				if be != "memory" {
					n /= 8
				}
				be := be
				c.Cases("delegation-"+be, n, func(i int, r *rand.Rand) {
					k := authzRandom(be, delegW, "delegation-"+be, nil)
					delegate(k)
					k.runCase(c, i, r)
				})
			}
			// Managing groups within long chains and wide trees of groups.
			c.Cases("delegation-shapes", c.N(70, 3000), func(i int, r *rand.Rand) {
				k := authzRandom(oneOf(r, backends), delegW, "delegation-shapes", nil)
				var es, gs []string
				k.Setup, es, gs = shapeOps(r, oneOf(r, []int{100, 90, 60}))
				for j := 0; j < 8; j++ {
					k.Setup = append(k.Setup, Op{K: "GroupUpdate", G: oneOf(r, gs), M: map[string]string{"ManagedBy": oneOf(r, gs)}})
				}
				g := newGen(r, delegW, 0, 0)
				g.E, g.G, g.Big = es, gs, true
				k.Len, k.AuditEvery, k.Names = 60, 20, union(es, gs)
				k.Gen = func(r *rand.Rand, m *Model, i int) Op {
					o := g.Next(r, m, i)
					o.Cred = anyCred(r, m, o)
					return o
				}
				delegate(k)
				k.runCase(c, i, r)
			})
			// The scene with direct, indirect, excluded and vanished managers.
			ops := authzOps()
			ids := []string{"e1", "mgr", "imgr", "xmgr", "dmgr", "member", "managers", "e2"}
			cells := []Op{}
			for _, o := range ops {
				for _, id := range ids {
					x := o
					x.Cred = credStr(id)
					cells = append(cells, x)
				}
				for _, b := range badCreds {
					x := o
					x.Cred = b + "|mgr|"
					cells = append(cells, x)
				}
			}
			c.Cases("scene", len(cells), func(i int, r *rand.Rand) {
				cfg := EngineCfg{Name: "scene", Names: []string{"managers", "g1", "g2", "g3", "selfm", "deadm", "dead", "fresh", "e1", "member", "mgr"}, AuditEvery: 1 << 30,
					NonTrivial: func(m *Model, o Op, r Res) string { return fmt.Sprintf("%s/%s/%s", o, o.Cred, r.Code) }}
				cfg.fixed(c, i, append(append([]Op{}, authzSetup...), cells[i]))
			})
			// On a read-only server no delegation applies.
			readOnlyScene(c, func(o Op) []string {
				return []string{credStr("mgr"), credStr("imgr"), credStr("member"), credStr("e1")}
			}, false)
		},
	})
	register(&Check{
		ID: "P06", MinEvals: 2000,
		Rule: "a situation is (request, credential kind, answer) on a read-only server; every request by every credential, and every read compared with the same read on a writable server over the same data",
		Run: func(c *Ctx) {
			readOnlyScene(c, authzCreds, true)
			c.Cases("histories", c.N(120, 6000), func(i int, r *rand.Rand) { readOnlyHistory(c, i, r) })
		},
	})
}

func authzRandom(be string, w GenW, name string, focus func(Op, string) bool) *EngineCfg {
	var g *Gen
	k := &EngineCfg{Name: name, Len: 45, World: WOpts{Backend: be}, Focus: focus}
	r0 := rand.New(rand.NewSource(1))
	_ = r0
	k.Gen = func(r *rand.Rand, m *Model, i int) Op {
		if g == nil {
			if g = newGen(r, w, 3+r.Intn(2), 3+r.Intn(3)); r.Intn(40) == 0 {
				g = bigGen(r, w)
				k.Len, k.AuditEvery = 160, 20
			}
			g.Sec = []string{"s1", "s2", ""}
			k.Names = union(g.E, g.G)
		}
		o := g.Next(r, m, i)
		if has("GroupAddMember GroupDelMember", o.K) && r.Intn(30) == 0 {
			o.Gs = []string{}
		}
		o.Cred = anyCred(r, m, o)
		if has("EntityCreate GroupCreate", o.K) && r.Intn(3) > 0 {
			o.Cred = ""
		}
		if o.K == "AuthChangeSecret" {
			o.S = oneOf(r, g.Sec)
			if e := m.E[o.E]; e != nil && r.Intn(2) == 0 {
				o.S = e.Secret
			}
		}
		return o
	}
	return k
}

// delegW is the mix of requests that matters for delegation.
var delegW = GenW{"EntityCreate": 6, "GroupCreate": 8, "GroupUpdate": 14, "GroupUM": 8, "GroupUpdateRules": 16, "GroupAddMember": 22, "GroupDelMember": 8,
	"GroupDestroy": 2, "EntityDestroy": 1, "SystemCapabilities": 2, "EntityUpdate": 1, "EntityKeys": 2, "AuthChangeSecret": 1, "EntityLock": 1, "GroupKVAdd": 1, "!restart": 1}

// delegate makes the presenters of the requests of k ones whose authority
// is delegated, and ones who come close to it.
func delegate(k *EngineCfg) {
	next := k.Gen
	k.Gen = func(r *rand.Rand, m *Model, i int) Op {
		o := next(r, m, i)
		// Prefer presenters whose authority is delegated,
		// and those who come close to it.
		if g := m.G[o.G]; g != nil && has("GroupUpdate GroupUM GroupUpdateRules GroupAddMember GroupDelMember GroupDestroy", o.K) && r.Intn(3) > 0 && len(m.E) > 0 {
			o.Cred = credStr(oneOf(r, sortedKeys(m.E)))
			if mem := m.Members(g.Man); g.Man != "" && len(mem) > 0 && r.Intn(2) == 0 {
				o.Cred = credStr(oneOf(r, mem))
				if r.Intn(8) == 0 {
					o.Cred = oneOf(r, badCreds) + "|" + oneOf(r, mem)
				}
			}
		} else if r.Intn(2) == 0 && !has("EntityCreate GroupCreate", o.K) && len(m.E) > 0 {
			o.Cred = credStr(oneOf(r, sortedKeys(m.E)))
		} else {
			o.Cred = ""
		}
		if o.K == "GroupCreate" && len(m.G) > 0 && r.Intn(2) == 0 {
			o.T = oneOf(r, append(sortedKeys(m.G), o.G))
		}
		return o
	}
	k.Focus = func(o Op, a string) bool { return mutating(o) }
	k.NonTrivial = func(m *Model, o Op, r Res) string {
		if o.Cred == "" || !mutating(o) {
			return ""
		}
		g := m.G[o.G]
		if g == nil {
			return fmt.Sprintf("%s/none/%s", o.K, r.Code)
		}
		cr := parseCred(o.Cred)
		e := m.E[cr.ID]
		return fmt.Sprintf("%s/%v/%v/%v/%s/%s/%d", o.K, g.Man == "", g.Man == o.G, e != nil && e.Groups[g.Man], cr.Kind, r.Code, len(m.Effective(cr.ID)))
	}
}

// readOnlyScene offers every request to a read-only server.
func readOnlyScene(c *Ctx, creds func(Op) []string, reads bool) {
	for _, be := range []string{"memory", "filesystem", "bitcask"} {
		be := be
		if !reads && be != "memory" {
			continue
		}
		c.CasesP("readonly-"+be, 1, 1, func(i int, r *rand.Rand) {
			w := MustWorld(c, WOpts{Backend: be})
			if w == nil {
				return
			}
			m := newModel()
			for _, o := range authzSetup {
				x := m.Predict(o)
				if res := Exec(ctxRoot(), w.Srv, o); !res.OK() {
					c.Inconclusive("setup refused: " + o.K)
					w.Close()
					return
				} else if x.Apply != nil {
					x.Apply(res)
				}
			}
			var ro *World
			var err error
			auth := map[string]string{}
			for n, e := range m.E {
				auth[n] = e.Secret
			}
			ents, grps := union(sortedKeys(m.E), []string{"nobody", "fresh"}), union(sortedKeys(m.G), []string{"nogroup", "fresh"})
			fw, err := audit(w.Srv, w.Spy, ents, grps, auth)
			if err != nil {
				c.Violate("readonly:audit", err.Error(), nil)
				return
			}
			sw := searchAnswers(w)
			before, _ := w.Spy.Dump()
			w.WOpts.ReadOnly = true
			ro, err = w.Restart(true)
			if err != nil {
				c.Violate("readonly:startup", "a read-only server could not be started: "+err.Error(), map[string]string{"backend": be})
				return
			}
			defer ro.Close()
			same := func(o Op, res Res) bool {
				after, err := ro.Spy.Dump()
				d := ""
				if err != nil {
					d = err.Error()
				} else {
					d = rawDiff(before, after)
				}
				if d != "" {
					c.Violate("readonly:changed:"+o.K, "a request to a read-only server changed stored data: "+d, map[string]interface{}{"request": o, "credential": o.Cred, "answer": res.Code.String(), "backend": be})
					return false
				}
				return true
			}
			ops := authzOps()
			ops = append(ops, Op{K: "GroupAddMember", E: "e1", Gs: []string{}}, Op{K: "GroupDelMember", E: "e1", Gs: []string{}})
			for _, o := range ops {
				for _, cr := range creds(o) {
					x := o
					x.Cred = cr
					res := Exec(parseCred(cr).ctx(), ro.Srv, x)
					c.Eval(fmt.Sprintf("%s/%s/%s", o.K, parseCred(cr).Kind, res.Code))
					if res.Code.String() != "Unimplemented" {
						c.Violate("readonly:answer:"+o.K, fmt.Sprintf("%s on a read-only server answered %s, not the read-only error", o.K, res.Code), map[string]interface{}{"request": x, "backend": be})
					}
					if !same(x, res) {
						return
					}
				}
			}
			if !reads {
				return
			}
			// Everything that only reads answers as on a writable server.
			fr, err := audit(ro.Srv, ro.Spy, ents, grps, auth)
			if err != nil {
				c.Violate("readonly:audit", err.Error(), nil)
				return
			}
			c.EvalN(len(fw), "audit")
			for _, d := range diffFlat(fw, fr) {
				c.Violate("readonly:read:"+d.Aspect(), "a read-only server answers differently: "+d.String(), map[string]string{"backend": be})
			}
			for k, v := range searchAnswers(ro) {
				c.Eval("search/" + k)
				if sw[k] != v {
					c.Violate("readonly:search", fmt.Sprintf("search %q answers %s, on a writable server %s", k, v, sw[k]), nil)
				}
			}
			for _, n := range sortedKeys(m.E) {
				e := m.E[n]
				for _, s := range []string{e.Secret, e.Secret + "x", ""} {
					res := Exec(ctxNone(), ro.Srv, Op{K: "AuthGetToken", E: n, S: s})
					want := !e.Locked && s == e.Secret
					c.Eval(fmt.Sprintf("token/%v", want))
					if res.OK() != want {
						c.Violate("readonly:token", fmt.Sprintf("token request on a read-only server: accepted=%v, want %v", res.OK(), want), map[string]string{"entity": n})
						continue
					}
					if res.OK() {
						if v := Exec(ctxNone(), ro.Srv, Op{K: "AuthValidateToken", S: res.Tok}); !v.OK() {
							c.Violate("readonly:validate", "a read-only server refuses its own token: "+v.Err, nil)
						}
						if cl, err := ro.Tok.Validate(res.Tok); err != nil || capStr(cl.Capabilities) != capStr(toCaps(m.EffCaps(n))) || cl.EntityID != n {
							c.Violate("readonly:claims", fmt.Sprintf("token of a read-only server carries %v %v, want %v", cl, err, m.EffCaps(n)), nil)
						}
					}
					if !same(Op{K: "AuthGetToken", E: n}, res) {
						return
					}
				}
			}
			for _, b := range badCreds {
				for _, t := range parseCred(b + "|e1").tokens() {
					if b == "dup" || b == "dupsame" {
						continue
					}
					c.Eval("validate/" + b)
					if v := Exec(ctxNone(), ro.Srv, Op{K: "AuthValidateToken", S: t}); v.OK() {
						c.Violate("readonly:validate-bad", "an invalid token is accepted: "+b, nil)
					}
				}
			}
			c.Sample(map[string]interface{}{"backend": be, "requests": len(ops), "credentials": len(creds(ops[0]))})
			// Further reads.
			for _, o := range []Op{{K: "SystemPing"}, {K: "SystemStatus"}, {K: "EntityKVGet", E: "e1", Key: "k"}, {K: "GroupKVGet", G: "g1", Key: "k"}, {K: "EntityUM", E: "e1", Act: actREAD, Key: "*"}, {K: "GroupUM", G: "g1", Act: actREAD, Key: "*"}, {K: "EntityKeys", E: "e1", Act: actREAD}, {K: "GroupMembers", G: "g1"}} {
				res := Exec(ctxNone(), ro.Srv, o)
				c.Eval("read/" + o.K)
				if !res.OK() {
					c.Violate("readonly:refuses:"+o.K, "a read-only server refuses a read: "+res.Err, o)
				}
				if !same(o, res) {
					return
				}
			}
		})
	}
}

// readOnlyHistory prepares a server by a random history and then offers
// random requests to a read-only server on the same data.
func readOnlyHistory(c *Ctx, i int, r *rand.Rand) {
	wo := WOpts{Backend: oneOf(r, backends)}
	if r.Intn(6) == 0 {
		wo.Crypto = "bcrypt"
	}
	w := MustWorld(c, wo)
	if w == nil {
		return
	}
	ws := merge(wBase, wBase, wMemb, wAttr, wAttr, wMeta, wSec, wCap, GenW{"EntityDestroy": 1, "GroupDestroy": 1})
	g := newGen(r, ws, 3+r.Intn(3), 3+r.Intn(3))
	if r.Intn(20) == 0 {
		g = bigGen(r, ws)
	}
	m := newModel()
	for n := 15 + r.Intn(50); n > 0; n-- {
		o := g.Next(r, m, 100)
		x := m.Predict(o)
		if res := Exec(ctxRoot(), w.Srv, o); res.OK() && x.Apply != nil {
			x.Apply(res)
		}
	}
	names, gnames := union(g.E, sortedKeys(m.E)), union(g.G, sortedKeys(m.G))
	auth := map[string]string{}
	for n, e := range m.E {
		auth[n] = e.Secret
	}
	// What was read on the writable server.
	fw, err := audit(w.Srv, w.Spy, names, gnames, auth)
	if err != nil {
		w.Close()
		return // judged by other checks
	}
	before, _ := w.Spy.Dump()
	w.WOpts.ReadOnly = true
	ro, err := w.Restart(r.Intn(2) == 0)
	if err != nil {
		c.Violate("readonly:startup", "a read-only server could not be started: "+err.Error(), map[string]string{"backend": wo.Backend})
		return
	}
	defer func() { ro.Close() }()
	rg := newGen(r, merge(ws, GenW{"EntityDestroy": 6, "GroupDestroy": 6, "GroupKVGet": 3, "EntityKVGet": 3, "EntityInfo": 3, "GroupInfo": 3, "GroupMembers": 3, "EntityGroups": 3, "AuthEntity": 5, "AuthGetToken": 5}), 3, 3)
	rg.E, rg.G = g.E, g.G
	for n := 80; n > 0; n-- {
		o := rg.Next(r, m, 100)
		if mutating(o) && r.Intn(12) == 0 {
			// Nothing in particular.
			odd := oneOf(r, []string{"", "", ".", "/", "..", "a/b", "\x00"})
			o.E, o.G, o.T = odd, odd, odd
		}
		if o.K == "AuthChangeSecret" {
			if e := m.E[o.E]; e != nil && r.Intn(2) == 0 {
				o.S = e.Secret
				if r.Intn(2) == 0 {
					o.S2 = o.S
				}
			}
		}
		if o.Cred = anyCred(r, m, o); r.Intn(4) == 0 {
			o.Cred = credStr(oneOf(r, names), capRoot)
			if o.E != "" && r.Intn(2) == 0 {
				o.Cred = credStr(o.E)
			}
		}
		res := Exec(parseCred(o.Cred).ctx(), ro.Srv, o)
		what := map[string]interface{}{"request": o, "credential": o.Cred, "answer": res.Code.String(), "error": res.Err, "backend": wo.Backend}
		c.Eval(fmt.Sprintf("%s/%d/%s/%s", o.K, o.Act, parseCred(o.Cred).Kind, res.Code))
		if mutating(o) && res.Code != codes.Unimplemented {
			c.Violate("readonly:answer:"+o.K, fmt.Sprintf("%s on a read-only server answered %s, not the read-only error", o.K, res.Code), what)
		}
		if !mutating(o) {
			x := m.Predict(o)
			if x.Want == wantOK && !res.OK() || x.Want == wantFail && res.OK() {
				c.Violate("readonly:read:"+o.K, fmt.Sprintf("%s on a read-only server: accepted=%v, which differs from a writable one (%s)", o.K, res.OK(), x.Why), what)
			}
		}
		after, err := ro.Spy.Dump()
		d := ""
		if err != nil {
			d = err.Error()
		} else {
			d = rawDiff(before, after)
		}
		if d != "" {
			if !mutating(o) && has("AuthEntity AuthGetToken", o.K) {
				d += " (by authenticating)"
			}
			c.Violate("readonly:changed:"+o.K, "a request to a read-only server changed stored data: "+d, what)
			return
		}
	}
	for pass := 0; pass < 2; pass++ {
		fr, err := audit(ro.Srv, ro.Spy, names, gnames, auth)
		if err != nil {
			c.Violate("readonly:audit", err.Error(), nil)
			return
		}
		c.EvalN(len(fw), "audit")
		for _, d := range diffFlat(fw, fr) {
			c.Violate("readonly:read:"+d.Aspect(), "a read-only server answers differently: "+d.String(), map[string]interface{}{"backend": wo.Backend, "restarted": pass})
		}
		if pass == 0 {
			ro.WOpts.ReadOnly = r.Intn(2) == 0
			n, err := ro.Restart(r.Intn(2) == 0)
			if err != nil {
				c.Violate("readonly:startup", "the server could not be started again: "+err.Error(), nil)
				return
			}
			ro = n
		}
	}
}

// searchAnswers runs a set of searches.
func searchAnswers(w *World) map[string]string {
	out := map[string]string{}
	for _, q := range []string{"*", "e1", "ID:e1", "mgr", "Name:g1", "managers", "meta.Locked:true", "v"} {
		a := Exec(ctxNone(), w.Srv, Op{K: "EntitySearch", Key: q})
		b := Exec(ctxNone(), w.Srv, Op{K: "GroupSearch", Key: q})
		out[q] = fmt.Sprint(a.Code, qlist(entityNames(a.Ents)), b.Code, qlist(groupNames(b.Grps)))
	}
	return out
}
