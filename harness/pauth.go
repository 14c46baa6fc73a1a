//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/golang/protobuf/proto"

	types "github.com/netauth/protocol"
)

// Secrets that are easily taken for each other.
var (
	long71 = strings.Repeat("a", 71)
	long72 = strings.Repeat("a", 72)
	// The ones of 72 bytes and more that differ late, the ones with NUL,
	// and the ones that look like stored values.
	hardSecrets = []string{"secret", "secret ", " secret", "Secret", "SECRET", "secre", "secrett", "", "x", "pässwörd", "passwörd",
		long71, long72, long72 + "b", long72 + "c", long72 + "bc", "a\x00b", "a", "a\x00", "a\x00c", "\x00", "sha256:x", "$2a$04$", "0", "null", "tab\t", "nl\n"}
)

// authEvery tries a range of secrets on every name after a step.
func authEvery(c *Ctx, names []string) func(w *World, m *Model, o Op, r Res) []Diff {
	k := 0
	return func(w *World, m *Model, o Op, r Res) []Diff {
		out := []Diff{}
		raw, err := w.Spy.Dump()
		if err != nil {
			return []Diff{{"RAW", "readable", err.Error()}}
		}
		try := func(n, s, what string) {
			e := m.E[n]
			want := e != nil && !e.Locked && e.Secret == s
			op := Op{K: "AuthEntity", E: n, S: s}
			k++
			if k%3 == 0 {
				op.K = "AuthGetToken"
			}
			res := Exec(ctxNone(), w.Srv, op)
			c.Eval(fmt.Sprintf("%s/%v/%v/%s/%v", op.K, want, res.OK(), what, o.K))
			if res.OK() != want {
				out = append(out, Diff{"E/" + n + "/auth", fmt.Sprintf("accept=%v (%s)", want, what), fmt.Sprintf("accept=%v for secret %q", res.OK(), s)})
			} else if !want && res.Code.String() != "Unauthenticated" {
				out = append(out, Diff{"E/" + n + "/auth", "Unauthenticated", res.Code.String()})
			}
			if op.K == "AuthGetToken" && !res.OK() && res.Tok != "" {
				out = append(out, Diff{"E/" + n + "/auth", "no token", "a token with a failure"})
			}
		}
		secs := map[string]bool{}
		for _, n := range sortedKeys(m.E) {
			secs[m.E[n].Secret] = true
		}
		for _, n := range names {
			e := m.E[n]
			if e == nil {
				for s := range secs {
					try(n, s, "no such entity")
				}
				try(n, "", "no such entity")
				continue
			}
			try(n, e.Secret, "current secret")
			for s := range secs {
				if s != e.Secret {
					try(n, s, "secret of another entity")
				}
			}
			for _, s := range []string{e.Secret + "x", e.Secret + "\x00", e.Secret + " ", strings.ToUpper(e.Secret) + "A"} {
				try(n, s, "variant of the secret")
			}
			if len(e.Secret) > 0 {
				try(n, e.Secret[:len(e.Secret)-1], "prefix of the secret")
			}
			if w.Crypto == "bcrypt" {
				x := &types.Entity{}
				if proto.Unmarshal([]byte(raw["/entities/"+n]), x) == nil && x.GetSecret() != e.Secret {
					try(n, x.GetSecret(), "stored value")
				}
			}
			if len(out) > 0 {
				return out
			}
		}
		after, err := w.Spy.Dump()
		if err != nil {
			return []Diff{{"RAW", "readable", err.Error()}}
		}
		if d := rawDiff(raw, after); d != "" {
			out = append(out, Diff{"RAW", "authentication changes nothing", d})
		}
		return out
	}
}

func init() {
	register(&Check{
		ID: "P01", MinEvals: 5000,
		Rule:   "a situation is (authentication or token request, expected and actual verdict, relation of the offered secret to the current one, the request before it)",
		Assume: []string{"bcrypt runs at its minimum cost"},
		Run: func(c *Ctx) {
			for _, cr := range []string{"bcrypt", "nocrypto"} {
				for _, be := range []string{"memory", "filesystem", "bitcask"} {
					n := c.N(90, 3000)
					if be != "memory" {
						n /= 5
					}
					cr, be := cr, be
					c.Cases("auth-"+cr+"-"+be, n, func(i int, r *rand.Rand) {
						g := newGen(r, merge(GenW{"EntityCreate": 6, "EntityDestroy": 3, "EntityLock": 5, "EntityUnlock": 5, "AuthChangeSecret": 14, "AuthEntity": 8, "AuthGetToken": 4,
							"EntityUpdate": 3, "EntityKeys": 1, "EntityUM": 1, "EntityKVAdd": 1, "!restart": 1, "!abrupt": 1, "SystemCapabilities": 1}), 2+r.Intn(2), 1)
						p := r.Perm(len(hardSecrets))
						g.Sec = nil
						for _, j := range p[:6] {
							g.Sec = append(g.Sec, hardSecrets[j])
						}
						if r.Intn(4) == 0 {
							l := strings.Repeat(oneOf(r, []string{"a", "k\x00", "é", "0"}), 100)
							top := 10
							if r.Intn(4) == 0 {
								top = 17
							}
							l += strings.Repeat("0123456789", 1<<uint(r.Intn(top)))
							g.Sec = append(g.Sec[:2], l, l+"b", l+"c", l[:len(l)/2])
						}
						// Names that differ only a little, one never created.
						names := append([]string{"nobody", strings.ToUpper(g.E[0]) + "x"}, g.E...)
						cfg := EngineCfg{Name: fmt.Sprintf("auth-%s-%s", cr, be), Len: 24, World: WOpts{Backend: be, Crypto: cr}, Names: g.E,
							Gen: func(r *rand.Rand, m *Model, i int) Op {
								o := g.Next(r, m, i)
								if o.K == "SystemCapabilities" {
									o = Op{K: "SystemCapabilities", T: g.ent(r, m), Dir: true, Act: actADD, Cap: 10}
								}
								if o.K == "AuthChangeSecret" {
									o.S = oneOf(r, g.Sec)
									if e := m.E[o.E]; e != nil && r.Intn(3) > 0 {
										o.S = e.Secret
									}
									switch r.Intn(4) {
									case 0:
										o.Cred = credStr(o.E)
									case 1:
										o.Cred = credStr(o.E, capSecret)
									case 2:
										o.Cred = credStr(g.ent(r, m), capSecret)
									}
								}
								return o
							},
							Extra: authEvery(c, names),
							Focus: func(o Op, a string) bool {
								return has("E/auth RAW", a) || a == "startup" || has("AuthEntity AuthGetToken AuthChangeSecret EntityLock EntityUnlock", o.K)
							},
							NonTrivial: func(m *Model, o Op, r Res) string { return "" }}
						cfg.runCase(c, i, r)
					})
				}
			}
		},
	})
	register(&Check{
		ID: "P03", MinEvals: 2000,
		Rule: "a situation is (capabilities a token must carry, capabilities held directly, groups contributing) at the moment a token was issued and read back",
		Run: func(c *Ctx) {
			for _, be := range []string{"memory", "filesystem", "bitcask"} {
				n := c.N(500, 15000)
				if be != "memory" {
					n /= 8
				}
				be := be
				c.Cases("caps-"+be, n, func(i int, r *rand.Rand) {
					ws := merge(GenW{"EntityCreate": 4, "GroupCreate": 5, "SystemCapabilities": 22, "GroupAddMember": 14, "GroupDelMember": 6, "GroupUpdateRules": 14, "AuthGetToken": 20, "EntityDestroy": 1, "GroupDestroy": 3, "EntityUpdate": 1, "GroupUpdate": 1,
						"EntityLock": 1, "EntityUnlock": 2, "AuthChangeSecret": 1, "!restart": 1, "!abrupt": 1})
					g, every := newGen(r, ws, 2+r.Intn(3), 2+r.Intn(4)), 4
					length := 40
					if r.Intn(40) == 0 {
						g, length, every = bigGen(r, ws), 160, 20
					}
					var setup []Op
					if r.Intn(60) == 0 {
						setup, g.E, g.G = shapeOps(r, 90)
						g.Big, length, every = true, 30, 12
					}
					g.Sec = []string{"s", "t"}
					cfg := EngineCfg{Name: "caps-" + be, Len: length, Setup: setup, World: WOpts{Backend: be}, Names: union(g.E, g.G), AuditEvery: every,
						Gen: func(r *rand.Rand, m *Model, i int) Op {
							o := g.Next(r, m, i)
							if o.K == "AuthGetToken" {
								if e := m.E[o.E]; e != nil {
									o.S = e.Secret
								}
							}
							return o
						},
						Extra: tokenCaps(c, r),
						Focus: func(o Op, a string) bool { return has("T/caps T/id T/use", a) },
						NonTrivial: func(m *Model, o Op, r Res) string {
							return ""
						}}
					cfg.runCase(c, i, r)
				})
			}
			// Nearly everything held by groups, little by their members.
			c.Cases("full-groups", c.N(40, 1200), func(i int, r *rand.Rand) {
				names := []string{"e", "f", "g", "h"}
				setup := []Op{{K: "EntityCreate", E: "e", N: -1, S: "s"}, {K: "EntityCreate", E: "f", N: -1, S: "s"}, {K: "GroupCreate", G: "g", N: -1}, {K: "GroupCreate", G: "h", N: -1},
					{K: "GroupAddMember", E: "e", G: "g"}, {K: "GroupAddMember", E: "f", G: "h"}}
				for _, t := range []string{"g", "h"} {
					for _, k := range r.Perm(len(allCaps)) {
						if allCaps[k] != capRoot || r.Intn(2) == 0 {
							setup = append(setup, Op{K: "SystemCapabilities", T: t, Act: actADD, Cap: allCaps[k]})
						}
					}
				}
				cfg := EngineCfg{Name: "full-groups", Len: 24, NoAuth: true, Setup: setup, World: WOpts{Backend: oneOf(r, backends)}, Names: names,
					Gen: func(r *rand.Rand, m *Model, i int) Op {
						switch r.Intn(8) {
						case 0:
							return Op{K: "GroupAddMember", E: oneOf(r, names[:2]), G: oneOf(r, names[2:])}
						case 1:
							return Op{K: "GroupDelMember", E: oneOf(r, names[:2]), G: oneOf(r, names[2:])}
						case 2:
							return Op{K: "GroupUpdateRules", G: oneOf(r, names[2:]), T: oneOf(r, names[2:]), Act: oneOf(r, []int32{ruleINC, ruleEXC, ruleDEL})}
						}
						t := oneOf(r, names)
						return Op{K: "SystemCapabilities", T: t, Dir: t < "g", Act: oneOf(r, []int32{actADD, actADD, actDROP}), Cap: oneOf(r, allCaps)}
					},
					Extra: tokenCaps(c, r),
					Focus: func(o Op, a string) bool { return has("T/caps T/id T/use", a) }}
				cfg.runCase(c, i, r)
			})
			crowdCheck(c, c.N(6, 150), 40, []bool{false}, GenW{"SystemCapabilities": 22, "GroupAddMember": 8, "GroupDelMember": 8, "GroupUpdateRules": 8, "GroupDestroy": 4, "GroupCreate": 4, "!restart": 1}, EngineCfg{Name: "caps", NoAuth: true,
				Extra: func(w *World, m *Model, o Op, res Res) []Diff {
					return tokenCaps(c, rand.New(rand.NewSource(int64(len(m.G)))))(w, m, o, res)
				},
				Focus: func(o Op, a string) bool { return has("T/caps T/id T/use", a) }})
		},
	})
}

// tokenCaps issues a token to every entity, compares what it carries
// with the reference, and uses it.
func tokenCaps(c *Ctx, r *rand.Rand) func(w *World, m *Model, o Op, res Res) []Diff {
	return func(w *World, m *Model, o Op, _ Res) []Diff {
		out := []Diff{}
		for _, n := range sortedKeys(m.E) {
			e := m.E[n]
			if e.Locked {
				continue
			}
			res := Exec(ctxNone(), w.Srv, Op{K: "AuthGetToken", E: n, S: e.Secret})
			if !res.OK() {
				continue
			}
			cl, err := w.Tok.Validate(res.Tok)
			if err != nil {
				out = append(out, Diff{"T/use", "a token that is accepted", err.Error()})
				continue
			}
			want := m.EffCaps(n)
			got := map[int32]bool{}
			for _, k := range cl.Capabilities {
				got[int32(k)] = true
			}
			c.Eval(fmt.Sprintf("%v/%v/%d", want, sortedI32(e.Caps), len(m.Effective(n))))
			if cl.EntityID != n {
				out = append(out, Diff{"T/id", n, cl.EntityID})
			}
			if fmt.Sprint(want) != fmt.Sprint(sortedI32(got)) {
				out = append(out, Diff{"T/caps", fmt.Sprint(want) + " for " + n, fmt.Sprint(sortedI32(got))})
				continue
			}
			// Use it: each probe names what does not exist (or does,
			// for creations), so it changes nothing, and the answer
			// tells whether the authority was there.
			if r.Intn(3) > 0 {
				continue
			}
			for _, p := range capProbes {
				pr := p
				if pr.E == "@" {
					pr.E = n
				}
				if pr.K == "GroupCreate" {
					if len(m.G) == 0 {
						continue
					}
					pr.G = sortedKeys(m.G)[0]
				}
				need := needCap[pr.K]
				may := got[need] || got[capRoot]
				a := Exec(ctxTok(res.Tok), w.Srv, pr)
				refused := a.Code.String() == "PermissionDenied"
				c.Eval(fmt.Sprintf("use/%s/%v", pr.K, may))
				if a.OK() || refused == may {
					out = append(out, Diff{"T/use", fmt.Sprintf("%s authorised=%v with %v", pr.K, may, want), a.Code.String() + " " + a.Err})
				}
			}
		}
		return out
	}
}

// capProbes are requests that cannot succeed, one per capability.
var capProbes = []Op{
	{K: "EntityCreate", E: "@", N: -1, S: "x"},
	{K: "EntityDestroy", E: "no-such-entity"},
	{K: "EntityUpdate", E: "no-such-entity", M: map[string]string{"Shell": "x"}},
	{K: "EntityUM", E: "no-such-entity", Act: actUPSERT, Key: "k", Val: "v"},
	{K: "EntityKVAdd", E: "no-such-entity", Key: "k"},
	{K: "EntityKVDel", E: "no-such-entity", Key: "k"},
	{K: "EntityKVReplace", E: "no-such-entity", Key: "k"},
	{K: "EntityKeys", E: "no-such-entity", Act: actADD, Key: "SSH", Val: "v"},
	{K: "EntityLock", E: "no-such-entity"},
	{K: "EntityUnlock", E: "no-such-entity"},
	{K: "AuthChangeSecret", E: "no-such-entity", S2: "x"},
	{K: "GroupCreate", N: -1},
	{K: "GroupDestroy", G: "no-such-group"},
	{K: "GroupUpdate", G: "no-such-group", M: map[string]string{"DisplayName": "x"}},
	{K: "GroupUM", G: "no-such-group", Act: actUPSERT, Key: "k", Val: "v"},
	{K: "GroupKVAdd", G: "no-such-group", Key: "k"},
	{K: "GroupKVDel", G: "no-such-group", Key: "k"},
	{K: "GroupKVReplace", G: "no-such-group", Key: "k"},
	{K: "GroupUpdateRules", G: "no-such-group", T: "no-such-group", Act: ruleINC},
	{K: "GroupAddMember", E: "no-such-entity", G: "no-such-group"},
	{K: "GroupDelMember", E: "no-such-entity", G: "no-such-group"},
	{K: "SystemCapabilities", T: "no-such-entity", Dir: true, Act: actADD, Cap: 10},
	{K: "SystemCapabilities", T: "no-such-group", Act: actADD, Cap: 10},
}
