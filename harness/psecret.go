//go:build go1.22

package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/golang/protobuf/proto"

	types "github.com/netauth/protocol"
)

// secretWatch knows every secret and stored value of a run and looks
// for them in whatever the server says.
type secretWatch struct {
	c      *Ctx
	plain  map[string]bool
	hashes map[string]bool
	owner  map[string]string // stored value -> where first seen
}

func (s *secretWatch) needles() map[string]string {
	out := map[string]string{}
	for p := range s.plain {
		if len(p) >= 8 {
			out[p] = "a secret"
			out[hex.EncodeToString([]byte(p))] = "a secret in hexadecimal"
			out[b64([]byte(p))[:len(p)]] = "a secret in base64"
		}
	}
	for h := range s.hashes {
		if len(h) >= 8 {
			out[h] = "a stored secret"
			if strings.HasPrefix(h, "$2") {
				out[h[7:29]] = "the salt of a stored secret"
				out[h[len(h)-31:]] = "the hash of a stored secret"
			}
		}
	}
	return out
}

// scan looks for secret material in an answer.
func (s *secretWatch) scan(what string, r Res) []Diff {
	text := r.Err + "\x00" + r.Tok
	if r.Msg != nil && !reflect.ValueOf(r.Msg).IsNil() {
		b, _ := proto.Marshal(r.Msg)
		text += "\x00" + string(b) + "\x00" + proto.MarshalTextString(r.Msg)
	}
	for _, p := range strings.Split(r.Tok, ".") {
		if b, ok := unb64(p); ok {
			text += "\x00" + string(b)
		}
	}
	for n, k := range s.needles() {
		if strings.Contains(text, n) {
			return []Diff{{"S/leak", "no secret material in the answer to " + what, k}}
		}
	}
	for _, e := range r.Ents {
		if e.GetSecret() != "" && (s.plain[e.GetSecret()] || s.hashes[e.GetSecret()]) {
			return []Diff{{"S/leak", "no secret material in the answer to " + what, "the secret field"}}
		}
	}
	return nil
}

// stored reads the stored values and judges them.
func (s *secretWatch) stored(w *World, m *Model) []Diff {
	raw, err := w.Spy.Dump()
	if err != nil {
		return []Diff{{"RAW", "readable", err.Error()}}
	}
	seen := map[string]string{}
	for k, v := range raw {
		if strings.HasPrefix(k, "/entities/") {
			e := &types.Entity{}
			if proto.Unmarshal([]byte(v), e) != nil {
				continue
			}
			h := e.GetSecret()
			if h == "" && w.Crypto == "bcrypt" {
				return []Diff{{"S/stored", "a hash stored for " + k, "nothing"}}
			}
			s.hashes[h] = true
			if w.Crypto == "bcrypt" {
				if o, dup := seen[h]; dup {
					return []Diff{{"S/stored", "different stored values for " + o + " and " + k, "the same"}}
				}
				seen[h] = k
				ent := m.E[strings.TrimPrefix(k, "/entities/")]
				if ent != nil {
					// The same stored value must not come back for
					// another secret or another object.
					id := strings.TrimPrefix(k, "/entities/") + "\x00" + ent.Secret
					if o, ok := s.owner[h]; ok && o != id {
						return []Diff{{"S/stored", "a fresh stored value", fmt.Sprintf("%s reuses that of %q", k, o)}}
					}
					s.owner[h] = id
				}
			}
		}
		if w.Crypto == "bcrypt" {
			for p := range s.plain {
				if len(p) >= 8 && strings.Contains(v, p) {
					return []Diff{{"S/plain", "no plain secret in stored data", "it is in " + k}}
				}
			}
		}
	}
	if w.Crypto == "bcrypt" && w.Backend != "memory" {
		var bad string
		filepath.Walk(w.Dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil || fi.IsDir() || bad != "" {
				return nil
			}
			b, _ := os.ReadFile(p)
			for x := range s.plain {
				if len(x) >= 8 && strings.Contains(string(b)+"\x00"+p, x) {
					bad = p
				}
			}
			return nil
		})
		if bad != "" {
			return []Diff{{"S/plain", "no plain secret in any file", "it is in " + filepath.Base(bad)}}
		}
	}
	return nil
}

func fragment(r *rand.Rand, s string) string {
	f := strings.FieldsFunc(s, func(c rune) bool {
		return !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z')
	})
	if len(f) == 0 {
		return ""
	}
	x := oneOf(r, f)
	if len(x) > 6 && r.Intn(2) == 0 {
		i := r.Intn(len(x) - 5)
		x = x[i : i+5+r.Intn(len(x)-i-4)]
	}
	return x
}

func randAlnum(r *rand.Rand, n int) string {
	const al = "abcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = al[r.Intn(len(al))]
	}
	return string(b)
}

var searchShapes = []string{"%s", "%s*", "*%s*", "secret:%s", "Secret:%s", "secret:%s*", "secret:*%s*", "Secret:*%s*", "/.*%s.*/", "secret:/.*%s.*/", "\"%s\"", "secret:\"%s\"",
	"%s~1", "+ID:* -secret:*%s*", "_all:%s", "entity.secret:%s*", "meta.secret:%s", "XXX_unrecognized:%s*", "+%s", "-%s -ID:zz"}

func init() {
	register(&Check{
		ID: "P07", MinEvals: 20000,
		Rule:   "a situation is (request kind or search shape, outcome, secret engine, number of secrets watched for) after a request of a generated history",
		Assume: []string{"secrets in the workload are unique random strings of at least 12 characters, so that finding one cannot be a coincidence", "bcrypt runs at its minimum cost"},
		Run: func(c *Ctx) {
			secretFaults(c)
			for _, cr := range []string{"bcrypt", "nocrypto"} {
				for _, be := range []string{"memory", "filesystem", "bitcask"} {
					n := c.N(40, 1500)
					if be != "memory" {
						n /= 4
					}
					cr, be := cr, be
					name := fmt.Sprintf("secrets-%s-%s", cr, be)
					c.Cases(name, n, func(i int, r *rand.Rand) {
						g := newGen(r, merge(GenW{"EntityCreate": 8, "EntityDestroy": 2, "GroupCreate": 4, "AuthChangeSecret": 14, "AuthEntity": 5, "AuthGetToken": 5, "EntityUpdate": 6, "EntityUM": 3, "EntityKeys": 3, "EntityKVAdd": 3, "EntityKVReplace": 2, "EntityKVGet": 2,
							"GroupAddMember": 8, "GroupUpdateRules": 2, "EntityInfo": 3, "EntityGroups": 2, "GroupMembers": 2, "EntityLock": 2, "EntityUnlock": 2, "SystemCapabilities": 3, "GroupUpdate": 1, "GroupDestroy": 1, "!restart": 1, "!abrupt": 1}), 4, 3)
						sw := &secretWatch{c: c, plain: map[string]bool{}, hashes: map[string]bool{}, owner: map[string]string{}}
						shared := "shared" + randAlnum(r, 10)
						fresh := func() string {
							s := randAlnum(r, 12+r.Intn(30))
							switch r.Intn(6) {
							case 0, 1:
								s = shared
							case 2:
								s = strings.Repeat(s, 6) // longer than bcrypt takes
							case 3:
								s = s[:6] + " " + s[6:]
							}
							sw.plain[s] = true
							return s
						}
						cfg := EngineCfg{Name: name, Len: 30, World: WOpts{Backend: be, Crypto: cr}, Names: union(g.E, g.G), NoAuth: true, AuditEvery: 100000,
							Gen: func(r *rand.Rand, m *Model, i int) Op {
								o := g.Next(r, m, i)
								switch o.K {
								case "EntityCreate":
									o.S = fresh()
								case "AuthChangeSecret":
									o.S2 = fresh()
									if e := m.E[o.E]; e != nil {
										o.S = e.Secret
									}
									if r.Intn(2) == 0 {
										o.Cred = credStr(o.E)
									}
								case "AuthEntity", "AuthGetToken":
									if e := m.E[o.E]; e != nil && r.Intn(3) > 0 {
										o.S = e.Secret
									} else {
										o.S = fresh()
									}
								}
								if o.Cred == "" && r.Intn(3) == 0 {
									o.Cred = anyCred(r, m, o)
								}
								return o
							},
							Focus: func(o Op, a string) bool { return strings.HasPrefix(a, "S/") },
						}
						var held []Diff
						cfg.Each = func(m *Model, o Op, res Res) {
							c.Eval(fmt.Sprintf("%s/%s/%s", cr, o.K, res.Code))
							held = append(held, sw.scan(o.K, res)...)
						}
						step := 0
						cfg.Extra = nil
						watch := func(w *World, m *Model, o Op, res Res) []Diff {
							out := held
							held = nil
							out = append(out, sw.stored(w, m)...)
							if len(out) > 0 {
								return out
							}
							read := func(o Op) {
								x := Exec(ctxNone(), w.Srv, o)
								c.Eval(fmt.Sprintf("%s/%s/%s", cr, o.K, x.Code))
								out = append(out, sw.scan(o.K, x)...)
							}
							for _, n := range union(g.E, sortedKeys(m.E)) {
								read(Op{K: "EntityInfo", E: n})
								read(Op{K: "EntityGroups", E: n})
								read(Op{K: "EntityUM", E: n, Act: actREAD, Key: "*"})
								read(Op{K: "EntityKeys", E: n, Act: actREAD})
								read(Op{K: "EntityKVGet", E: n, Key: oneOf(r, kvKeys)})
								read(Op{K: "EntitySearch", Key: "ID:*"})
								if e := m.E[n]; e != nil {
									read(Op{K: "AuthGetToken", E: n, S: e.Secret})
									read(Op{K: "AuthEntity", E: n, S: e.Secret})
									read(Op{K: "AuthEntity", E: n, S: e.Secret + "x"})
									x := Exec(ctxRoot(), w.Srv, Op{K: "EntityCreate", E: n, N: -1, S: e.Secret})
									out = append(out, sw.scan("EntityCreate of an existing one", x)...)
								}
							}
							for _, n := range union(g.G, sortedKeys(m.G)) {
								read(Op{K: "GroupMembers", G: n})
								read(Op{K: "GroupInfo", G: n})
							}
							read(Op{K: "SystemStatus"})
							// Searching does not select by secret material.
							var mats []string
							for p := range sw.plain {
								mats = append(mats, p)
							}
							for h := range sw.hashes {
								mats = append(mats, h)
							}
							sortStrings(mats)
							for k := 0; k < 8 && len(mats) > 0; k++ {
								f := fragment(r, oneOf(r, mats))
								if len(f) < 5 {
									continue
								}
								shape := oneOf(r, searchShapes)
								nonsense := randAlnum(r, len(f))
								for _, q := range []string{"EntitySearch", "GroupSearch"} {
									a := Exec(ctxNone(), w.Srv, Op{K: q, Key: fmt.Sprintf(shape, f)})
									b := Exec(ctxNone(), w.Srv, Op{K: q, Key: fmt.Sprintf(shape, nonsense)})
									c.Eval(fmt.Sprintf("%s/%s/%s/%s", cr, q, shape, a.Code))
									x, y := qlist(append(entityNames(a.Ents), groupNames(a.Grps)...)), qlist(append(entityNames(b.Ents), groupNames(b.Grps)...))
									if x != y {
										out = append(out, Diff{"S/search", "the same answer as for a meaningless word: " + y, fmt.Sprintf("%s for the search "+shape, x, f)})
									}
									out = append(out, sw.scan(q, a)...)
								}
							}
							step++
							return out
						}
						// The engine's own audit is not needed; watch after
						// every third request and at the end.
						cfg.AuditEvery = 3
						cfg.Extra = watch
						cfg.runCase(c, i, r)
					})
				}
			}
		},
	})
}

// secretFaults makes every kind of request while each of its storage
// accesses fails, and looks for secret material in the answers.
func secretFaults(c *Ctx) {
	c.Cases("secrets-faults", c.N(36, 400), func(i int, r *rand.Rand) {
		crypto := []string{"bcrypt", "nocrypto"}[i%2]
		w := MustWorld(c, WOpts{Backend: []string{"memory", "filesystem", "bitcask"}[i/2%3], Crypto: crypto})
		if w == nil {
			return
		}
		defer w.Close()
		sw := &secretWatch{c: c, plain: map[string]bool{}, hashes: map[string]bool{}, owner: map[string]string{}}
		cur := map[string]string{}
		mk := func() string {
			s := randAlnum(r, 16+r.Intn(20))
			sw.plain[s] = true
			return s
		}
		for _, n := range []string{"e1", "e2", "e3"} {
			cur[n] = mk()
			for _, o := range []Op{{K: "EntityCreate", E: n, N: -1, S: cur[n]}, {K: "EntityUM", E: n, Act: actUPSERT, Key: "k", Val: "v"}} {
				if x := Exec(ctxRoot(), w.Srv, o); !x.OK() {
					c.Violate("prepare", "cannot prepare: "+o.String()+" says "+x.Err, o)
					return
				}
			}
		}
		for _, o := range []Op{{K: "GroupCreate", G: "g1", N: -1}, {K: "GroupCreate", G: "g2", N: -1, T: "g1"}, {K: "GroupAddMember", E: "e1", G: "g1"}, {K: "GroupAddMember", E: "e2", G: "g2"}} {
			if x := Exec(ctxRoot(), w.Srv, o); !x.OK() {
				c.Violate("prepare", "cannot prepare: "+o.String()+" says "+x.Err, o)
				return
			}
		}
		g := newGen(r, merge(wBase, wLife, wMemb, wAttr, wMeta, wSec, wCap, GenW{"AuthEntity": 10, "AuthGetToken": 10, "AuthChangeSecret": 15, "EntityInfo": 8, "EntityGroups": 3, "GroupMembers": 6, "EntityCreate": 8}), 2, 2)
		g.E, g.G, g.Exist = []string{"e1", "e2", "e3", "e4"}, []string{"g1", "g2", "g3"}, 95
		m := newModel()
		for n, s := range cur {
			m.E[n] = &MEnt{Secret: s}
		}
		m.G["g1"], m.G["g2"] = &MGrp{}, &MGrp{}
		for k := 0; k < 60; k++ {
			o := g.Next(r, m, k)
			if strings.HasPrefix(o.K, "!") {
				continue
			}
			if r.Intn(12) == 0 {
				o = oneOf(r, []Op{{K: "EntitySearch", Key: "ID:*"}, {K: "GroupSearch", Key: "Name:*"}, {K: "SystemStatus"}})
			}
			switch o.K {
			case "EntityCreate":
				o.S = mk()
			case "AuthChangeSecret", "AuthEntity", "AuthGetToken":
				o.S, o.S2 = mk(), mk()
				if cur[o.E] != "" && r.Intn(4) > 0 {
					o.S = cur[o.E]
				}
			}
			if x := sw.stored(w, m); len(x) > 0 && crypto == "bcrypt" && x[0].Aspect() != "S/stored" {
				c.Violate("stored", x[0].String(), o)
				return
			}
			// Fail one access, or one and all that follow.
			at, rest, ferr := int64(1+r.Intn(4)), r.Intn(3) == 0, oneOf(r, faultErrs)
			op := oneOf(r, []string{"", "get", "put", "del", "keys"})
			seen, hit := int64(0), false
			w.Spy.SetFault(func(n int64, aop, key string) error {
				if op != "" && aop != op {
					return nil
				}
				if seen++; seen == at || rest && seen > at {
					hit = true
					return ferr
				}
				return nil
			})
			x := Exec(ctxRoot(), w.Srv, o)
			w.Spy.SetFault(nil)
			c.Eval(fmt.Sprintf("fault/%s/%s/%s/%v", crypto, o.K, x.Code, hit))
			for _, d := range sw.scan(o.K+" while storage fails", x) {
				c.Violate("leak:"+o.K, d.String(), map[string]interface{}{"request": o.String(), "fault": fmt.Sprint(ferr), "at": at, "access": op, "answer": x.Err})
				return
			}
			switch {
			case o.K == "EntityCreate" && x.OK() && m.E[o.E] == nil:
				m.E[o.E], cur[o.E] = &MEnt{Secret: o.S}, o.S
			case o.K == "AuthChangeSecret" && x.OK():
				cur[o.E] = o.S2
			case o.K == "EntityDestroy":
				if y := Exec(ctxNone(), w.Srv, Op{K: "EntityInfo", E: o.E}); !y.OK() {
					delete(m.E, o.E)
					delete(cur, o.E)
				}
			case o.K == "GroupDestroy":
				if y := Exec(ctxNone(), w.Srv, Op{K: "GroupInfo", G: o.G}); !y.OK() {
					delete(m.G, o.G)
				}
			case o.K == "GroupCreate" && x.OK():
				m.G[o.G] = &MGrp{}
			}
		}
	})
}
