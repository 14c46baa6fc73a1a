//go:build go1.22

package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
)

// bootstrap performs a start-up step and moves the reference.  o.E and
// o.S are what is bootstrapped; o.N > 0 makes that storage access fail.
func (cfg *EngineCfg) bootstrap(c *Ctx, w *World, m *Model, i int, o Op, quiet bool) *stepFail {
	if o.K == "!disable" {
		w.Tree.DisableBootstrap()
		w.booted = true
		return nil
	}
	before, err := w.Spy.Dump()
	if err != nil {
		return &stepFail{i, o, "RAW", err.Error(), true}
	}
	faulted := false
	if o.N > 0 {
		k := int32(0)
		var mu sync.Mutex
		w.Spy.SetFault(func(_ int64, _, _ string) error {
			mu.Lock()
			defer mu.Unlock()
			k++
			if k == o.N {
				faulted = true
				return Injected
			}
			return nil
		})
	}
	w.Tree.Bootstrap(o.E, o.S)
	w.Spy.SetFault(nil)
	was := w.booted
	w.booted = true
	after, err := w.Spy.Dump()
	if err != nil {
		return &stepFail{i, o, "RAW", err.Error(), true}
	}
	d := rawDiff(before, after)
	if !quiet {
		c.Eval(fmt.Sprintf("bootstrap/first=%v/known=%v/locked=%v/valid=%v/fault=%d/effect=%v", !was, m.E[o.E] != nil, m.E[o.E] != nil && m.E[o.E].Locked, validName(o.E), o.N, d != ""))
		if was {
			c.Count("attempts_after_the_first", 1)
		} else {
			c.Count("first_attempts", 1)
		}
	}
	may := !was && validName(o.E) && (m.E[o.E] != nil || m.maxENum() < math.MaxInt32)
	if !may && d != "" {
		return &stepFail{i, o, "result", "a bootstrap that must have no effect had one: " + d, true}
	}
	if !may || faulted && d == "" {
		return nil
	}
	e := m.E[o.E]
	if e == nil {
		e = newMEnt(0, o.S)
		max := m.maxENum()
		m.E[o.E] = e
		r := Exec(ctxNone(), w.Srv, Op{K: "EntityInfo", E: o.E})
		if !r.OK() || len(r.Ents) != 1 {
			return &stepFail{i, o, "result", "the bootstrapped entity does not exist", true}
		}
		e.Num = r.Ents[0].GetNumber()
		if e.Num <= max {
			return &stepFail{i, o, "result", fmt.Sprintf("the bootstrapped entity got number %d with %d in use", e.Num, max), true}
		}
	}
	e.Secret = o.S
	e.Locked = false
	e.Caps[capRoot] = true
	return nil
}

func init() {
	register(&Check{
		ID: "P22", MinEvals: 5000,
		Rule: "a situation is (first attempt of the server's life or a later one, entity known, locked, name storable, storage access that failed, effect seen)",
		Run: func(c *Ctx) {
			for _, be := range []string{"memory", "filesystem", "bitcask"} {
				n := c.N(240, 8000)
				if be != "memory" {
					n /= 4
				}
				be := be
				name := "bootstrap-" + be
				c.Cases(name, n, func(i int, r *rand.Rand) {
					g := newGen(r, merge(GenW{"EntityCreate": 5, "EntityDestroy": 2, "GroupCreate": 3, "AuthChangeSecret": 2, "EntityUpdate": 4, "EntityUM": 3, "EntityKeys": 3, "EntityKVAdd": 3, "GroupAddMember": 4, "GroupUpdateRules": 1,
						"EntityLock": 5, "EntityUnlock": 1, "SystemCapabilities": 5}), 3, 2)
					cr := "nocrypto"
					if r.Intn(4) == 0 {
						cr = "bcrypt"
					}
					names := append([]string{"fresh", "g/1", "", "..", "a/b", "root"}, g.E...)
					late := 0
					cfg := EngineCfg{Name: name, Len: 26, World: WOpts{Backend: be, Crypto: cr}, Names: append(append([]string{}, names...), g.G...),
						Gen: func(r *rand.Rand, m *Model, i int) Op {
							boot := func() Op {
								o := Op{K: "!bootstrap", E: oneOf(r, names), S: oneOf(r, g.Sec)}
								if len(m.E) > 0 && r.Intn(2) == 0 {
									o.E = oneOf(r, sortedKeys(m.E))
								}
								if r.Intn(5) == 0 {
									o.N = int32(1 + r.Intn(5))
								}
								return o
							}
							if late > 0 {
								late--
								switch r.Intn(5) {
								case 0:
									return Op{K: "!disable"}
								case 1, 2, 3:
									return boot()
								}
							} else if r.Intn(7) == 0 {
								late = 4
								return Op{K: oneOf(r, []string{"!restart", "!abrupt"})}
							} else if r.Intn(10) == 0 {
								return boot()
							}
							o := g.Next(r, m, i)
							// What a bootstrapped entity does with its token.
							if len(m.E) > 0 && r.Intn(4) == 0 {
								n := oneOf(r, sortedKeys(m.E))
								o.Cred = credStr(n, m.EffCaps(n)...)
							}
							return o
						},
						Extra: func(w *World, m *Model, o Op, _ Res) []Diff {
							if !strings.HasPrefix(o.K, "!boot") || m.E[o.E] == nil {
								return nil
							}
							e := m.E[o.E]
							res := Exec(ctxNone(), w.Srv, Op{K: "AuthGetToken", E: o.E, S: e.Secret})
							if res.OK() == e.Locked {
								return []Diff{{"B/token", fmt.Sprint(!e.Locked), res.Code.String()}}
							}
							if !res.OK() {
								return nil
							}
							cl, err := w.Tok.Validate(res.Tok)
							if err != nil {
								return []Diff{{"B/token", "valid", err.Error()}}
							}
							root := false
							for _, k := range cl.Capabilities {
								root = root || int32(k) == capRoot
							}
							c.Eval(fmt.Sprintf("token/root=%v", root))
							want := false
							for _, k := range m.EffCaps(o.E) {
								want = want || k == capRoot
							}
							if root != want {
								return []Diff{{"B/token", fmt.Sprint(want), fmt.Sprint(root)}}
							}
							return nil
						},
						Focus: func(o Op, a string) bool {
							return strings.HasPrefix(o.K, "!boot") || o.K == "!disable" || strings.HasPrefix(a, "B/")
						},
						NonTrivial: func(m *Model, o Op, r Res) string { return "" }}
					cfg.runCase(c, i, r)
				})
			}
		},
	})
}
