//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"syscall"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"

	types "github.com/netauth/protocol"
)

// Requests while storage fails.

var wFault = merge(wBase, wLife, wMemb, wAttr, wMeta, wSec, wCap, GenW{"EntityInfo": 3, "EntityGroups": 5, "GroupInfo": 3, "GroupMembers": 6, "AuthEntity": 3, "AuthGetToken": 10})

// addressed lists the records a request names.
func addressed(o Op) []string {
	out := []string{}
	if o.K == "SystemCapabilities" {
		if o.Dir {
			return []string{"/entities/" + o.T}
		}
		return []string{"/groups/" + o.T}
	}
	if o.E != "" {
		out = append(out, "/entities/"+o.E)
	}
	if o.G != "" && o.Gs == nil {
		out = append(out, "/groups/"+o.G)
	}
	return out
}

// answerKey is an answer in a form that can be compared.
func answerKey(r Res) string {
	out := []string{}
	for _, e := range r.Ents {
		b, _ := proto.Marshal(e)
		out = append(out, "e"+string(b))
	}
	for _, g := range r.Grps {
		b, _ := proto.Marshal(g)
		out = append(out, "g"+string(b))
	}
	for _, s := range r.Strs {
		out = append(out, "s"+s)
	}
	for _, d := range r.KV {
		out = append(out, "k"+d.GetKey()+kvProto(d))
	}
	sort.Strings(out)
	s := fmt.Sprintf("%q", out)
	if r.Tok != "" {
		cl, err := jwtSvc.Validate(r.Tok)
		cs := map[int32]bool{}
		for _, c := range cl.Capabilities {
			cs[int32(c)] = true
		}
		s += fmt.Sprint(" token ", cl.EntityID, sortedI32(cs), err)
	}
	return s
}

var faultErrs = []error{Injected, syscall.ENOSPC, syscall.EIO, io.ErrUnexpectedEOF, os.ErrPermission, &os.PathError{Op: "open", Path: "/x", Err: syscall.EMFILE}, errors.New(""), io.EOF, Damaged, Garbled, Garbled}

func faultCase(c *Ctx, be string, i int, r *rand.Rand) {
	w := MustWorld(c, WOpts{Backend: be})
	if w == nil {
		return
	}
	defer func() { w.Close() }()
	m := newModel()
	ne, ng := 2+r.Intn(3), 2+r.Intn(4)
	var full []Op // everybody in one group, one in many, many rules
	if i%5 == 0 {
		ne, ng = 5+r.Intn(7), 4+r.Intn(6)
	}
	g := newGen(r, wFault, ne, ng)
	if i%5 == 0 {
		for _, e := range g.E {
			full = append(full, Op{K: "EntityCreate", E: e, N: -1, S: "one"})
		}
		for _, x := range g.G {
			full = append(full, Op{K: "GroupCreate", G: x, N: -1})
		}
		for _, e := range g.E {
			full = append(full, Op{K: "GroupAddMember", E: e, G: g.G[0]})
		}
		for _, x := range g.G[1:] {
			full = append(full, Op{K: "GroupAddMember", E: g.E[0], G: x})
			if r.Intn(2) == 0 {
				full = append(full, Op{K: "GroupUpdateRules", G: g.G[1], T: x, Act: ruleINC})
			}
		}
		for k := 0; k < 4; k++ {
			full = append(full, Op{K: "SystemCapabilities", T: oneOf(r, g.G), Act: actADD, Cap: oneOf(r, allCaps)}, Op{K: "EntityKeys", E: g.E[0], Act: actADD, Key: "SSH", Val: fmt.Sprint(k)})
		}
	}
	g.Sec = []string{"one", "two", "three"}
	var trace []interface{}
	names, gnames := g.E, g.G
	bad := func(key, msg string, o Op) {
		t := trace
		if len(t) > 60 {
			t = t[len(t)-60:]
		}
		c.Violate(key+":"+o.K, be+": "+msg, map[string]interface{}{"backend": be, "case": i, "last": t})
	}
	look := func(o Op, relaxed bool) bool {
		want := m.Flatten()
		auth := map[string]string{}
		for n, e := range m.E {
			auth[n] = e.Secret
		}
		got, err := audit(w.Srv, w.Spy, union(sortedKeys(m.E), names), union(sortedKeys(m.G), gnames), auth)
		if err != nil {
			bad("audit", err.Error(), o)
			return false
		}
		ds := append(diffFlat(want, got), searchGone(w, m, Op{K: "EntityCreate"}, Res{})...)
		ds = append(ds, searchGone(w, m, Op{K: "GroupCreate"}, Res{})...)
		for _, d := range ds {
			if relaxed && has("E/eff G/members S/entity S/group", d.Aspect()) {
				continue
			}
			bad("state", "after the fault was lifted: "+trunc(d.String(), 500), o)
			return false
		}
		c.EvalN(len(want), "")
		return true
	}
	settle := func(x Expect, o Op, res Res) {
		if x.Apply != nil {
			x.Apply(res)
		}
		if o.N == -1 && o.K == "EntityCreate" {
			if r := Exec(ctxNone(), w.Srv, Op{K: "EntityInfo", E: o.E}); r.OK() && len(r.Ents) == 1 {
				max := int32(0)
				for n, e := range m.E {
					if n != o.E && e.Num > max {
						max = e.Num
					}
				}
				if r.Ents[0].GetNumber() <= max {
					bad("number", fmt.Sprintf("the number assigned is %d, %d is in use", r.Ents[0].GetNumber(), max), o)
				}
				m.E[o.E].Num = r.Ents[0].GetNumber()
			}
		}
		if o.N == -1 && o.K == "GroupCreate" {
			if r := Exec(ctxNone(), w.Srv, Op{K: "GroupInfo", G: o.G}); r.OK() && len(r.Grps) == 1 {
				max := int32(0)
				for n, e := range m.G {
					if n != o.G && e.Num > max {
						max = e.Num
					}
				}
				if r.Grps[0].GetNumber() <= max {
					bad("number", fmt.Sprintf("the number assigned is %d, %d is in use", r.Grps[0].GetNumber(), max), o)
				}
				m.G[o.G].Num = r.Grps[0].GetNumber()
			}
		}
	}
	setup := 15 + r.Intn(15)
	if full != nil {
		setup = len(full)
	}
	n := setup + 25
	for s := 0; s < n; s++ {
		o := g.Next(r, m, s)
		if s < len(full) {
			o = full[s]
		} else if full != nil && r.Intn(4) == 0 {
			o = Op{K: "GroupMembers", G: g.G[0]}
		}
		switch o.K {
		case "AuthEntity", "AuthGetToken":
			if e := m.E[o.E]; e != nil && r.Intn(4) > 0 {
				o.S = e.Secret
			}
		}
		if s > setup && r.Intn(12) == 0 {
			o = Op{K: oneOf(r, []string{"EntitySearch", "GroupSearch"}), Key: oneOf(r, []string{"*", "e*", "g*"})}
		}
		if s > setup && mutating(o) && r.Intn(4) == 0 {
			o.Cred = anyCred(r, m, o)
		}
		cx := parseCred(o.Cred).ctx()
		x := m.PredictAuth(o, false)
		ask := !mutating(o)
		var base Res
		if ask {
			base = Exec(cx, w.Srv, o)
		}
		mode := oneOf(r, []string{"one", "one", "one", "rest", "rest", "reads", "writes", "record"})
		fe := oneOf(r, faultErrs)
		if s < setup {
			mode = ""
		}
		done := false
		for k := int64(0); k < 80 && !done; k++ {
			before, err := w.Spy.Dump()
			if err != nil {
				bad("dump", err.Error(), o)
				return
			}
			seen := int64(-1)
			rec := ""
			w.Spy.SetFault(func(_ int64, op, key string) error {
				seen++
				hit := false
				switch mode {
				case "one":
					hit = seen == k
				case "rest":
					hit = seen >= k
				case "reads":
					hit = seen >= k && (op == "get" || op == "keys")
				case "writes":
					hit = seen >= k && (op == "put" || op == "del")
				case "record":
					if seen == k {
						rec = key
					}
					hit = seen >= k && key == rec
				}
				if hit {
					return fe
				}
				return nil
			})
			w.Spy.Record(true)
			res := Exec(cx, w.Srv, o)
			w.Spy.Record(false)
			w.Spy.SetFault(nil)
			log := w.Spy.Log()
			fired, late, wrote := 0, 0, false
			where := ""
			for _, e := range log {
				switch {
				case e.Err:
					fired++
					if wrote {
						late++
					}
					if where == "" {
						kind := "object"
						if !contains(addressed(o), e.Key) {
							kind = "other"
						}
						where = fmt.Sprintf("%s-%s@%d", e.Op, kind, k)
					}
				case e.Op == "put" || e.Op == "del":
					wrote = true
				}
			}
			trace = append(trace, map[string]interface{}{"op": o, "mode": mode, "k": k, "fired": fired, "code": res.Code.String()})
			c.Count("req:"+o.K, 1)
			if fired > 0 {
				c.Count("faults", fired)
				c.Eval(fmt.Sprintf("%s/%s/%s/%s/late=%v", o.K, mode, where, res.Code, late > 0))
			}
			early := fired - late
			after, err := w.Spy.Dump()
			if err != nil {
				bad("dump", err.Error(), o)
				return
			}
			switch {
			case res.OK() && ask:
				if answerKey(res) != answerKey(base) {
					if fired > 0 && base.OK() {
						bad("answer", fmt.Sprintf("with a failing %s the answer is %s, without %s", where, trunc(answerKey(res), 300), trunc(answerKey(base), 300)), o)
						return
					}
					if x.Want == wantFail {
						bad("accepted", fmt.Sprintf("accepted with a failing %s although %s", where, x.Why), o)
						return
					}
				}
			case res.OK() && x.Want == wantFail:
				bad("accepted", fmt.Sprintf("accepted with a failing %s although %s", where, x.Why), o)
				return
			}
			if res.OK() && early > 0 {
				// A record the request names could not be read or
				// written, and it never was.
				for _, key := range addressed(o) {
					failed := false
					for _, e := range log {
						if e.Key == key && e.Err {
							failed = true
						} else if e.Key == key {
							failed = false
							if e.Op == "put" || e.Op == "del" {
								break
							}
						}
					}
					if failed {
						bad("unreported", fmt.Sprintf("reports success although %q could not be accessed (%s)", key, where), o)
						return
					}
				}
			}
			if !res.OK() {
				if d := rawDiff(before, after); d != "" {
					bad("changed", fmt.Sprintf("failed with %s on a failing %s and yet changed stored data: %s", res.Code, where, d), o)
					return
				}
				if fired == 0 {
					if x.Want == wantOK {
						bad("refused", fmt.Sprintf("refused with %s although storage works", res.Code), o)
						return
					}
					done = true
				} else {
					okBefore := x.Want == wantOK || ask && base.OK()
					if okBefore && (res.Code == codes.NotFound || res.Code == codes.AlreadyExists) {
						bad("misreported", fmt.Sprintf("a failing %s is reported as %s", where, res.Code), o)
						return
					}
				}
				if !look(o, false) {
					return
				}
				continue
			}
			if ask {
				if d := rawDiff(before, after); d != "" {
					bad("changed", "a request that only asks changed stored data: "+d, o)
					return
				}
				done = fired == 0
				if !look(o, false) {
					return
				}
				continue
			}
			settle(x, o, res)
			if x.Check != nil {
				if err := x.Check(res); err != nil {
					bad("check", err.Error(), o)
					return
				}
			}
			if !look(o, late > 0) {
				return
			}
			if late > 0 {
				// What is derived from the record when it changes may
				// now be behind; what is stored is not.
				c.Count("reload_faults", 1)
				nw, err := w.Restart(true)
				if err != nil {
					bad("restart", err.Error(), o)
					return
				}
				w = nw
				if !look(o, false) {
					return
				}
			}
			done = true
		}
	}
	c.Count("histories:"+be, 1)
	if c.NeedSample() {
		t := trace
		if len(t) > 40 {
			t = t[len(t)-12:]
		}
		c.Sample(map[string]interface{}{"backend": be, "attempts": t})
	}
}

// bootFault bootstraps a populated server while storage fails: what is
// already stored must not be taken for missing.
func bootFault(c *Ctx, i int, r *rand.Rand) {
	w := MustWorld(c, WOpts{})
	if w == nil {
		return
	}
	defer func() { w.Close() }()
	setup := func(o Op) {
		if res := Exec(ctxRoot(), w.Srv, o); !res.OK() {
			c.Violate("boot-setup", fmt.Sprintf("%s: %s", o, res.Err), nil)
		}
	}
	n := 2 + r.Intn(3)
	for k := 0; k < n; k++ {
		setup(Op{K: "EntityCreate", E: fmt.Sprintf("e%d", k), N: -1, S: "one"})
	}
	setup(Op{K: "GroupCreate", G: "g1", N: -1})
	setup(Op{K: "GroupAddMember", E: "e0", Gs: []string{"g1"}})
	setup(Op{K: "EntityUpdate", E: "e0", M: map[string]string{"LegalName": "Someone"}})
	setup(Op{K: "EntityKeys", E: "e0", Act: actADD, Key: "SSH", Val: "key"})
	target := oneOf(r, []string{"e0", "e0", "e1", "new"})
	mode := oneOf(r, []string{"one", "rest", "reads", "record"})
	for k := int64(0); k < 12; k++ {
		nw, err := w.Restart(true)
		if err != nil {
			c.Violate("boot-restart", err.Error(), nil)
			return
		}
		w = nw
		before, _ := w.Spy.Dump()
		seen, fired := int64(-1), 0
		w.Spy.SetFault(func(_ int64, op, key string) error {
			seen++
			hit := false
			switch mode {
			case "one":
				hit = seen == k
			case "rest":
				hit = seen >= k
			case "reads":
				hit = seen >= k && (op == "get" || op == "keys")
			case "record":
				hit = seen <= k && key == "/entities/"+target
			}
			if hit {
				fired++
				return oneOf(r, faultErrs)
			}
			return nil
		})
		w.Tree.Bootstrap(target, "boot")
		w.Spy.SetFault(nil)
		after, err := w.Spy.Dump()
		if err != nil {
			c.Violate("boot-dump", err.Error(), nil)
			return
		}
		c.Eval(fmt.Sprintf("bootstrap/%s/%s/%d/fired=%d", target, mode, k, fired))
		c.Count("req:Bootstrap", 1)
		for key, v := range before {
			nv, ok := after[key]
			same := ok && v == nv
			if ok && key == "/entities/"+target {
				a, b := &types.Entity{}, &types.Entity{}
				if proto.Unmarshal([]byte(v), a) == nil && proto.Unmarshal([]byte(nv), b) == nil {
					for _, e := range []*types.Entity{a, b} {
						e.Secret = nil
						if e.Meta == nil {
							e.Meta = &types.EntityMeta{}
						}
						e.Meta.Locked = nil
						e.Meta.Capabilities = nil
					}
					same = proto.Equal(a, b)
				}
			}
			if !same {
				c.Violate("bootstrap-replaced", fmt.Sprintf("bootstrapping %q while storage fails (%s from access %d) changed the existing record %q", target, mode, k, key), map[string]interface{}{"before": v, "after": nv})
				return
			}
		}
		if fired == 0 {
			break
		}
	}
}

func init() {
	register(&Check{
		ID: "P21", MinEvals: 5000,
		Rule: "a situation is (request, way of failing, which access failed and whether it was to a record the request names, answer, before or after the change was stored)",
		Assume: []string{"a failure while the server reloads a record after storing it leaves the stored data right and may leave memberships and searches behind until the next change or start, because the storage interface has no way to report it",
			"a storage operation that fails has no effect"},
		Run: func(c *Ctx) {
			diskCases(c)
			c.Cases("bootstrap", c.N(60, 1000), func(i int, r *rand.Rand) { bootFault(c, i, r) })
			for bi, be := range []string{"memory", "filesystem", "bitcask"} {
				be := be
				n := c.N(160, 5000)
				if bi > 0 {
					n /= 5
				}
				c.Cases("faults-"+be, n, func(i int, r *rand.Rand) { faultCase(c, be, i, r) })
			}
		},
	})
}

var _ = strings.HasPrefix
