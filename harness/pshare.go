//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

// shareOp is one call made through the shared client.
type shareOp struct {
	Client int    `json:"client"`
	Op     Op     `json:"op"`
	Err    string `json:"answer"`
}

// shareCase lets goroutines use one client, each on objects of its own,
// so that each must see exactly what it would see alone.
func shareCase(c *Ctx, i int, r *rand.Rand, swA, swB *swSrv, port int) {
	be := oneOf(r, []string{"memory", "memory", "filesystem"})
	w := MustWorld(c, WOpts{Backend: be})
	if w == nil {
		return
	}
	defer w.Close()
	viper.Set("server.readonly", true)
	ro := rpc2.New(rpc2.Refs{TokenService: w.Tok, Tree: w.Tree}, hclog.NewNullLogger())
	viper.Set("server.readonly", false)
	swA.set(w.Srv)
	swB.set(ro)
	two := r.Intn(3) > 0
	srv := "127.0.0.1"
	if two {
		srv = "127.0.0.2"
	}
	cl, err := newLib(srv, "127.0.0.1", port)
	if err != nil {
		c.Violate("connect", "the client library could not connect: "+err.Error(), nil)
		return
	}
	weights := merge(wBase, wLife, wMemb, wAttr, wMeta, wSec, wCap, GenW{"EntityInfo": 8, "GroupInfo": 8, "EntityGroups": 5, "GroupMembers": 5, "AuthEntity": 6, "AuthGetToken": 5,
		"EntityKVGet": 8, "GroupKVGet": 8})
	if r.Intn(3) == 0 {
		w.Spy.delay = jitter(int64(i)*31+c.Seed, 10, 300*time.Microsecond)
	}
	n := 4 + r.Intn(7)
	each := 12 + r.Intn(20)
	start := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	var clock int64
	log := []shareOp{}
	spans := []*conc{}
	models := make([]*Model, n)
	ends := make([]string, n)
	wrongs := make([]string, n)
	for k := 0; k < n; k++ {
		m := newModel()
		models[k] = m
		gr := rand.New(rand.NewSource(r.Int63()))
		g := newGen(gr, weights, 0, 0)
		g.AutoOnly, g.X = true, 0
		for _, p := range gr.Perm(len(entPool))[:3] {
			g.E = append(g.E, fmt.Sprintf("c%d-%s", k, entPool[p]))
		}
		for _, p := range gr.Perm(len(grpPool))[:3] {
			g.G = append(g.G, fmt.Sprintf("c%d-%s", k, grpPool[p]))
		}
		readFirst := gr.Intn(2) == 0
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			l := &lib{c: cl, direct: w.Srv, cmp: func(what string) { c.Count("compared:"+what, 1) }}
			<-start
			for j := 0; j < each; j++ {
				o := g.Next(gr, m, j)
				if readFirst && j < 4 {
					o = oneOf(gr, []Op{{K: "SystemPing"}, {K: "EntityInfo", E: g.E[0]}, {K: "GroupInfo", G: g.G[0]}, {K: "SystemStatus"}})
				}
				if len(o.Gs) > 0 {
					o.G, o.Gs = o.Gs[0], nil
				}
				if has("EntityKVAdd EntityKVReplace GroupKVAdd GroupKVReplace", o.K) {
					for i := range o.Vals {
						x := int32(i)
						o.Vals[i].I = &x
					}
				}
				switch gr.Intn(12) {
				case 0:
					o.Cred = oneOf(gr, []string{"none", "garbage"})
				case 1, 2:
					o.Cred = "tok|" + g.E[0] + "|"
				}
				e := &conc{Client: k, Op: o, Call: atomic.AddInt64(&clock, 1)}
				e.Res = Exec(parseCred(o.Cred).ctx(), l, o)
				e.Ret = atomic.AddInt64(&clock, 1)
				mu.Lock()
				log = append(log, shareOp{k, o, e.Res.Err})
				spans = append(spans, e)
				mu.Unlock()
				c.EvalN(1, fmt.Sprintf("shared/%v/%s/%d/%s", two, o.K, o.Act, e.Res.Code))
				if l.bad != "" {
					wrongs[k] = fmt.Sprintf("%s: %s", o, l.bad)
					ends[k] = o.K
					return
				}
				if o.K == "SystemStatus" {
					continue
				}
				was := m.Flatten()
				ok, next := linStep(m, e)
				if !ok {
					wrongs[k] = fmt.Sprintf("%s answers %s %s, which cannot be: alone it would see %s", o, e.Res.Code, e.Res.Err, trunc(fmt.Sprint(was), 800))
					ends[k] = o.K
					return
				}
				m = next
				models[k] = m
				if e.Res.OK() && o.N == -1 {
					if key, why := learnNumber(w.Srv, m, o, -1<<31, -1<<31); key != "" {
						wrongs[k] = fmt.Sprintf("%s: %s", o, why)
						ends[k] = o.K
						return
					}
				}
				if e.Res.OK() && o.K == "AuthGetToken" {
					cla, err := cl.Validate(e.Res.Tok)
					if err != nil || cla.EntityID != o.E {
						wrongs[k] = fmt.Sprintf("the token obtained for %q is %q for the client itself (%v)", o.E, cla.EntityID, err)
						ends[k] = "Validate"
						return
					}
					if err := cl.PutToken(o.E, e.Res.Tok); err == nil {
						if t, err := cl.GetToken(o.E); err != nil || t != e.Res.Tok {
							wrongs[k] = fmt.Sprintf("the token kept for %q is not what was put (%v)", o.E, err)
							ends[k] = "Token"
							return
						}
					}
					c.Count("tokens", 1)
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	w.Spy.delay = nil
	c.Count("calls", len(log))
	sortConc(spans)
	c.Count("overlapping pairs of calls of different goroutines", overlapping(spans))
	if two {
		c.Count("clients with a separate server for changes", 1)
	}
	for k := range wrongs {
		if wrongs[k] != "" {
			c.Violate("shared:"+ends[k], fmt.Sprintf("goroutine %d of %d sharing a client: %s", k, n, wrongs[k]), map[string]interface{}{"goroutines": n, "calls": log})
			return
		}
	}
	// In the end everything is there, as if each had worked alone.
	for k, m := range models {
		auth := map[string]string{}
		for n, e := range m.E {
			auth[n] = e.Secret
		}
		want := m.Flatten()
		delete(want, "LIST/entities")
		delete(want, "LIST/groups")
		got, err := audit(w.Srv, w.Spy, sortedKeys(m.E), sortedKeys(m.G), auth)
		if err != nil {
			c.Violate("audit", err.Error(), nil)
			return
		}
		delete(got, "LIST/entities")
		delete(got, "LIST/groups")
		if d := diffFlat(want, got); len(d) > 0 {
			c.Violate("shared-final:"+d[0].Aspect(), fmt.Sprintf("after goroutine %d of %d sharing a client: %s", k, n, d[0]), map[string]interface{}{"goroutines": n, "calls": log, "differences": d})
			return
		}
		c.Eval(fmt.Sprintf("final/%d/%d", len(m.E), len(m.G)))
	}
	if c.NeedSample() && len(log) > 3 {
		c.Sample(map[string]interface{}{"goroutines": n, "first calls": log[:4]})
	}
}

// cacheOp is an operation on a token cache.
type cacheOp struct {
	Kind  string `json:"kind"`
	Owner string `json:"owner"`
	Tok   string `json:"token"`
}

type cacheRes struct {
	tok  string
	none bool
	err  error
}

func cacheModel() porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return "" },
		Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
			by := map[string][]porcupine.Operation{}
			for _, o := range h {
				n := o.Input.(cacheOp).Owner
				by[n] = append(by[n], o)
			}
			out := [][]porcupine.Operation{}
			for _, n := range sortedKeys(by) {
				out = append(out, by[n])
			}
			return out
		},
		Step: func(st, in, out interface{}) (bool, interface{}) {
			o, res := in.(cacheOp), out.(cacheRes)
			switch o.Kind {
			case "put":
				return true, "=" + o.Tok
			case "del":
				return true, ""
			}
			if res.none {
				return st == "", st
			}
			return st == "="+res.tok, st
		},
	}
}

// shareCache runs overlapping operations on a token cache.
func shareCache(c *Ctx, name string, dir string, i int, r *rand.Rand) {
	sub := filepath.Join(dir, fmt.Sprint("s", i))
	if err := os.MkdirAll(sub, 0755); err != nil {
		c.Inconclusive(err.Error())
		return
	}
	defer os.RemoveAll(sub)
	os.Setenv("TMPDIR", sub)
	n := 2 + r.Intn(6)
	tcs := make([]cache.TokenCache, n)
	one, err := cache.NewTokenCache(name)
	if err != nil {
		c.Violate("cache-new:"+name, err.Error(), nil)
		return
	}
	for k := range tcs {
		tcs[k] = one
		if name == "fs" && r.Intn(2) == 0 { // as another program would
			if tcs[k], err = cache.NewTokenCache(name); err != nil {
				c.Violate("cache-new:"+name, err.Error(), nil)
				return
			}
		}
	}
	owners := []string{"a", "A", "b/c", "a.nt", ""}[:1+r.Intn(4)]
	var clock int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	h := []porcupine.Operation{}
	start := make(chan struct{})
	big := r.Intn(2) == 0
	for k := 0; k < n; k++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for j := 0; j < 12; j++ {
				o := cacheOp{Owner: oneOf(gr, owners)}
				res := cacheRes{}
				switch gr.Intn(6) {
				case 0, 1:
					o.Kind, o.Tok = "put", fmt.Sprintf("%d.%d.", k, j)
					if big {
						o.Tok += strings.Repeat(fmt.Sprint(k, j), gr.Intn(4000))
					}
				case 2:
					o.Kind = "del"
				default:
					o.Kind = "get"
				}
				call := atomic.AddInt64(&clock, 1)
				switch o.Kind {
				case "put":
					res.err = tcs[k].PutToken(o.Owner, o.Tok)
				case "del":
					res.err = tcs[k].DelToken(o.Owner)
				case "get":
					res.tok, res.err = tcs[k].GetToken(o.Owner)
					if errors.Is(res.err, cache.ErrNoCachedToken) {
						res.none, res.err = true, nil
					}
				}
				ret := atomic.AddInt64(&clock, 1)
				mu.Lock()
				h = append(h, porcupine.Operation{ClientId: k, Input: o, Output: res, Call: call, Return: ret})
				mu.Unlock()
				if gr.Intn(4) == 0 {
					time.Sleep(time.Duration(gr.Intn(50)) * time.Microsecond)
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	sort.Slice(h, func(a, b int) bool { return h[a].Call < h[b].Call })
	over := 0
	trace := []string{}
	for a, x := range h {
		in, out := x.Input.(cacheOp), x.Output.(cacheRes)
		trace = append(trace, fmt.Sprintf("%d: [%d,%d] %s(%q,%s) = %q none=%v %v", x.ClientId, x.Call, x.Return, in.Kind, in.Owner, trunc(in.Tok, 12), trunc(out.tok, 12), out.none, out.err))
		for _, y := range h[a+1:] {
			if y.Call > x.Return {
				break
			}
			if y.ClientId != x.ClientId {
				over++
			}
		}
	}
	c.Count("overlapping operations on a "+name+" token cache", over)
	for a, x := range h {
		if out := x.Output.(cacheRes); out.err != nil {
			c.Violate("cache-fails:"+name, "an operation on the token cache fails while others use it: "+trace[a], map[string]interface{}{"history": trace})
			return
		}
	}
	switch porcupine.CheckOperationsTimeout(cacheModel(), h, 20*time.Second) {
	case porcupine.Illegal:
		c.Violate("cache-order:"+name, "what the token cache returned to goroutines using it at once cannot be explained by any order of their operations", map[string]interface{}{"history": trace})
	case porcupine.Unknown:
		c.Count("histories too long to judge", 1)
	default:
		c.EvalN(1, fmt.Sprintf("cache/%s/%d/%d", name, n, over/10))
	}
	if left, _ := filepath.Glob(filepath.Join(sub, "*")); name == "fs" {
		for _, p := range left {
			if !strings.HasSuffix(p, ".nt") {
				c.Count("files left over", 1)
			}
		}
	}
}

func init() {
	register(&Check{
		ID: "P34", MinEvals: 2000,
		Rule: "a situation is (separate server for changes, library call, action, answer), or (cache, goroutines, overlap)",
		Run: func(c *Ctx) {
			swA, swB := &swSrv{}, &swSrv{}
			a, port, err := serveAt("127.0.0.1", 0, swA)
			if err != nil {
				c.Inconclusive("listen: " + err.Error())
				return
			}
			defer a.Stop()
			b, _, err := serveAt("127.0.0.2", port, swB)
			if err != nil {
				c.Inconclusive("listen: " + err.Error())
				return
			}
			defer b.Stop()
			c.CasesP("shared", c.N(60, 2500), 1, func(i int, r *rand.Rand) { shareCase(c, i, r, swA, swB, port) })
			old := os.Getenv("TMPDIR")
			defer os.Setenv("TMPDIR", old)
			dir := filepath.Join(c.Scratch, "share")
			for _, name := range []string{"memory", "fs"} {
				c.CasesP("cache-"+name, c.N(300, 10000), 1, func(i int, r *rand.Rand) { shareCache(c, name, dir, i, r) })
			}
		},
	})
}
