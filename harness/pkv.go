//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/db"
)

var kvNames = []string{"a", "ab", "b", "A", "abc", "x.dat", ".hidden", "..a", "a..", "...", "a b", " a", "a ", "*", "?", "[a]", "[", "]", "{a,b}", "a\\b", "\\*", "ünï", "日本", "a:b", "~", "-", "-rf", "#x#", "a%2fb", "%00",
	"entities", "groups", ".mutable", "index", "config.json", "000000000.data", "lock", "\xff\xfe", "a\nb", "\t", "$HOME", "`x`", "con", "a;b", "a'b", "a\"b", strings.Repeat("n", 200), strings.Repeat("n", 254), strings.Repeat("n", 255),
	strings.Repeat("n", 256), strings.Repeat("n", 1000), strings.Repeat("n", 1100), "a\x00b", "tmp", ".tmp123"}

func kvValue(r *rand.Rand) []byte {
	switch r.Intn(40) {
	case 0, 1:
		return []byte{}
	case 2:
		return []byte([]string{"\x00deleted", "\x00v", "\x00v\x00v", "\x00v\x00deleted", "\x00", "\x00d", "\x00deletedx", "{}", "\n", "null"}[r.Intn(10)])
	}
	n := []int{1, 2, 3, 10, 100, 1000, 5000, 70000, 300000}[pickW(r, []int{6, 3, 3, 10, 10, 5, 3, 1, 1})]
	b := make([]byte, n)
	r.Read(b)
	if r.Intn(4) == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	return b
}

type kvRun struct {
	c     *Ctx
	be    string
	dir   string
	kv    db.KVStore
	m     map[string]string
	ev    []db.Event
	evBad string
	trace []string
}

func openKV(be, dir string) (db.KVStore, error) {
	worldMu.Lock()
	defer worldMu.Unlock()
	viper.Set("core.home", dir)
	return db.NewKV(be, hclog.NewNullLogger())
}

func (k *kvRun) bad(key, msg string) {
	t := k.trace
	if len(t) > 40 {
		t = t[len(t)-40:]
	}
	k.c.Violate(k.be+":"+key, k.be+": "+msg, map[string]interface{}{"backend": k.be, "last_operations": t})
}

func (k *kvRun) hook() {
	k.kv.SetEventFunc(func(e db.Event) {
		k.ev = append(k.ev, e)
		// What is announced is visible.
		p := "/entities/"
		if e.Type == db.EventGroupCreate || e.Type == db.EventGroupUpdate || e.Type == db.EventGroupDestroy {
			p = "/groups/"
		}
		v, err := k.kv.Get(p + e.PK)
		gone := e.Type == db.EventEntityDestroy || e.Type == db.EventGroupDestroy
		want, ok := k.m[p+e.PK]
		switch {
		case gone && err == nil:
			k.evBad = "the record is still readable when its removal is announced"
		case !gone && (err != nil || !ok || string(v) != want):
			k.evBad = "the record read when its change is announced is not the new one"
		}
	})
}

func (k *kvRun) check(key string) {
	v, err := k.kv.Get(key)
	want, ok := k.m[key]
	switch {
	case ok && err != nil:
		k.bad("get", fmt.Sprintf("a stored key %q reads with error %v", key, err))
	case ok && string(v) != want:
		k.bad("get", fmt.Sprintf("key %q reads %d bytes %q, stored %d bytes %q", key, len(v), trunc(string(v), 60), len(want), trunc(want, 60)))
	case !ok && err == nil:
		k.bad("ghost", fmt.Sprintf("key %q was never stored or was deleted, and reads %q", key, trunc(string(v), 60)))
	case !ok && err != db.ErrNoValue && representable(k.be, key):
		k.bad("notfound", fmt.Sprintf("reading the absent key %q gives %v, not the not-found result", key, err))
	}
}

// representable tells whether the backend must be able to store a key.
func representable(be, key string) bool {
	n := path.Base(key)
	switch be {
	case "filesystem":
		return len(n) <= 230 && !strings.Contains(n, "\x00")
	case "bitcask":
		return len(key) <= 1024
	}
	return true
}

func (k *kvRun) list(pat string) {
	got, err := k.kv.Keys(pat)
	if err != nil {
		k.bad("keys", fmt.Sprintf("listing %q fails: %v", pat, err))
		return
	}
	want := []string{}
	for x := range k.m {
		if ok, _ := path.Match(pat, x); ok {
			want = append(want, x)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		k.bad("keys", fmt.Sprintf("listing %q gives %q, live are %q", pat, trunc(fmt.Sprint(got), 400), trunc(fmt.Sprint(want), 400)))
	}
	k.c.Eval(fmt.Sprintf("%s/list/%s/%d", k.be, pat, len(want)))
}

func (k *kvRun) all() {
	ks := map[string]bool{}
	for x := range k.m {
		ks[x] = true
	}
	for x := range ks {
		k.check(x)
	}
	for _, p := range []string{"/entities/*", "/groups/*", "/*/*"} {
		k.list(p)
	}
}

func (k *kvRun) reopen(clean bool) bool {
	k.trace = append(k.trace, fmt.Sprintf("reopen clean=%v", clean))
	if k.be == "memory" {
		return true
	}
	if clean {
		if err := k.kv.Close(); err != nil {
			k.bad("close", "closing fails: "+err.Error())
		}
	} else {
		nd := filepath.Join(k.c.Scratch, fmt.Sprintf("kv%d", atomic.AddInt64(&worldSeq, 1)))
		if err := copyTree(k.dir, nd); err != nil {
			k.c.Inconclusive("copy failed")
			return false
		}
		k.kv.Close()
		os.RemoveAll(k.dir)
		k.dir = nd
	}
	kv, err := openKV(k.be, k.dir)
	if err != nil {
		k.bad("reopen", "the store does not open again: "+err.Error())
		return false
	}
	k.kv = kv
	k.hook()
	k.c.Count("reopened", 1)
	return true
}

func init() {
	register(&Check{
		ID: "P16", MinEvals: 5000,
		Rule: "a situation is (backend, operation, class of name, key present before, outcome) or (backend, listing pattern, number of live matches)",
		Assume: []string{"keys have the shape the server uses, /entities/NAME and /groups/NAME", "fsync and power loss are not modelled: an abrupt end is a copy of the files as they stand",
			"names longer than 230 bytes or with NUL need not be storable in the filesystem backend, keys longer than 1024 bytes not in bitcask; refusal must then be an error without effect"},
		Run: runP16,
	})
}

type heldValue struct {
	key string
	v   []byte
	was string
}

func nameClass(n string) string {
	switch {
	case len(n) > 255:
		return "over-long"
	case len(n) > 60:
		return "long"
	case strings.Contains(n, "\x00"):
		return "nul"
	case strings.ContainsAny(n, "*?[]{}\\"):
		return "glob"
	case strings.HasPrefix(n, "."):
		return "dot"
	case strings.ContainsAny(n, " \t\n"):
		return "space"
	}
	for _, c := range n {
		if c > 127 {
			return "non-ascii"
		}
	}
	return "plain"
}

func runP16(c *Ctx) {
	pats := []string{"/entities/*", "/groups/*", "/*/*", "/entities/a*", "/groups/?", "/entities/[a-c]*", "/*", "/*/*/*", "/entities/n*", "/groups/.*", "/entities/ab", "*", ""}
	for _, be := range []string{"memory", "filesystem", "bitcask"} {
		be := be
		c.Cases("kv-"+be, c.N(600, 15000), func(i int, r *rand.Rand) {
			k := &kvRun{c: c, be: be, m: map[string]string{}}
			k.dir = filepath.Join(c.Scratch, fmt.Sprintf("kv%d", atomic.AddInt64(&worldSeq, 1)))
			if i%7 == 3 {
				k.dir += "[x]*{a}\\ b"
			}
			os.MkdirAll(k.dir, 0755)
			defer func() { os.RemoveAll(k.dir) }()
			kv, err := openKV(be, k.dir)
			if err != nil {
				if be == "bitcask" && i%7 == 3 {
					// Refusing a directory is not losing what is in it.
					c.Eval("bitcask/open-refused")
					return
				}
				k.bad("open", "the store does not open: "+err.Error())
				return
			}
			k.kv = kv
			k.hook()
			defer func() { k.kv.Close() }()
			var pool []string
			for _, j := range r.Perm(len(kvNames))[:4+r.Intn(12)] {
				if r.Intn(3) > 0 {
					pool = append(pool, "/entities/"+kvNames[j])
				}
				if r.Intn(2) == 0 {
					pool = append(pool, "/groups/"+kvNames[j])
				}
			}
			if len(pool) == 0 {
				pool = []string{"/entities/a"}
			}
			n := 50 + r.Intn(60)
			var held []heldValue
			for s := 0; s < n; s++ {
				for _, h := range held {
					if string(h.v) != h.was {
						k.bad("read-value", fmt.Sprintf("a value that was read from %q changed afterwards", h.key))
						return
					}
				}
				key := oneOf(r, pool)
				_, had := k.m[key]
				k.ev, k.evBad = nil, ""
				isE := strings.HasPrefix(key, "/entities/")
				switch pickW(r, []int{10, 6, 6, 4, 1, 1}) {
				case 0:
					v := kvValue(r)
					if s == 5 && i%11 == 0 {
						v = make([]byte, 1<<20)
						r.Read(v)
					}
					k.trace = append(k.trace, fmt.Sprintf("put %q %d bytes", key, len(v)))
					buf := append([]byte{}, v...)
					prev, was := k.m[key]
					k.m[key] = string(v)
					err := k.kv.Put(key, buf)
					c.Eval(fmt.Sprintf("%s/put/%s/%v/%v", be, nameClass(path.Base(key)), had, err == nil))
					if err != nil {
						if was {
							k.m[key] = prev
						} else {
							delete(k.m, key)
						}
						if representable(be, key) {
							k.bad("put", fmt.Sprintf("storing %q (%d bytes) fails: %v", key, len(v), err))
						}
						if len(k.ev) != 0 {
							k.bad("event", "a failed store was announced")
						}
						break
					}
					k.judgeEvent(key, isE, false)
					if be != "memory" {
						// The caller's buffer is the caller's.
						for j := range buf {
							buf[j] ^= 0xff
						}
					}
					k.check(key)
				case 1:
					k.trace = append(k.trace, fmt.Sprintf("del %q", key))
					prev := k.m[key]
					delete(k.m, key)
					err := k.kv.Del(key)
					c.Eval(fmt.Sprintf("%s/del/%s/%v/%v", be, nameClass(path.Base(key)), had, err == nil))
					switch {
					case had && err != nil:
						k.m[key] = prev
						k.bad("del", fmt.Sprintf("deleting the stored key %q fails: %v", key, err))
					case !had && err == nil:
						k.bad("del-absent", fmt.Sprintf("deleting the absent key %q succeeds", key))
					case !had && err != db.ErrNoValue && representable(be, key):
						k.bad("del-absent", fmt.Sprintf("deleting the absent key %q gives %v, not the not-found result", key, err))
					}
					if had && err == nil {
						k.judgeEvent(key, isE, true)
					} else if len(k.ev) != 0 {
						k.bad("event", "a deletion that did not happen was announced")
					}
					k.check(key)
				case 2:
					k.trace = append(k.trace, fmt.Sprintf("get %q", key))
					c.Eval(fmt.Sprintf("%s/get/%s/%v", be, nameClass(path.Base(key)), had))
					k.check(key)
					if v, err := k.kv.Get(key); err == nil && r.Intn(2) == 0 {
						// What was read stays as it was, whatever
						// happens to the key.
						held = append(held, heldValue{key, v, string(v)})
					} else if err == nil && be != "memory" {
						for j := range v {
							v[j] ^= 0x55
						}
						k.check(key)
					}
					if len(k.ev) != 0 {
						k.bad("event", "a read was announced as a change")
					}
				case 3:
					k.list(oneOf(r, pats))
				case 4:
					if !k.reopen(true) {
						return
					}
					k.all()
				case 5:
					if !k.reopen(false) {
						return
					}
					k.all()
				}
			}
			k.all()
			if !k.reopen(r.Intn(2) == 0) {
				return
			}
			k.all()
			if c.NeedSample() {
				t := k.trace
				if len(t) > 12 {
					t = t[:12]
				}
				c.Sample(map[string]interface{}{"backend": be, "operations": t, "live": len(k.m)})
			}
		})
		// Many names that are the beginnings of others, in any order.
		c.Cases("churn-"+be, c.N(60, 2500), func(i int, r *rand.Rand) {
			k := &kvRun{c: c, be: be, m: map[string]string{}}
			k.dir = filepath.Join(c.Scratch, fmt.Sprintf("kv%d", atomic.AddInt64(&worldSeq, 1)))
			os.MkdirAll(k.dir, 0755)
			defer func() { os.RemoveAll(k.dir) }()
			kv, err := openKV(be, k.dir)
			if err != nil {
				k.bad("open", "the store does not open: "+err.Error())
				return
			}
			k.kv = kv
			crashed := func() (bad bool) {
				defer func() {
					if e := recover(); e != nil {
						k.bad("panic", fmt.Sprintf("the store crashed: %v", e))
						bad = true
					}
				}()
				k.hook()
				width := []int{3, 6, 12, 20, 40, 60, 130, 300}[r.Intn(8)]
				base := oneOf(r, []string{"n", "u", "", "long-common-prefix-of-the-name", "x.y"})
				L := 200 + r.Intn(200)
				for s := 0; s < L; s++ {
					key := oneOf(r, []string{"/entities/", "/entities/", "/entities/", "/groups/"}) + base
					switch j := r.Intn(width); {
					case j == 0 && base != "":
					case width > 100:
						key += fmt.Sprintf("%c", rune(48+j*3))
					default:
						key += fmt.Sprint(j)
					}
					if r.Intn(2) == 0 {
						v := fmt.Sprintf("%s=%d", key, s)
						k.trace = append(k.trace, fmt.Sprintf("put %q", key))
						k.m[key] = v
						if err := k.kv.Put(key, []byte(v)); err != nil {
							k.bad("put", fmt.Sprintf("storing %q fails: %v", key, err))
						}
					} else {
						_, had := k.m[key]
						k.trace = append(k.trace, fmt.Sprintf("del %q", key))
						delete(k.m, key)
						err := k.kv.Del(key)
						if had && err != nil || !had && err != db.ErrNoValue {
							k.bad("del", fmt.Sprintf("deleting %q (present: %v) gives %v", key, had, err))
						}
					}
					if s%60 == 59 {
						k.all()
						k.reopen(r.Intn(2) == 0)
						k.all()
					}
				}
				c.Eval(fmt.Sprintf("%s/churn/%d/%s/%d", be, width, base, len(k.m)/8))
				return false
			}()
			if !crashed {
				k.kv.Close()
			}
		})
		// The same key in the same backend, reopened, with nothing in it.
		c.Cases("empty-"+be, 1, func(i int, r *rand.Rand) {
			k := &kvRun{c: c, be: be, m: map[string]string{}}
			k.dir = filepath.Join(c.Scratch, fmt.Sprintf("kv%d", atomic.AddInt64(&worldSeq, 1)))
			os.MkdirAll(k.dir, 0755)
			defer func() { os.RemoveAll(k.dir) }()
			kv, err := openKV(be, k.dir)
			if err != nil {
				return
			}
			k.kv = kv
			k.hook()
			k.m["/entities/empty"] = ""
			k.m["/entities/full"] = "x"
			k.kv.Put("/entities/full", []byte("x"))
			if err := k.kv.Put("/entities/empty", []byte{}); err != nil {
				delete(k.m, "/entities/empty")
			}
			k.all()
			if k.reopen(true) {
				if _, err := k.kv.Get("/entities/empty"); err != nil && k.m["/entities/full"] == "x" {
					if _, ok := k.m["/entities/empty"]; ok {
						k.bad("empty-value-lost", "a record with an empty value is gone after reopening")
						delete(k.m, "/entities/empty")
					}
				}
				k.all()
			}
			k.kv.Close()
		})
		// Somebody tries to open the store while it is being written.
		if be != "memory" {
			c.Cases("in-use-"+be, c.N(4, 60), func(i int, r *rand.Rand) {
				k := &kvRun{c: c, be: be, m: map[string]string{}}
				k.dir = filepath.Join(c.Scratch, fmt.Sprintf("kv%d", atomic.AddInt64(&worldSeq, 1)))
				os.MkdirAll(k.dir, 0755)
				defer func() { os.RemoveAll(k.dir) }()
				kv, err := openKV(be, k.dir)
				if err != nil {
					k.bad("open", "the store does not open: "+err.Error())
					return
				}
				k.kv = kv
				kv.SetEventFunc(func(db.Event) {})
				var stop int32
				tries := make(chan int, 1)
				go func() {
					n := 0
					for ; atomic.LoadInt32(&stop) == 0; n++ {
						o, err := openKV(be, k.dir)
						c.EvalN(1, fmt.Sprintf("in-use/%s/second open %v", be, err == nil))
						if err == nil {
							o.Close()
						}
					}
					tries <- n
				}()
				for j := 0; j < 150; j++ {
					key := fmt.Sprintf("/entities/k%d", r.Intn(12))
					if r.Intn(8) == 0 {
						if err := kv.Del(key); err == nil {
							delete(k.m, key)
						} else if _, ok := k.m[key]; ok {
							k.bad("in-use:del", fmt.Sprintf("deleting %q fails while somebody else tries to open the store: %v", key, err))
							break
						}
						continue
					}
					v := bytes.Repeat([]byte{byte(j), byte(r.Int())}, 1+r.Intn(50000)<<uint(r.Intn(6)))
					if err := kv.Put(key, v); err != nil {
						k.bad("in-use:put", fmt.Sprintf("writing %q fails while somebody else tries to open the store: %v", key, err))
						break
					}
					k.m[key] = string(v)
				}
				atomic.StoreInt32(&stop, 1)
				c.Count("attempts to open a store in use", <-tries)
				k.all()
				if k.reopen(i%2 == 0) {
					k.all()
				}
				k.kv.Close()
			})
		}
		// A store that cannot be written to, from the first record on.
		if be != "memory" && os.Getuid() != 0 {
			how := []string{"home", "base", "base is a file", "kind is a file", "kind is unwritable", "base gone"}
			c.Cases("unwritable-"+be, 2*len(how), func(i int, r *rand.Rand) {
				k := &kvRun{c: c, be: be, m: map[string]string{}}
				k.dir = filepath.Join(c.Scratch, fmt.Sprintf("kv%d", atomic.AddInt64(&worldSeq, 1)))
				os.MkdirAll(k.dir, 0755)
				h := how[i%len(how)]
				what := fmt.Sprintf("unwritable/%s/%s", be, h)
				base := filepath.Join(k.dir, map[string]string{"filesystem": "kv", "bitcask": "bc"}[be])
				kind := filepath.Join(base, "groups")
				modes := []string{k.dir, base, kind}
				defer func() {
					for _, d := range modes {
						os.Chmod(d, 0755)
					}
					os.RemoveAll(k.dir)
				}()
				block := func() {
					switch h {
					case "home":
						os.Chmod(k.dir, 0555)
					case "base":
						os.MkdirAll(base, 0755)
						os.Chmod(base, 0555)
					case "base is a file":
						os.RemoveAll(base)
						os.WriteFile(base, nil, 0644)
					case "kind is a file":
						os.MkdirAll(base, 0755)
						os.WriteFile(kind, nil, 0644)
					case "kind is unwritable":
						os.MkdirAll(kind, 0755)
						os.Chmod(kind, 0555)
					case "base gone":
						os.RemoveAll(base)
						os.Chmod(k.dir, 0555)
					}
				}
				if i >= len(how) {
					block()
				}
				kv, err := openKV(be, k.dir)
				if err != nil {
					c.Eval(what + "/not opened")
					return
				}
				defer kv.Close()
				kv.SetEventFunc(func(db.Event) { k.ev = append(k.ev, db.Event{}) })
				if i < len(how) {
					block()
				}
				for n := 0; n < 3; n++ {
					key := fmt.Sprintf("/groups/k%d", n)
					k.ev = nil
					err := kv.Put(key, []byte("v"))
					got, gerr := kv.Get(key)
					c.Eval(fmt.Sprintf("%s/%v", what, err == nil))
					if err == nil && (gerr != nil || string(got) != "v") {
						k.bad("unwritable-put", fmt.Sprintf("a store that cannot be written to (%s) accepts %q and then reads as %q, %v", h, key, got, gerr))
						return
					}
					if err != nil && (gerr == nil || len(k.ev) > 0) {
						k.bad("unwritable-put", fmt.Sprintf("a store that cannot be written to (%s) refuses %q (%v) and then reads as %q, %v; %d announcements", h, key, err, got, gerr, len(k.ev)))
						return
					}
				}
			})
		}
		// Listing that cannot read says so.
		if be == "filesystem" && os.Getuid() != 0 {
			c.Cases("unreadable-"+be, 1, func(i int, r *rand.Rand) {
				k := &kvRun{c: c, be: be, m: map[string]string{}}
				k.dir = filepath.Join(c.Scratch, fmt.Sprintf("kv%d", atomic.AddInt64(&worldSeq, 1)))
				os.MkdirAll(k.dir, 0755)
				defer func() { os.RemoveAll(k.dir) }()
				kv, _ := openKV(be, k.dir)
				k.kv = kv
				k.m["/entities/a"] = "x"
				k.m["/groups/b"] = "y"
				kv.SetEventFunc(func(db.Event) {})
				kv.Put("/entities/a", []byte("x"))
				kv.Put("/groups/b", []byte("y"))
				for _, d := range []string{"kv/entities", "kv/groups", "kv"} {
					p := filepath.Join(k.dir, d)
					os.Chmod(p, 0)
					for _, pat := range []string{"/entities/*", "/groups/*"} {
						if d == "kv/groups" && pat == "/entities/*" || d == "kv/entities" && pat == "/groups/*" {
							continue
						}
						got, err := kv.Keys(pat)
						c.Eval(fmt.Sprintf("unreadable/%s/%s/%v", d, pat, err == nil))
						if err == nil && len(got) == 0 {
							k.bad("unreadable-list", fmt.Sprintf("a directory that cannot be read (%s) lists as empty", d))
						}
					}
					if v, err := kv.Get("/entities/a"); d != "kv/groups" && (err == nil && string(v) != "x" || err == db.ErrNoValue) {
						k.bad("unreadable-get", "a record that cannot be read is reported as absent")
					}
					os.Chmod(p, 0755)
				}
				k.all()
			})
		}
	}
}

// judgeEvent wants exactly one matching announcement.
func (k *kvRun) judgeEvent(key string, isE, gone bool) {
	want := []db.EventType{db.EventGroupUpdate, db.EventGroupCreate}
	switch {
	case isE && gone:
		want = []db.EventType{db.EventEntityDestroy}
	case gone:
		want = []db.EventType{db.EventGroupDestroy}
	case isE:
		want = []db.EventType{db.EventEntityUpdate, db.EventEntityCreate}
	}
	if len(k.ev) != 1 {
		k.bad("event", fmt.Sprintf("a change of %q was announced %d times", key, len(k.ev)))
		return
	}
	if k.ev[0].PK != path.Base(key) || !contains(want, k.ev[0].Type) {
		k.bad("event", fmt.Sprintf("a change of %q was announced as %+v", key, k.ev[0]))
	}
	if k.evBad != "" {
		k.bad("event-visible", fmt.Sprintf("%q: %s", key, k.evBad))
	}
	k.c.Eval(fmt.Sprintf("%s/event/%v/%v", k.be, isE, gone))
}

var _ = bytes.Equal
