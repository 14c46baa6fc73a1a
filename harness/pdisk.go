//go:build go1.22

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"syscall"

	"google.golang.org/grpc/codes"

	"github.com/netauth/netauth/internal/db"
)

// Requests while the files themselves fail: records and directories
// that cannot be read or written, records that are damaged on disk, and
// a file system that has no room.

// diskHurt is one way of hurting the files; heal undoes it.
type diskHurt struct {
	name string
	heal func()
	// dead says that the store may refuse changes until it is reopened.
	dead bool
}

// bitcaskValue finds the last stored value of a key in the data files.
func bitcaskValue(dir, key string) (file string, off, n int64) {
	fs, _ := filepath.Glob(filepath.Join(dir, "bc", "*.data"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for p := 0; p+12 <= len(b); {
			ks := int(binary.BigEndian.Uint32(b[p:]))
			vs := int(binary.BigEndian.Uint64(b[p+4:]))
			if p+16+ks+vs > len(b) {
				break
			}
			if string(b[p+12:p+12+ks]) == key {
				file, off, n = f, int64(p+12+ks), int64(vs)
			}
			p += 16 + ks + vs
		}
	}
	return
}

func hurtDisk(r *rand.Rand, w *World, keys []string) *diskHurt {
	h := &diskHurt{heal: func() {}}
	key := oneOf(r, keys)
	if w.Backend == "bitcask" {
		f, off, n := bitcaskValue(w.Dir, key)
		if f == "" || n == 0 {
			return nil
		}
		off += r.Int63n(n)
		file, err := os.OpenFile(f, os.O_RDWR, 0)
		if err != nil {
			return nil
		}
		old := make([]byte, 1)
		file.ReadAt(old, off)
		file.WriteAt([]byte{old[0] ^ byte(1<<uint(r.Intn(8)))}, off)
		h.name = "flipped bit"
		h.heal = func() { file.WriteAt(old, off); file.Close() }
		return h
	}
	kv := filepath.Join(w.Dir, "kv")
	p := filepath.Join(kv, key)
	if _, err := os.Lstat(p); err != nil {
		return nil
	}
	dir := filepath.Dir(p)
	chmod := func(p string, m os.FileMode) {
		fi, err := os.Stat(p)
		if err != nil {
			return
		}
		os.Chmod(p, m)
		h.heal = func() { os.Chmod(p, fi.Mode().Perm()) }
	}
	switch r.Intn(10) {
	case 6:
		h.name = "unlistable directory"
		chmod(dir, 0300)
	case 7:
		h.name = "unlistable store"
		chmod(kv, 0300)
	case 8:
		h.name = "unsearchable directory"
		chmod(dir, 0600)
	case 9:
		h.name = "unsearchable store"
		chmod(kv, 0600)
	case 0:
		h.name = "unreadable record"
		chmod(p, 0)
	case 1:
		h.name = "unusable directory"
		chmod(dir, 0)
	case 2:
		h.name = "unwritable directory"
		chmod(dir, 0500)
	case 3:
		h.name = "unwritable store"
		chmod(kv, 0500)
	case 4:
		h.name = "directory in place of a record"
		os.Rename(p, filepath.Join(kv, ".aside"))
		os.Mkdir(p, 0755)
		os.WriteFile(filepath.Join(p, "x"), nil, 0644)
		h.heal = func() {
			os.Remove(filepath.Join(p, "x"))
			os.Remove(p)
			os.Rename(filepath.Join(kv, ".aside"), p)
		}
	case 5:
		h.name = "garbled record"
		old, _ := os.ReadFile(p)
		bad := append(append([]byte{}, old...), 0xff, 0xff, 0xff)
		if r.Intn(2) == 0 && len(old) > 3 {
			bad = bytes.Repeat([]byte{0xff}, len(old))
		}
		os.WriteFile(p, bad, 0640)
		h.heal = func() {
			if b, err := os.ReadFile(p); err == nil && bytes.Equal(b, bad) {
				os.WriteFile(p, old, 0640)
			}
		}
	}
	return h
}

// fullDisk leaves no room beyond a limit for the whole process.
func fullDisk(r *rand.Rand, w *World) *diskHurt {
	var old syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old) != nil {
		return nil
	}
	h := &diskHurt{name: "no room", dead: w.Backend == "bitcask"}
	lim := uint64(r.Intn(80))
	if w.Backend == "bitcask" {
		fs, _ := filepath.Glob(filepath.Join(w.Dir, "bc", "*.data"))
		sort.Strings(fs)
		if len(fs) == 0 {
			return nil
		}
		fi, err := os.Stat(fs[len(fs)-1])
		if err != nil {
			return nil
		}
		lim += uint64(fi.Size())
	}
	if syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: old.Max}) != nil {
		return nil
	}
	h.heal = func() { syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old) }
	return h
}

// hurtStore asks a store whose files are hurt about keys that it holds.
func hurtStore(r *rand.Rand, w *World, held map[string]string) string {
	s := w.Spy.under
	for _, k := range sortedKeys(held) {
		if v, err := s.Get(k); err == db.ErrNoValue || err == nil && w.Backend == "bitcask" && string(v) != held[k] {
			return fmt.Sprintf("reading %q gives %q, %v", k, trunc(string(v), 60), err)
		}
	}
	ks, err := s.Keys("/*/*")
	if err == nil && !sameStrings(ks, sortedKeys(held)) {
		return fmt.Sprintf("listing the keys gives %q instead of %q", ks, sortedKeys(held))
	}
	return ""
}

func diskCase(c *Ctx, be string, full bool, i int, r *rand.Rand) {
	w := MustWorld(c, WOpts{Backend: be})
	if w == nil {
		return
	}
	defer func() { w.Close() }()
	m := newModel()
	g := newGen(r, wFault, 2+r.Intn(3), 2+r.Intn(4))
	g.Sec = []string{"one", "two", "three"}
	var trace []interface{}
	kind := "disk"
	if full {
		kind = "full"
	}
	bad := func(key, msg string, o Op) {
		t := trace
		if len(t) > 60 {
			t = t[len(t)-60:]
		}
		c.Violate(key+":"+o.K, be+": "+msg, map[string]interface{}{"backend": be, "group": kind, "case": i, "last": t})
	}
	names, gnames := g.E, g.G
	look := func(o Op, when string) bool {
		auth := map[string]string{}
		for n, e := range m.E {
			auth[n] = e.Secret
		}
		want := m.Flatten()
		got, err := audit(w.Srv, w.Spy, union(sortedKeys(m.E), names), union(sortedKeys(m.G), gnames), auth)
		if err != nil {
			bad("audit", when+": "+err.Error(), o)
			return false
		}
		if ds := diffFlat(want, got); len(ds) > 0 {
			bad("state", when+": "+trunc(ds[0].String(), 500), o)
			return false
		}
		c.EvalN(len(want), "")
		return true
	}
	// restart starts the server while the records cannot be listed: it
	// must not start as if there were none.
	restart := func() bool {
		kv := filepath.Join(w.Dir, "kv")
		p, mode := kv, oneOf(r, []os.FileMode{0, 0200, 0300, 0600, 0400})
		if d := oneOf(r, []string{"", "entities", "groups"}); d != "" {
			p, mode = filepath.Join(kv, d), oneOf(r, []os.FileMode{0, 0200, 0300})
		}
		fi, err := os.Stat(p)
		if err != nil {
			return true
		}
		o := Op{K: "!restart"}
		os.Chmod(p, mode)
		nw, err := w.Restart(true)
		os.Chmod(p, fi.Mode().Perm())
		c.Count(fmt.Sprintf("starts without access, started=%v", err == nil), 1)
		c.Eval(fmt.Sprintf("start/%v/%s/%v", err == nil, filepath.Base(p), mode))
		if err == nil {
			w = nw
			return look(o, fmt.Sprintf("after a start with mode %v on %s", mode, filepath.Base(p)))
		}
		if nw, err = w.Restart(true); err != nil {
			bad("restart", err.Error(), o)
			return false
		}
		w = nw
		return look(o, "after a start that failed and one that did not")
	}
	setup := 12 + r.Intn(12)
	for s := 0; s < setup+30; s++ {
		o := g.Next(r, m, s)
		if o.K[0] == '!' {
			continue
		}
		if o.N == -1 && r.Intn(2) == 0 {
			// Numbers are not what this is about.
			o.N = int32(1000 + s)
		}
		if o.K == "AuthEntity" || o.K == "AuthGetToken" {
			if e := m.E[o.E]; e != nil && r.Intn(4) > 0 {
				o.S = e.Secret
			}
		}
		if s > setup && r.Intn(10) == 0 {
			o = Op{K: oneOf(r, []string{"EntitySearch", "GroupSearch"}), Key: oneOf(r, []string{"*", "e*", "g*"})}
		}
		cx := parseCred(o.Cred).ctx()
		x := m.PredictAuth(o, false)
		ask := !mutating(o)
		var base Res
		if ask {
			base = Exec(cx, w.Srv, o)
		}
		before, err := w.Spy.Dump()
		if err != nil {
			bad("dump", err.Error(), o)
			return
		}
		var h *diskHurt
		if s >= setup && len(before) > 0 {
			keys := sortedKeys(before)
			// Mostly what the request is about.
			if a := addressed(o); len(a) > 0 && r.Intn(3) > 0 {
				for _, k := range a {
					if _, ok := before[k]; ok {
						keys = []string{k}
					}
				}
			}
			if full {
				h = fullDisk(r, w)
			} else {
				h = hurtDisk(r, w, keys)
			}
		}
		if h != nil && !full && r.Intn(4) == 0 {
			// The store itself says so as well.
			if msg := hurtStore(r, w, before); msg != "" {
				h.heal()
				bad("store:"+h.name, msg, Op{K: h.name})
				return
			}
			c.Count("stores asked while hurt", 1)
		}
		res := Exec(cx, w.Srv, o)
		hurt := ""
		if h != nil {
			h.heal()
			hurt = h.name
			c.Count("hurt:"+hurt, 1)
			c.Eval(fmt.Sprintf("%s/%s/%s/%s", be, hurt, o.K, res.Code))
		}
		trace = append(trace, map[string]interface{}{"op": o, "hurt": hurt, "code": res.Code.String()})
		after, err := w.Spy.Dump()
		if err != nil {
			bad("dump", fmt.Sprintf("after %s: %v", hurt, err), o)
			return
		}
		okBefore := x.Want == wantOK && !ask || ask && base.OK()
		switch {
		case h == nil && !res.OK() && x.Want == wantOK:
			bad("refused", fmt.Sprintf("refused with %s although storage works", res.Code), o)
			return
		case res.OK() && x.Want == wantFail:
			bad("accepted", fmt.Sprintf("accepted (%s) although %s", hurt, x.Why), o)
			return
		case res.OK() && ask && base.OK() && answerKey(res) != answerKey(base):
			bad("answer", fmt.Sprintf("with %s the answer is %s, without %s", hurt, trunc(answerKey(res), 300), trunc(answerKey(base), 300)), o)
			return
		case !res.OK() && okBefore && (res.Code == codes.NotFound || res.Code == codes.AlreadyExists):
			bad("misreported", fmt.Sprintf("with %s the answer is %s", hurt, res.Code), o)
			return
		}
		if (!res.OK() || ask) && rawDiff(before, after) != "" {
			bad("changed", fmt.Sprintf("with %s and the answer %s stored data changed: %s", hurt, res.Code, rawDiff(before, after)), o)
			return
		}
		if res.OK() && !ask && x.Apply != nil {
			maxE, maxG := m.maxENum(), m.maxGNum()
			x.Apply(res)
			if _, msg := learnNumber(w.Srv, m, o, maxE, maxG); msg != "" {
				bad("number", "with "+hurt+": "+msg, o)
				return
			}
		}
		if h != nil && h.dead && !res.OK() && okBefore {
			// What failed is gone for good once the server starts again.
			if !look(o, "after "+hurt) {
				return
			}
			nw, err := w.Restart(r.Intn(2) == 0)
			if err != nil {
				bad("restart", "after "+hurt+": "+err.Error(), o)
				return
			}
			w = nw
			if !look(o, "started again after "+hurt) {
				return
			}
			c.Count("restarts_after_no_room", 1)
			continue
		}
		if h != nil && !look(o, "after "+hurt) {
			return
		}
	}
	if be == "filesystem" && !full && !restart() {
		return
	}
	c.Count("disk_histories:"+be, 1)
}

func diskCases(c *Ctx) {
	if os.Getuid() == 0 {
		c.Inconclusive("file permissions do not bind the superuser")
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	for _, be := range []string{"filesystem", "bitcask"} {
		be := be
		c.Cases("disk-"+be, c.N(60, 1500), func(i int, r *rand.Rand) { diskCase(c, be, false, i, r) })
		c.CasesP("full-"+be, c.N(24, 500), 1, func(i int, r *rand.Rand) { diskCase(c, be, true, i, r) })
	}
}
