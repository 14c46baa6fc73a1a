//go:build go1.22

package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/netauth/netauth/internal/db"
)

// The database copy utility, run as a program.

type runRes struct {
	Code int
	Out  string
	Hung bool
}

// runBin runs one of the built programs.
func runBin(c *Ctx, dir string, env []string, stdin string, name string, args ...string) runRes {
	cx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cx, filepath.Join(c.Bin, name), args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "TMPDIR=" + os.Getenv("TMPDIR")}, env...)
	cmd.Stdin = strings.NewReader(stdin)
	out, err := cmd.CombinedOutput()
	r := runRes{Out: string(out)}
	if cx.Err() != nil {
		r.Hung = true
		r.Code = -1
		return r
	}
	if err != nil {
		r.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		}
	}
	return r
}

// kvAll reads a store through its interface.
func kvAll(be, dir string) (map[string]string, error) {
	kv, err := openKV(be, dir)
	if err != nil {
		return nil, err
	}
	defer kv.Close()
	return kvRead(kv)
}

func kvRead(kv db.KVStore) (map[string]string, error) {
	out := map[string]string{}
	ks, err := kv.Keys("/*/*")
	if err != nil {
		return nil, err
	}
	for _, k := range ks {
		v, err := kv.Get(k)
		if err != nil {
			return nil, fmt.Errorf("%q: %v", k, err)
		}
		out[k] = string(v)
	}
	return out, nil
}

func kvFill(be, dir string, m map[string]string, noise []string) error {
	kv, err := openKV(be, dir)
	if err != nil {
		return err
	}
	kv.SetEventFunc(func(db.Event) {})
	for _, k := range noise { // records that were there once
		if err := kv.Put(k, []byte("old")); err != nil {
			return err
		}
		if m[k] == "" {
			if err := kv.Del(k); err != nil {
				return err
			}
		}
	}
	for _, k := range sortedKeys(m) {
		if err := kv.Put(k, []byte(m[k])); err != nil {
			return err
		}
	}
	return kv.Close()
}

// treeBytes is every regular file below a directory.
func treeBytes(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

func copyKeys(r *rand.Rand, n int) []string {
	out := []string{}
	for _, j := range r.Perm(len(kvNames)) {
		nm := kvNames[j]
		if len(out) >= n {
			break
		}
		if len(nm) > 200 || strings.Contains(nm, "\x00") {
			continue
		}
		out = append(out, oneOf(r, []string{"/entities/", "/groups/"})+nm)
	}
	for len(out) < n {
		out = append(out, fmt.Sprintf("/%s/n%d", oneOf(r, []string{"entities", "groups"}), len(out)))
	}
	return out
}

func copyVals(r *rand.Rand, ks []string) map[string]string {
	m := map[string]string{}
	for _, k := range ks {
		m[k] = string(kvValue(r))
	}
	return m
}

func copyCase(c *Ctx, i int, r *rand.Rand) {
	dir := filepath.Join(c.Scratch, fmt.Sprintf("cp%d", atomic.AddInt64(&worldSeq, 1)))
	home := filepath.Join(dir, oneOf(r, []string{"home", "my home", "hömé", "h.d"}))
	os.MkdirAll(home, 0755)
	defer os.RemoveAll(dir)
	cfg := filepath.Join(dir, "config.toml")
	os.WriteFile(cfg, []byte(fmt.Sprintf("[core]\nhome = '%s'\n", home)), 0644)

	dirs := [][2]string{{"filesystem", "bitcask"}, {"bitcask", "filesystem"}}
	p := dirs[r.Intn(2)]
	src, dst := p[0], p[1]
	pool := copyKeys(r, 1+r.Intn(24))
	if r.Intn(12) == 0 {
		for j := 0; j < 300; j++ {
			pool = append(pool, fmt.Sprintf("/entities/m%d", j))
		}
	}
	pick := func() []string {
		out := []string{}
		d := 1 + r.Intn(3)
		for _, k := range pool {
			if r.Intn(3) < d {
				out = append(out, k)
			}
		}
		if r.Intn(15) == 0 {
			return nil
		}
		return out
	}
	S, T := copyVals(r, pick()), copyVals(r, pick())
	for k, v := range S { // some records agree already
		if r.Intn(5) == 0 {
			T[k] = v
		}
	}
	fill := func(be string, m map[string]string) bool {
		if err := kvFill(be, home, m, pick()); err != nil {
			c.Inconclusive("fill: " + err.Error())
			return false
		}
		return true
	}
	freshTarget := r.Intn(6) == 0
	if !fill(src, S) {
		return
	}
	if freshTarget {
		T = map[string]string{}
	} else if !fill(dst, T) {
		return
	}
	trunc := r.Intn(2) == 0
	confirm := r.Intn(4) > 0
	args := []string{"copy"}
	pos := []string{src, dst}
	kind := oneOf(r, []string{"plain", "plain", "plain", "plain", "plain", "same", "nosrc", "nodst", "args", "unreadable", "readonly", "locked"})
	switch kind {
	case "same":
		pos[1] = src
	case "nosrc":
		pos[0] = "nosuch"
	case "nodst":
		pos[1] = "nosuch"
	case "args":
		pos = oneOf(r, [][]string{{src}, {src, dst, dst}, {}})
	}
	flags := []string{}
	if trunc {
		flags = append(flags, oneOf(r, []string{"--truncate", "--truncate=true"}))
	} else if r.Intn(4) == 0 {
		flags = append(flags, "--truncate=false")
	}
	if confirm {
		flags = append(flags, oneOf(r, []string{"--no-dry-run", "--no-dry-run=true"}))
	} else if r.Intn(4) == 0 {
		flags = append(flags, "--no-dry-run=false")
	}
	r.Shuffle(len(flags), func(a, b int) { flags[a], flags[b] = flags[b], flags[a] })
	if r.Intn(2) == 0 {
		args = append(append(args, flags...), pos...)
	} else {
		args = append(append(args, pos...), flags...)
	}
	wd := dir
	if r.Intn(3) == 0 {
		wd = home
		args = append([]string{"--config", cfg}, args...)
	}

	hurt := ""
	var undo func()
	if kind == "unreadable" && src == "filesystem" && len(S) > 0 {
		hurt = oneOf(r, sortedKeys(S))
		f := filepath.Join(home, "kv", hurt+".dat")
		if os.Chmod(f, 0) == nil {
			undo = func() { os.Chmod(f, 0644) }
		} else {
			hurt = ""
		}
	}
	if kind == "readonly" && dst == "filesystem" && !freshTarget {
		for _, d := range []string{"entities", "groups"} {
			os.Chmod(filepath.Join(home, "kv", d), 0555)
		}
		undo = func() {
			for _, d := range []string{"entities", "groups"} {
				os.Chmod(filepath.Join(home, "kv", d), 0755)
			}
		}
		hurt = "target"
	}
	var held db.KVStore
	if kind == "locked" {
		held, _ = openKV("bitcask", home)
		hurt = "locked"
	}
	beforeFS := treeBytes(filepath.Join(home, "kv"))
	res := runBin(c, wd, nil, "", "nsutil", args...)
	afterFS := treeBytes(filepath.Join(home, "kv"))
	if undo != nil {
		undo()
	}
	if held != nil {
		held.Close()
	}
	sig := fmt.Sprintf("%s/%s/%s/trunc=%v/confirm=%v/fresh=%v/exit=%d/%d/%d", kind, src, dst, trunc, confirm, freshTarget, res.Code, min(len(S), 3), min(len(T), 3))
	bad := func(key, msg string) {
		c.Violate(key, fmt.Sprintf("nsutil %s: %s", strings.Join(args, " "), msg), map[string]interface{}{"case": i, "kind": kind, "source": sortedKeys(S), "target": sortedKeys(T), "exit": res.Code, "output": res.Out})
	}
	if res.Hung {
		bad("hung", "did not end")
		return
	}
	gotS, err := kvAll(src, home)
	if err != nil {
		bad("source-broken", "the source cannot be read afterwards: "+err.Error())
		return
	}
	if d := rawDiff(S, gotS); d != "" {
		bad("source-changed", "the source was changed: "+d)
	}
	if src == "filesystem" {
		for k, v := range beforeFS {
			if afterFS[k] != v && !strings.HasSuffix(k, ".mutable") && strings.Contains(k, "/") {
				bad("source-changed", "a file of the source was changed: "+k)
			}
		}
	}
	gotT, err := kvAll(dst, home)
	if err != nil {
		bad("target-broken", "the target cannot be read afterwards: "+err.Error())
		return
	}
	acts := confirm && !contains([]string{"same", "nosrc", "nodst", "args"}, kind) && hurt != "locked"
	want := map[string]string{}
	if !acts || !trunc {
		for k, v := range T {
			want[k] = v
		}
	}
	if acts {
		for k, v := range S {
			want[k] = v
		}
	}
	c.EvalN(len(S)+len(T)+2, sig)
	c.Count("runs", 1)
	c.Count(fmt.Sprintf("exit=%d", res.Code), 1)
	switch {
	case acts && hurt == "":
		if d := rawDiff(want, gotT); d != "" {
			bad("target", "the target is not what was asked for: "+d)
		}
		if res.Code != 0 {
			bad("exit", "a copy that can be made is reported to have failed")
		}
	case acts && hurt == "target":
		if res.Code == 0 && rawDiff(want, gotT) != "" {
			bad("exit", "reported success although the target could not be written: "+rawDiff(want, gotT))
		}
	case acts:
		// One record cannot be read: that must be said, the others
		// are still to be copied.
		if res.Code == 0 {
			bad("exit", fmt.Sprintf("reported success although the source record %q could not be read", hurt))
		}
		for k, v := range S {
			if k != hurt && gotT[k] != v && gotT[hurt] != "" {
				bad("target", fmt.Sprintf("%q was not copied", k))
			}
		}
		for k := range gotT {
			if _, ok := S[k]; !ok && gotT[k] != T[k] {
				bad("target", fmt.Sprintf("%q is neither the source's nor the target's", k))
			}
		}
	default:
		if d := rawDiff(T, gotT); d != "" {
			bad("changed-unasked", "the target was changed although nothing was to be done: "+d)
		}
		if kind == "plain" && !confirm && dst == "filesystem" {
			for k, v := range beforeFS {
				if afterFS[k] != v && strings.Contains(k, "/") {
					bad("changed-unasked", "a file of the target was changed: "+k)
				}
			}
		}
		if contains([]string{"same", "nosrc", "nodst"}, kind) && res.Code == 0 {
			bad("exit", "reported success although nothing can be copied like this")
		}
		if hurt == "locked" && confirm && res.Code == 0 {
			bad("exit", "reported success although the store is in use")
		}
	}
	if c.NeedSample() {
		c.Sample(map[string]interface{}{"args": args, "source": len(S), "target": len(T), "exit": res.Code, "target_after": len(gotT)})
	}
}

// copyServer copies the data of a server, which must then answer the
// same from the copy.
func copyServer(c *Ctx, i int, r *rand.Rand) {
	src, dst := "filesystem", "bitcask"
	if i%2 == 1 {
		src, dst = dst, src
	}
	w := MustWorld(c, WOpts{Backend: src})
	if w == nil {
		return
	}
	home := w.Dir
	defer os.RemoveAll(home)
	m := newModel()
	g := newGen(r, merge(wBase, wLife, wMemb, wAttr, wMeta, wSec, wCap), 6, 6)
	for s := 0; s < 80; s++ {
		o := g.Next(r, m, s)
		x := m.Predict(o)
		if res := Exec(ctxRoot(), w.Srv, o); res.OK() && x.Apply != nil {
			x.Apply(res)
		}
	}
	ents, grps := g.E, g.G
	see := func(w *World) (Flat, error) { return audit(w.Srv, w.Spy, ents, grps, nil) }
	a, err := see(w)
	if err != nil {
		c.Inconclusive("audit: " + err.Error())
		return
	}
	w.DB.Shutdown()
	os.WriteFile(filepath.Join(home, "config.toml"), []byte(fmt.Sprintf("[core]\nhome = '%s'\n", home)), 0644)
	// In a copy of the directory twice over: there and back again.
	if i%3 == 0 {
		res := runBin(c, home, nil, "", "nsutil", "copy", src, dst, "--no-dry-run")
		if res.Code != 0 {
			c.Violate("server-exit", "copying a server's data failed: "+trunc(res.Out, 400), i)
			return
		}
		src, dst = dst, src
		os.RemoveAll(filepath.Join(home, map[string]string{"filesystem": "kv", "bitcask": "bc"}[dst]))
	}
	res := runBin(c, home, nil, "", "nsutil", "copy", "--no-dry-run", "--truncate", src, dst)
	if res.Code != 0 {
		c.Violate("server-exit", "copying a server's data failed: "+trunc(res.Out, 400), i)
		return
	}
	nw, err := NewWorld(c, WOpts{Backend: dst, Dir: home})
	if err != nil {
		c.Violate("server-start", "the server does not start on the copy: "+err.Error(), i)
		return
	}
	defer nw.Close()
	b, err := see(nw)
	if err != nil {
		c.Violate("server-audit", err.Error(), i)
		return
	}
	if ds := diffFlat(a, b); len(ds) > 0 {
		c.Violate("server-answers", "the server answers differently from the copy: "+trunc(ds[0].String(), 400), map[string]interface{}{"case": i, "to": dst})
	}
	c.EvalN(len(a), fmt.Sprintf("server/%s/%d/%d", dst, len(m.E), len(m.G)))
}

// copyDamaged copies where one record cannot be read, or some cannot be
// written: the utility must not claim success, and what it could copy
// is there.
func copyDamaged(c *Ctx, i int, r *rand.Rand) {
	if os.Getuid() == 0 {
		return // nothing is out of reach
	}
	dir := filepath.Join(c.Scratch, fmt.Sprintf("cp%d", atomic.AddInt64(&worldSeq, 1)))
	home := filepath.Join(dir, "home")
	os.MkdirAll(home, 0755)
	files := []string{}
	defer func() {
		for _, f := range files {
			os.Chmod(f, 0755)
		}
		os.RemoveAll(dir)
	}()
	os.WriteFile(filepath.Join(dir, "config.toml"), []byte(fmt.Sprintf("[core]\nhome = '%s'\n", home)), 0644)
	recs := copyVals(r, copyKeys(r, 4+r.Intn(20)))
	recs["/entities/one"], recs["/groups/one"] = "1", "1"
	for k := range recs {
		if recs[k] == "" {
			delete(recs, k)
		}
	}
	old := map[string]string{"/entities/before": "0", "/groups/before": "0"}
	kind := []string{"source", "target"}[i%2]
	src, dst := "filesystem", "bitcask"
	if kind == "target" {
		src, dst = dst, src
	}
	if err := kvFill(src, home, recs, nil); err != nil {
		c.Inconclusive(err.Error())
		return
	}
	if err := kvFill(dst, home, old, nil); err != nil {
		c.Inconclusive(err.Error())
		return
	}
	// What is out of reach lies where records of the store are kept.
	all := []string{}
	filepath.Walk(filepath.Join(home, "kv"), func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() && kind == "source" {
			all = append(all, p)
		}
		if err == nil && fi.IsDir() && kind == "target" {
			if es, _ := os.ReadDir(p); len(es) > 0 && !es[0].IsDir() {
				all = append(all, p)
			}
		}
		return nil
	})
	if len(all) == 0 {
		return
	}
	r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
	files = all[:1]
	mode := os.FileMode(0)
	if kind == "target" {
		mode = 0555
	}
	if err := os.Chmod(files[0], mode); err != nil {
		c.Inconclusive(err.Error())
		return
	}
	res := runBin(c, dir, nil, "", "nsutil", "--config", filepath.Join(dir, "config.toml"), "copy", src, dst, "--no-dry-run")
	os.Chmod(files[0], 0755)
	what := fmt.Sprintf("copying %s to %s with %s of mode %v", src, dst, strings.TrimPrefix(files[0], dir), mode)
	got, err := kvAll(dst, home)
	if err != nil {
		c.Violate("damaged-read:"+kind, fmt.Sprintf("%s: %v", what, err), i)
		return
	}
	missing, there := 0, 0
	for k, v := range recs {
		switch g, ok := got[k]; {
		case ok && g == v:
			there++
		case ok && g != old[k]:
			c.Violate("damaged-value:"+kind, fmt.Sprintf("%s: record %q differs", what, k), i)
			return
		default:
			missing++
		}
	}
	c.Eval(fmt.Sprintf("damaged/%s/%v/%v/%d", kind, missing > 0, there > 0, res.Code))
	c.Count("records out of reach while copying", missing)
	if missing > 0 && res.Code == 0 {
		c.Violate("damaged-exit:"+kind, fmt.Sprintf("%s: %d records were not copied, and the exit status is 0: %s", what, missing, trunc(res.Out, 300)), i)
		return
	}
	if kind == "source" && missing > 1 {
		c.Violate("damaged-rest:"+kind, fmt.Sprintf("%s: %d records were not copied", what, missing), i)
	}
}

func init() {
	register(&Check{
		ID: "P24", MinEvals: 1000,
		Rule:   "a situation is (kind of run, source and target backend, flags, fresh target, exit status, size classes) of one run of the utility on random contents, or the size of a server whose data was copied",
		Assume: []string{"the stores are not in use by a server while they are copied, as the utility's documentation demands, except in the runs that check that a bitcask store in use is refused", "the names of the records fit both backends"},
		Run: func(c *Ctx) {
			c.Cases("copy", c.N(1200, 15000), func(i int, r *rand.Rand) { copyCase(c, i, r) })
			c.Cases("damaged", c.N(40, 1500), func(i int, r *rand.Rand) { copyDamaged(c, i, r) })
			c.Cases("server", c.N(16, 400), func(i int, r *rand.Rand) { copyServer(c, i, r) })
		},
	})
}

var _ = path.Join
var _ = sort.Strings
