//go:build go1.22

package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"unicode/utf8"
)

// Names that reach for something else; V is an existing entity, W an
// existing group.
func hostileNames(v, w string) []string {
	return []string{
		"../groups/" + w, "../entities/" + v, "../groups/" + v, "../entities/" + w, "./" + v, "./" + w, "/" + v, "/" + w, v + "/", w + "/", v + "/.", w + "/.", "/", "//", ".", "..", "", "../..", "../../..", "...", "x/../" + v, "x/../" + w,
		"../../kv/entities/" + v, "../../kv/groups/" + w, "../../canary", "../../../canary", "../../../../canary", "../../../canary-dir/file", "/entities/" + v, "/groups/" + w, "entities/" + v, "groups/" + w, "entities", "groups",
		"../entities", "../groups", "../../bc/config.json", "../../bc/000000000.data", "../lock", "../index", "lock", "config.json", "000000000.data",
		v + "\x00", "\x00" + v, "\x00", v + "\x00/../" + w, v + "\n", " " + v, v + " ", "\t" + v, strings.ToUpper(v), strings.ToUpper(w), "." + v, v + ".", v + "..", ".." + v,
		"*", "?", "[", "[" + v[:1] + "]" + v[1:], v[:1] + "*", w[:1] + "*", "\\" + v, "..\\groups\\" + w, "%2e%2e%2fgroups%2f" + w, "%2F", v + "%00", v + "/x", w + "/x", v + "/../" + v, "~", "~root", "$HOME", "`id`", "|id", ";", "&&", "-rf", "--",
		"\xff", v + "\xff", "\xc0\xae\xc0\xae/groups/" + w, "\xe2\x80\xae" + v, "e\u0301", "\u00e9", "\u2024\u2024", "\uff0e\uff0e/groups/" + w, "..\u2215groups\u2215" + w,
		strings.Repeat("n", 200), strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("n", 1100), strings.Repeat("n", 5000), strings.Repeat("../", 30) + "etc/vmon-canary", strings.Repeat("a/", 200) + v,
		".tmp", ".tmp123456", v + ".tmp", "tmp", ".mutable", "INCLUDE:" + w, "EXCLUDE", "null", "0", "-1", "ID:" + v, "meta.Groups:" + w,
	}
}

func init() {
	register(&Check{
		ID: "P17", MinEvals: 10000,
		Rule: "a situation is (backend, request, what sort of name in it, known or not, answer)",
		Assume: []string{"names that are invalid UTF-8, over-long or contain NUL may be refused or stored, whichever the backend manages, but exactly",
			"the code under test runs as an unprivileged user inside a scratch directory with canaries on each level; what it cannot reach there is judged by the keys and files it asks for"},
		Run: runP17,
	})
}

func nameSort(n string) string {
	switch {
	case n == "" || n == "." || n == "..":
		return fmt.Sprintf("%q", n)
	case strings.Contains(n, ".."+"/"):
		return "climbing"
	case strings.Contains(n, "/"):
		return "separator"
	case !utf8.ValidString(n):
		return "not-utf8"
	}
	return nameClass(n)
}

// canaryTree hashes everything under dir except what is the store's.
func canaryTree(dir, home string) string {
	out := []string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if p == filepath.Join(home, "kv") || p == filepath.Join(home, "bc") {
			return filepath.SkipDir
		}
		s := fmt.Sprintf("%s %v %o", p, fi.IsDir(), fi.Mode().Perm())
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			s += string(b)
		}
		out = append(out, s)
		return nil
	})
	return strings.Join(out, "\n")
}

func runP17(c *Ctx) {
	all := merge(GenW{"EntityCreate": 12, "GroupCreate": 12, "EntityDestroy": 7, "GroupDestroy": 7, "AuthChangeSecret": 5, "EntityLock": 3, "EntityUnlock": 3, "AuthEntity": 3, "AuthGetToken": 2,
		"EntityUpdate": 6, "GroupUpdate": 6, "GroupAddMember": 8, "GroupDelMember": 4, "GroupUpdateRules": 8, "SystemCapabilities": 6, "EntityInfo": 5, "GroupInfo": 5, "EntityGroups": 3, "GroupMembers": 3, "!restart": 1, "!abrupt": 1}, wAttr)
	for _, be := range []string{"memory", "filesystem", "bitcask"} {
		be := be
		n := c.N(180, 5000)
		if be == "memory" {
			n /= 3
		}
		name := "names-" + be
		c.Cases(name, n, func(i int, r *rand.Rand) {
			root := filepath.Join(c.Scratch, fmt.Sprintf("n%d", atomic.AddInt64(&worldSeq, 1)))
			home := filepath.Join(root, "l1", "l2", "l3", "l4", "l5", "home")
			os.MkdirAll(home, 0755)
			defer func() { os.RemoveAll(root) }()
			for d := home; len(d) >= len(root); d = filepath.Dir(d) {
				os.WriteFile(filepath.Join(d, "canary"), []byte("here "+d), 0644)
				os.MkdirAll(filepath.Join(d, "canary-dir"), 0755)
				os.WriteFile(filepath.Join(d, "canary-dir", "file"), []byte("x"), 0644)
			}
			canary := canaryTree(root, home)
			v, w := oneOf(r, []string{"victim", "ab", "root"}), oneOf(r, []string{"wheel", "grp", "victim"})
			hs := hostileNames(v, w)
			g := newGen(r, all, 0, 0)
			g.Exist = 55
			g.E, g.G = []string{v}, []string{w}
			for k := 0; k < 6; k++ {
				g.E = append(g.E, oneOf(r, hs))
				g.G = append(g.G, oneOf(r, hs))
			}
			if r.Intn(2) == 0 {
				// The same name as entity and as group.
				g.G = append(g.G, g.E...)
			}
			known := union(g.E, g.G)
			cfg := EngineCfg{Name: name, Len: 45, World: WOpts{Backend: be, Dir: home}, Names: known,
				Setup: []Op{{K: "EntityCreate", E: v, N: -1, S: "victims secret"}, {K: "GroupCreate", G: w, N: -1, Val: "shown"}, {K: "GroupAddMember", E: v, G: w}, {K: "EntityKeys", E: v, Act: actADD, Key: "SSH", Val: "AAAA"}},
				Maybe: func(m *Model, o Op) bool {
					odd := func(n string, pre string) bool {
						return !utf8.ValidString(n) || !representable(be, pre+n)
					}
					// What exists has been stored before, but a record
					// with such a string in it may still be refused.
					return odd(o.E, "/entities/") || odd(o.G, "/groups/") || !utf8.ValidString(o.T) || !utf8.ValidString(strings.Join(o.Gs, "")) || !utf8.ValidString(o.M["ManagedBy"]) || odd(o.T, "/groups/") || odd(o.T, "/entities/")
				},
				Gen: func(r *rand.Rand, m *Model, i int) Op {
					o := g.Next(r, m, i)
					if strings.HasPrefix(o.K, "Group") && o.Val != "" && o.K == "GroupCreate" && r.Intn(3) == 0 {
						o.T = oneOf(r, known)
					}
					if o.K == "GroupUpdate" && r.Intn(2) == 0 {
						o.M["ManagedBy"] = oneOf(r, known)
					}
					if !strings.HasPrefix(o.K, "!") && r.Intn(3) == 0 {
						o.Cred = credStr(oneOf(r, g.E))
						if r.Intn(2) == 0 && needCap[o.K] != 0 {
							o.Cred = credStr(oneOf(r, known), needCap[o.K])
						}
					}
					return o
				},
				Extra: func(w *World, m *Model, o Op, res Res) []Diff {
					ds := searchGone(w, m, o, res)
					if be != "memory" {
						d := w.Dir
						up := root
						if d == home {
							if now := canaryTree(up, home); now != canary {
								ds = append(ds, Diff{"N/outside", "nothing outside the data directory changes", "it did"})
							}
						}
						want := map[string]string{"filesystem": "kv", "bitcask": "bc"}[be]
						es, _ := os.ReadDir(d)
						for _, e := range es {
							if n := e.Name(); n != want && n != "canary" && n != "canary-dir" {
								ds = append(ds, Diff{"N/outside", "only " + want + " in the data directory", n})
							}
						}
						if be == "filesystem" {
							es, _ := os.ReadDir(filepath.Join(d, "kv"))
							for _, e := range es {
								if n := e.Name(); n != "entities" && n != "groups" {
									ds = append(ds, Diff{"N/outside", "only entities and groups in the store", n})
								}
							}
						}
					}
					for _, k := range w.Spy.Log() {
						if strings.HasPrefix(o.K, "!") {
							break
						}
						if (k.Op == "put" || k.Op == "del") && k.Key != "/entities/"+o.E && k.Key != "/groups/"+o.G && !(o.K == "SystemCapabilities" && (k.Key == "/entities/"+o.T && o.Dir || k.Key == "/groups/"+o.T && !o.Dir)) {
							ds = append(ds, Diff{"N/key", "only the record named is written", fmt.Sprintf("%s %q", k.Op, k.Key)})
						}
						if k.Op != "keys" && strings.Count(k.Key, "/") != 2 {
							ds = append(ds, Diff{"N/key", "keys of the form /kind/name", fmt.Sprintf("%s %q", k.Op, k.Key)})
						}
					}
					return ds
				},
				NonTrivial: func(m *Model, o Op, r Res) string {
					return fmt.Sprintf("%s/%s/%s/%s/%s/%v/%v/%s", be, o.K, nameSort(o.E), nameSort(o.G), nameSort(o.T), m.E[o.E] != nil, m.G[o.G] != nil, r.Code)
				}}
			cfg.runCase(c, i, r)
		})
	}
}
