//go:build go1.22

package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"google.golang.org/grpc/metadata"
	"google.golang.org/protobuf/reflect/protoreflect"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	"github.com/netauth/netauth/internal/tree"
	types "github.com/netauth/protocol"
)

// What is written to logs and terminals holds no secret, no stored form
// of one, no token and no key.

// leakSet recognises pieces of what must not be seen.
type leakSet struct {
	win   map[int]map[string]string // length of the piece, piece, what it is
	known map[string]bool
	n     int
}

func newLeakSet() *leakSet {
	return &leakSet{win: map[int]map[string]string{}, known: map[string]bool{}}
}

func (l *leakSet) pieces(s string, n int, what string) {
	if l.win[n] == nil {
		l.win[n] = map[string]string{}
	}
	for i := 0; i+n <= len(s); i++ {
		l.win[n][s[i:i+n]] = what
	}
}

// add makes a value known; values are random, so that a piece of ten
// characters cannot turn up by chance.
func (l *leakSet) add(s, what string) {
	if len(s) < 12 || l.known[s] {
		return
	}
	l.known[s] = true
	l.n++
	l.pieces(s, 10, "part of "+what)
	if len(s) > 200 {
		return
	}
	h := hex.EncodeToString([]byte(s))
	l.pieces(h, 20, what+" in hexadecimal")
	l.pieces(strings.ToUpper(h), 20, what+" in hexadecimal")
	for k := 0; k < 3; k++ {
		if e := base64.StdEncoding.EncodeToString(append(make([]byte, k), s...)); len(e) > 24 {
			l.pieces(e[4:len(e)-4], 16, what+" in base64")
		}
	}
	d := ""
	for _, b := range []byte(s) {
		d += fmt.Sprintf(" %d", b)
	}
	l.pieces(d, 34, what+" as a list of bytes")
	l.pieces(strings.ReplaceAll(d, " ", ", "), 44, what+" as a list of bytes")
	x := sha256.Sum256([]byte(s))
	l.pieces(hex.EncodeToString(x[:]), 20, "a plain digest of "+what)
	l.pieces(base64.StdEncoding.EncodeToString(x[:])[:40], 16, "a plain digest of "+what)
}

// token makes one known by its signature.
func (l *leakSet) token(t string) {
	p := strings.Split(t, ".")
	if len(p) != 3 || len(p[2]) < 40 || l.known[t] {
		return
	}
	l.known[t] = true
	l.n++
	l.pieces(p[2], 16, "part of a token")
}

// find looks for anything known.
func (l *leakSet) find(text string) (what, line string) {
	for n, m := range l.win {
		for i := 0; i+n <= len(text); i++ {
			if w, ok := m[text[i:i+n]]; ok {
				a, b := strings.LastIndexByte(text[:i], '\n')+1, strings.IndexByte(text[i:], '\n')
				if b < 0 {
					b = len(text) - i
				}
				return w, trunc(text[a:i+b], 400)
			}
		}
	}
	return "", ""
}

// records learns what is stored.
func (l *leakSet) records(raw map[string]string) {
	for k, v := range raw {
		e := &types.Entity{}
		if strings.HasPrefix(k, "/entities/") && proto.Unmarshal([]byte(v), e) == nil {
			h := e.GetSecret()
			if strings.HasPrefix(h, "$2") && len(h) > 20 {
				h = h[7:]
			}
			l.add(h, "a stored secret")
		}
	}
}

type logSink struct {
	mu    sync.Mutex
	b     bytes.Buffer
	total int
	kinds map[string]int
}

func (s *logSink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.total += len(p)
	return s.b.Write(p)
}

func (s *logSink) take() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := s.b.String()
	s.b.Reset()
	return t
}

// secretsIn replaces secrets and tokens anywhere in a message.
func secretsIn(m protoreflect.Message, mk func() string, tok func() string) {
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsList():
			if f.Kind() == protoreflect.MessageKind {
				for i := 0; i < v.List().Len(); i++ {
					secretsIn(v.List().Get(i).Message(), mk, tok)
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			secretsIn(v.Message(), mk, tok)
		case strings.EqualFold(string(f.Name()), "secret"):
			m.Set(f, protoreflect.ValueOfString(mk()))
		case strings.EqualFold(string(f.Name()), "token"):
			m.Set(f, protoreflect.ValueOfString(tok()))
		}
		return true
	})
}

// logLines counts the different places messages come from.
func logLines(c *Ctx, text string) {
	for _, ln := range strings.Split(text, "\n") {
		i := strings.Index(ln, "[")
		if i < 0 {
			continue
		}
		if j := strings.Index(ln[i:], ": "); j > 0 {
			msg := ln[i+j+2:]
			if k := strings.Index(msg, ": "); k > 0 {
				msg = msg[:k]
			}
			c.Eval("line/" + trunc(ln[i:i+j+2]+msg, 90))
		}
	}
}

func logMaterial(r *rand.Rand, l *leakSet) string {
	s := randAlnum(r, 16+r.Intn(24))
	switch r.Intn(10) {
	case 0:
		s = strings.Repeat(s, 6)
	case 1:
		s = s[:14] + oneOf(r, []string{" ", "\n", "\"", "\x00", "ü", "%s", ":"}) + s[14:]
	case 2:
		s = s + oneOf(r, []string{"\xff", "\n", "%d"})
	}
	l.add(s, "a secret")
	return s
}

var wLog = GenW{"EntityCreate": 10, "EntityDestroy": 2, "GroupCreate": 4, "AuthChangeSecret": 16, "AuthEntity": 10, "AuthGetToken": 8, "EntityUpdate": 5, "EntityUM": 3, "EntityKeys": 3, "EntityKVAdd": 3, "EntityKVDel": 2, "EntityKVReplace": 2, "EntityKVGet": 2,
	"GroupAddMember": 6, "GroupDelMember": 3, "GroupUpdateRules": 4, "EntityInfo": 3, "EntityGroups": 2, "GroupMembers": 3, "GroupInfo": 2, "EntityLock": 3, "EntityUnlock": 4, "SystemCapabilities": 4, "GroupUpdate": 2, "GroupUM": 2, "GroupKVAdd": 1, "GroupKVDel": 1, "GroupKVReplace": 1, "GroupKVGet": 1, "GroupDestroy": 1}

// logOp makes a request with known secrets in it.
func logOp(r *rand.Rand, g *Gen, m *Model, k int, l *leakSet) Op {
	o := g.Next(r, m, k)
	if r.Intn(14) == 0 {
		o = oneOf(r, []Op{{K: "EntitySearch", Key: "ID:*"}, {K: "GroupSearch", Key: "Name:*"}, {K: "EntitySearch", Key: "((("}, {K: "SystemStatus"}, {K: "SystemPing"}, {K: "AuthValidateToken"}})
	}
	switch o.K {
	case "AuthValidateToken":
		o.S = oneOf(r, []string{rootToken(), rootToken() + "x", logMaterial(r, l)})
		l.token(o.S)
	case "EntityCreate":
		o.S = logMaterial(r, l)
	case "AuthChangeSecret", "AuthEntity", "AuthGetToken":
		o.S, o.S2 = logMaterial(r, l), logMaterial(r, l)
		if e := m.E[o.E]; e != nil && r.Intn(3) > 0 {
			o.S = e.Secret
			if r.Intn(5) == 0 {
				// Nearly right.
				o.S += oneOf(r, []string{"x", " ", "\n"})
			}
		}
		if o.K == "AuthChangeSecret" && r.Intn(2) == 0 {
			o.Cred = credStr(o.E)
		}
	}
	if o.Cred == "" && r.Intn(3) == 0 {
		o.Cred = anyCred(r, m, o)
	}
	return o
}

// note follows what a request did, as far as is needed to make more.
func logNote(m *Model, o Op, x Res) {
	switch {
	case !x.OK():
	case o.K == "EntityCreate" && m.E[o.E] == nil:
		m.E[o.E] = newMEnt(0, o.S)
	case o.K == "AuthChangeSecret" && m.E[o.E] != nil:
		m.E[o.E].Secret = o.S2
	case o.K == "EntityDestroy":
		delete(m.E, o.E)
	case o.K == "GroupCreate" && m.G[o.G] == nil:
		m.G[o.G] = &MGrp{}
	case o.K == "GroupDestroy":
		delete(m.G, o.G)
	}
}

func logInside(c *Ctx, sink *logSink, lg hclog.Logger, ts token.Service, i int, r *rand.Rand) {
	l := newLeakSet()
	sink.take()
	wo := WOpts{Backend: []string{"memory", "filesystem", "bitcask"}[i%3], Crypto: []string{"bcrypt", "nocrypto"}[i/3%2], Log: lg, Tok: ts}
	w := MustWorld(c, wo)
	if w == nil {
		return
	}
	defer func() { w.Close() }()
	g := newGen(r, wLog, 3, 3)
	m := newModel()
	log := []string{}
	ctx := func(cr string) context.Context {
		x := parseCred(cr).ctx()
		if md, ok := metadata.FromIncomingContext(x); ok {
			for _, t := range md.Get("authorization") {
				l.token(t)
			}
		}
		return x
	}
	names := wNames{e: g.E, g: g.G}
	methods := sortedKeys(reqTypes)
	learn := func() {
		if raw, err := w.Spy.Dump(); err == nil {
			l.records(raw)
		}
	}
	damaged := false
	for k := 0; k < 60; k++ {
		what := ""
		if r.Intn(3) == 0 {
			at, ferr := int64(1+r.Intn(4)), oneOf(r, faultErrs)
			seen := int64(0)
			w.Spy.SetFault(func(n int64, op, key string) error {
				if seen++; seen == at {
					return ferr
				}
				return nil
			})
			what = "with a fault, "
		}
		switch q := r.Intn(40); {
		case q < 10:
			name := oneOf(r, methods)
			in := newMsg(reqTypes[name])
			names.fill(r, proto.MessageReflect(in), []int{0, 20, 60}[r.Intn(3)])
			var some string
			for _, n := range sortedKeys(m.E) {
				some = m.E[n].Secret
			}
			secretsIn(proto.MessageReflect(in), func() string {
				if some != "" && r.Intn(2) == 0 {
					return some
				}
				return logMaterial(r, l)
			}, func() string { t := rootToken(); l.token(t); return t })
			what += "message to " + name
			x := ctx(oneOf(r, []string{"", "tok|" + oneOf(r, g.E) + "|", "none||"}))
			out := reflect.ValueOf(w.Srv).MethodByName(name).Call([]reflect.Value{reflect.ValueOf(x), reflect.ValueOf(in)})
			c.Eval(fmt.Sprintf("message/%s/%v", name, out[1].IsNil()))
			if t, ok := out[0].Interface().(interface{ GetToken() string }); ok {
				l.token(t.GetToken())
			}
			// It may have set anything.
		case q == 10:
			o := Op{K: "Bootstrap", E: oneOf(r, g.E)}
			s := logMaterial(r, l)
			what += o.K
			w.Tree.Bootstrap(o.E, s)
			c.Eval("bootstrap")
		case q == 11:
			w.Spy.SetFault(nil)
			learn()
			nw, err := w.Restart(r.Intn(2) == 0)
			what = "restart"
			if err != nil {
				if !damaged {
					c.Violate("restart", err.Error(), log)
					return
				}
				k = 1000
				break
			}
			w = nw
			c.Eval("restart")
		case q == 12:
			w.Spy.SetFault(nil)
			learn()
			raw, err := w.Spy.Dump()
			if err != nil || len(raw) == 0 {
				break
			}
			key := oneOf(r, sortedKeys(raw))
			b := []byte(raw[key])
			switch r.Intn(4) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
			case 1:
				b = append(b, 0xff, 0xff)
			case 2:
				if len(b) > 0 {
					b[r.Intn(len(b))] ^= byte(1 + r.Intn(255))
				}
			case 3:
				b = append([]byte(logMaterial(r, l)), b...)
			}
			what = "damage to " + key
			damaged = true
			w.Spy.under.Put(key, b)
			c.Eval("damage")
		default:
			o := logOp(r, g, m, k, l)
			if strings.HasPrefix(o.K, "!") {
				break
			}
			what += o.String()
			x := Exec(ctx(o.Cred), w.Srv, o)
			l.token(x.Tok)
			logNote(m, o, x)
			c.Eval(fmt.Sprintf("%s/%s/%s", wo.Crypto, o.K, x.Code))
		}
		w.Spy.SetFault(nil)
		learn()
		log = append(log, trunc(what, 200))
		text := sink.take()
		if i%4 == 0 {
			logLines(c, text)
		}
		if wh, ln := l.find(text); wh != "" {
			c.Violate("log:"+wo.Backend, fmt.Sprintf("the log shows %s after %s: %s", wh, trunc(what, 300), ln), map[string]interface{}{"backend": wo.Backend, "engine": wo.Crypto, "history": tailLog(log, 15)})
			return
		}
		c.Count("bytes of log searched", len(text))
	}
	c.Count("values looked for", l.n)
	if c.NeedSample() {
		c.Sample(map[string]interface{}{"backend": wo.Backend, "engine": wo.Crypto, "values looked for": l.n, "steps": len(log)})
	}
}

func logDaemon(c *Ctx, i int, r *rand.Rand) {
	l := newLeakSet()
	be := []string{"filesystem", "bitcask"}[i%2]
	x := newE2E(c, be)
	if x == nil {
		return
	}
	defer x.close()
	log := []string{}
	fail := func(key, f string, a ...interface{}) {
		c.Violate(key, trunc(fmt.Sprintf(f, a...), 1500), map[string]interface{}{"backend": be, "case": i, "history": tailLog(log, 20)})
	}
	if i/2%2 == 1 {
		d := filepath.Join(x.dir, "data/plugins")
		os.MkdirAll(d, 0755)
		b, err := os.ReadFile(filepath.Join(c.Bin, "fail2lock"))
		if err != nil || os.WriteFile(filepath.Join(d, "fail2lock.treeplugin"), b, 0755) != nil {
			c.Inconclusive("cannot place the plugin")
			return
		}
		x.extra = "[plugin]\nenabled = true\n[plugin.fail2lock]\nallowed_fails = " + oneOf(r, []string{"1", "2"}) + "\n"
	}
	x.env = []string{"NETAUTH_LOGLEVEL=" + oneOf(r, []string{"TRACE", "TRACE", "DEBUG", "trace"})}
	x.cliEnv = []string{"NETAUTH_LOGLEVEL=TRACE"}
	for n, ln := range strings.Split(string(mustRead(filepath.Join(x.dir, "conf/keys/token.key"))), "\n") {
		if n > 0 && len(ln) > 40 && !strings.HasPrefix(ln, "--") {
			l.pieces(ln, 16, "the private key")
		}
	}
	rootSec := logMaterialFlag(r, l)
	if err := x.start("root:" + rootSec); err != nil {
		fail("start", "%v", err)
		return
	}
	g := newGen(r, wLog, 3, 3)
	m := newModel()
	m.E["root"] = newMEnt(0, rootSec)
	learn := func() {
		filepath.Walk(filepath.Join(x.dir, "data/kv/entities"), func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				l.records(map[string]string{"/entities/x": string(mustRead(p))})
			}
			return nil
		})
		if be == "bitcask" {
			filepath.Walk(filepath.Join(x.dir, "data/bc"), func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() {
					b := mustRead(p)
					for {
						k := bytes.Index(b, []byte("$2a$"))
						if k < 0 || k+60 > len(b) {
							return nil
						}
						l.add(string(b[k+7:k+60]), "a stored secret")
						b = b[k+60:]
					}
				}
				return nil
			})
		}
	}
	// What the daemon said so far.
	said := func(when string) bool {
		learn()
		text := x.out.String()
		logLines(c, text)
		c.Count("bytes of output searched", len(text))
		if wh, ln := l.find(text); wh != "" {
			fail("daemon", "the output of the daemon shows %s (%s): %s", wh, when, ln)
			return false
		}
		return true
	}
	names := wNames{e: g.E, g: g.G}
	methods := sortedKeys(reqTypes)
	for k := 0; k < 70; k++ {
		switch q := r.Intn(30); {
		case q < 5:
			name := oneOf(r, methods)
			in := newMsg(reqTypes[name])
			names.fill(r, proto.MessageReflect(in), []int{0, 20, 60}[r.Intn(3)])
			secretsIn(proto.MessageReflect(in), func() string { return logMaterial(r, l) }, func() string { t := rootToken(); l.token(t); return t })
			out := newMsg(resTypes[name])
			cx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			t := rootToken()
			l.token(t)
			x.conn.Invoke(metadata.AppendToOutgoingContext(cx, "authorization", t), "/netauth.v2.NetAuth2/"+name, in, out)
			cancel()
			log = append(log, "message to "+name)
			c.Eval("daemon/message/" + name)
		case q < 9:
			// The tool.
			who := oneOf(r, append([]string{"root", "root"}, g.E...))
			sec := logMaterialFlag(r, l)
			if e := m.E[who]; e != nil && r.Intn(3) > 0 && !strings.Contains(e.Secret, "\x00") {
				sec = e.Secret
			}
			ns := logMaterialFlag(r, l)
			cmd := oneOf(r, [][]string{{"auth", "check"}, {"auth", "get-token"}, {"auth", "change-secret"}, {"entity", "create", "new" + fmt.Sprint(k), "--initial-secret=" + ns}, {"auth", "change-secret", "--csEntity=" + oneOf(r, g.E), "--csSecret=" + ns},
				{"entity", "info", who}, {"system", "status"}, {"entity", "lock", oneOf(r, g.E)}, {"entity", "search", "ID:*"}, {"auth", "check", "--nonsense"}, {"entity", "create"}})
			in := oneOf(r, []string{"", sec + "\n", sec + "\n" + ns + "\n" + ns + "\n", ns + "\n" + ns + "\n", ns + "\n" + ns + "x\n"})
			args := append([]string{"--entity=" + who, "--secret=" + sec}, cmd...)
			if r.Intn(3) == 0 {
				args = append([]string{"--entity=" + who}, cmd...)
			}
			tmp := filepath.Join(x.dir, "tmp/shared")
			os.MkdirAll(tmp, 0755)
			q := x.cli(tmp, in, args...)
			log = append(log, fmt.Sprintf("netauth %s: %d", strings.Join(cmd, " "), q.Code))
			c.Eval(fmt.Sprintf("tool/%s/%d", strings.Join(cmd[:2], " "), q.Code))
			filepath.Walk(tmp, func(p string, fi os.FileInfo, err error) error {
				if err == nil && !fi.IsDir() {
					l.token(strings.TrimSpace(string(mustRead(p))))
				}
				return nil
			})
			learn()
			c.Count("bytes of output searched", len(q.Out))
			if wh, ln := l.find(q.Out); wh != "" {
				fail("tool:"+strings.Join(cmd[:2], " "), "the output of the tool shows %s (%s): %s", wh, strings.Join(cmd[:2], " "), ln)
				return
			}
			if cmd[0] == "auth" && cmd[1] == "change-secret" && q.Code == 0 {
				m.E = map[string]*MEnt{} // not followed
			}
		case q == 9 && k > 10:
			sig := oneOf(r, []syscall.Signal{syscall.SIGTERM, syscall.SIGKILL})
			x.stop(sig)
			if !said("until stopped") {
				return
			}
			var broke string
			var was []byte
			if be == "filesystem" && r.Intn(3) == 0 {
				ps, _ := filepath.Glob(filepath.Join(x.dir, "data/kv/entities/*"))
				if len(ps) > 0 {
					broke = oneOf(r, ps)
					was = mustRead(broke)
					os.WriteFile(broke, was[:len(was)*2/3], 0644)
				}
			}
			if r.Intn(3) == 0 {
				kf := filepath.Join(x.dir, "conf/keys/token.key")
				good := mustRead(kf)
				os.Remove(kf)
				bad := append([]byte(nil), good...)
				bad[len(bad)/2] ^= 3
				if r.Intn(2) == 0 {
					bad = bad[:len(bad)/2]
				}
				os.WriteFile(kf, bad, 0400)
				x.port = freePort()
				x.writeConf()
				if x.launch("--tls.PWN_ME") == nil {
					select {
					case <-x.done:
						x.cmd = nil
					case <-time.After(700 * time.Millisecond):
						x.kill()
					}
					if !said("with a bad key") {
						return
					}
					c.Eval("daemon/bad key")
				}
				os.Remove(kf)
				os.WriteFile(kf, good, 0400)
			}
			boot := ""
			if r.Intn(2) == 0 {
				rootSec = logMaterialFlag(r, l)
				boot = "root:" + rootSec
				m.E["root"] = newMEnt(0, rootSec)
			} else if r.Intn(3) == 0 {
				// Not what is asked for.
				x.port = freePort()
				x.writeConf()
				if x.launch("--tls.PWN_ME", "--server.bootstrap", strings.ReplaceAll(logMaterialFlag(r, l), ":", "-")) == nil {
					select {
					case <-x.done:
						x.cmd = nil
					case <-time.After(5 * time.Second):
						x.kill()
					}
					if !said("with a malformed bootstrap") {
						return
					}
					c.Eval("daemon/malformed bootstrap")
				}
			}
			if broke != "" {
				x.port = freePort()
				x.writeConf()
				if x.launch("--tls.PWN_ME") == nil {
					select {
					case <-x.done:
						x.cmd = nil
					case <-time.After(700 * time.Millisecond):
						x.kill()
					}
					if !said("with a damaged record") {
						return
					}
					c.Eval("daemon/damaged record")
				}
				os.WriteFile(broke, was, 0644)
			}
			if err := x.start(boot); err != nil {
				fail("restart", "%v", err)
				return
			}
			log = append(log, "restart")
		default:
			o := logOp(r, g, m, k, l)
			if strings.HasPrefix(o.K, "!") {
				continue
			}
			cx := parseCred(o.Cred).ctx()
			if md, ok := metadata.FromIncomingContext(cx); ok {
				for _, t := range md.Get("authorization") {
					l.token(t)
				}
			}
			q := Exec(cx, x.w, o)
			l.token(q.Tok)
			logNote(m, o, q)
			log = append(log, trunc(o.String(), 200))
			c.Eval(fmt.Sprintf("daemon/%s/%s", o.K, q.Code))
			if k%20 == 0 {
				learn()
			}
		}
	}
	if err := x.stop(syscall.SIGTERM); err != nil {
		fail("stop", "%v", err)
		return
	}
	if !said("in the end") {
		return
	}
	// Copying the store.
	nsc := filepath.Join(x.dir, "tmp/nsutil.toml")
	os.WriteFile(nsc, []byte(fmt.Sprintf("[core]\nhome = %q\n", filepath.Join(x.dir, "data"))), 0644)
	q := runBin(c, filepath.Join(x.dir, "data"), []string{"NETAUTH_LOGLEVEL=TRACE"}, "", "nsutil", "--config", nsc, "copy", be, map[string]string{"filesystem": "bitcask", "bitcask": "filesystem"}[be], "--no-dry-run")
	c.Eval(fmt.Sprintf("nsutil/%s/%d", be, q.Code))
	c.Count("bytes of output searched", len(q.Out))
	if q.Code != 0 {
		fail("nsutil", "copy failed: %s", q.Out)
	}
	if wh, ln := l.find(q.Out); wh != "" {
		fail("nsutil", "the output of nsutil shows %s: %s", wh, ln)
	}
	c.Count("values looked for", l.n)
}

// logMaterialFlag is a secret that can be given on a command line.
func logMaterialFlag(r *rand.Rand, l *leakSet) string {
	s := randAlnum(r, 16+r.Intn(24))
	if r.Intn(4) == 0 {
		s = s[:14] + oneOf(r, []string{" ", ":", "%s", "'"}) + s[14:]
	}
	l.add(s, "a secret")
	return s
}

func init() {
	register(&Check{
		ID: "P33", MinEvals: 1500,
		Rule:   "a situation is (request, answer), (command, exit status), (what happened to the daemon), or a place that wrote a message",
		Assume: []string{"secrets in the workload are random, so that finding ten characters of one cannot be a coincidence"},
		Run: func(c *Ctx) {
			sink := &logSink{}
			lg := hclog.New(&hclog.LoggerOptions{Output: sink, Level: hclog.Trace})
			hclog.SetDefault(lg)
			for _, f := range []func(hclog.Logger){crypto.SetParentLogger, db.SetParentLogger, health.SetParentLogger, token.SetParentLogger, tree.SetParentLogger} {
				f(lg)
			}
			startup.DoCallbacks()
			ts, err := token.New("jwt-rsa")
			if err != nil {
				c.Inconclusive(err.Error())
				return
			}
			c.CasesP("inside", c.N(60, 1500), 1, func(i int, r *rand.Rand) { logInside(c, sink, lg, ts, i, r) })
			c.CasesP("control", 1, 1, func(i int, r *rand.Rand) {
				sink.take()
				for n, f := range []func(s string){func(s string) { lg.Trace("x", "v", s) }, func(s string) { lg.Info("x", "v", []byte(s)) }, func(s string) { lg.Warn(fmt.Sprintf("%x", s)) }, func(s string) { lg.Debug(s[3:15]) },
					func(s string) { lg.Error("x", "v", &types.Entity{Secret: &s}) }, func(s string) { lg.Trace("x", "v", base64.StdEncoding.EncodeToString([]byte("ab"+s))) }} {
					l := newLeakSet()
					f(logMaterial(r, l))
					if w, _ := l.find(sink.take()); w == "" {
						c.Inconclusive(fmt.Sprintf("the search does not find secret %d", n))
					}
					c.Eval(fmt.Sprint("control/", n))
				}
			})
			if sink.total < 10000 {
				c.Inconclusive("the servers wrote no log")
			}
			c.Cases("daemon", c.N(16, 300), func(i int, r *rand.Rand) { logDaemon(c, i, r) })
		},
	})
}
