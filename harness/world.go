//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	jwt "github.com/dgrijalva/jwt-go"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/crypto"
	_ "github.com/netauth/netauth/internal/crypto/bcrypt"
	_ "github.com/netauth/netauth/internal/crypto/nocrypto"
	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	_ "github.com/netauth/netauth/internal/token/jwt"
	_ "github.com/netauth/netauth/internal/token/null"
	"github.com/netauth/netauth/internal/tree"
	_ "github.com/netauth/netauth/internal/tree/hooks"

	types "github.com/netauth/protocol"
)

// Injected is the error the spy store returns for an injected fault.
var Injected = errors.New("injected storage fault")

// KVEvent is one access observed at the storage boundary.
type KVEvent struct {
	Op  string
	Key string
	Err bool
}

// Damaged makes a read return a value that cannot be decoded.
var Damaged = errors.New("injected damaged value")

// Garbled makes a read return the stored value followed by bytes that
// make it undecodable.
var Garbled = errors.New("injected garbled value")

// Spy wraps a storage backend: it records every access, can inject
// faults and delays, and sees every change notification.
type Spy struct {
	under db.KVStore
	ef    func(db.Event)

	mu     sync.Mutex
	rec    bool
	log    []KVEvent
	events []db.Event
	n      int64 // accesses
	writes int64 // Put+Del that reached the backend

	// off makes the spy transparent, so that its own locking does not
	// order the accesses of overlapping requests.  Set before use only.
	off bool

	// fault is consulted before each access with its ordinal.
	fault func(n int64, op, key string) error
	// delay runs before and after each access (outside locks).
	delay func(op, key string, after bool)
}

func (s *Spy) pre(op, key string) error {
	if s.off {
		return nil
	}
	n := atomic.AddInt64(&s.n, 1)
	if s.delay != nil {
		s.delay(op, key, false)
	}
	s.mu.Lock()
	f := s.fault
	s.mu.Unlock()
	var err error
	if f != nil {
		err = f(n, op, key)
	}
	s.mu.Lock()
	if s.rec {
		s.log = append(s.log, KVEvent{op, key, err != nil})
	}
	s.mu.Unlock()
	return err
}

func (s *Spy) post(op, key string) {
	if s.delay != nil {
		s.delay(op, key, true)
	}
}

// Put stores.
func (s *Spy) Put(k string, v []byte) error {
	if err := s.pre("put", k); err != nil {
		return err
	}
	if !s.off {
		atomic.AddInt64(&s.writes, 1)
	}
	err := s.under.Put(k, v)
	s.post("put", k)
	return err
}

// Get loads.
func (s *Spy) Get(k string) ([]byte, error) {
	if err := s.pre("get", k); err == Damaged {
		return []byte("\xff\xff\xff\xff damaged"), nil
	} else if err == Garbled {
		v, err := s.under.Get(k)
		if err != nil {
			return nil, err
		}
		return append(append([]byte{}, v...), "\xff\xff\xff"...), nil
	} else if err != nil {
		return nil, err
	}
	v, err := s.under.Get(k)
	s.post("get", k)
	return v, err
}

// Del removes.
func (s *Spy) Del(k string) error {
	if err := s.pre("del", k); err != nil {
		return err
	}
	if !s.off {
		atomic.AddInt64(&s.writes, 1)
	}
	err := s.under.Del(k)
	s.post("del", k)
	return err
}

// Keys lists.
func (s *Spy) Keys(f string) ([]string, error) {
	if err := s.pre("keys", f); err != nil {
		return nil, err
	}
	v, err := s.under.Keys(f)
	s.post("keys", f)
	return v, err
}

// Close closes.
func (s *Spy) Close() error { return s.under.Close() }

// Capabilities passes through.
func (s *Spy) Capabilities() []db.KVCapability { return s.under.Capabilities() }

// SetEventFunc interposes on notifications.
func (s *Spy) SetEventFunc(f func(db.Event)) {
	s.ef = f
	s.under.SetEventFunc(func(e db.Event) {
		if s.off {
			f(e)
			return
		}
		s.mu.Lock()
		if s.rec {
			s.events = append(s.events, e)
		}
		s.mu.Unlock()
		if s.delay != nil {
			s.delay("event", e.PK, false)
		}
		f(e)
	})
}

// SetFault installs a fault function.
func (s *Spy) SetFault(f func(n int64, op, key string) error) {
	s.mu.Lock()
	s.fault = f
	s.mu.Unlock()
}

// Record starts or stops recording; starting clears the log.
func (s *Spy) Record(on bool) {
	s.mu.Lock()
	s.rec = on
	if on {
		s.log = nil
		s.events = nil
	}
	s.mu.Unlock()
}

// Log returns the recorded accesses.
func (s *Spy) Log() []KVEvent {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]KVEvent{}, s.log...)
}

// Writes returns how many writes reached the backend.
func (s *Spy) Writes() int64 { return atomic.LoadInt64(&s.writes) }

// Dump reads everything straight from the backend.
func (s *Spy) Dump() (map[string]string, error) {
	out := map[string]string{}
	for _, pat := range []string{"/entities/*", "/groups/*", "/*", "/*/*"} {
		ks, err := s.under.Keys(pat)
		if err != nil {
			return nil, err
		}
		for _, k := range ks {
			v, err := s.under.Get(k)
			if err != nil {
				return nil, fmt.Errorf("listed key %q unreadable: %v", k, err)
			}
			out[k] = string(v)
		}
	}
	return out, nil
}

var (
	worldMu sync.Mutex
	pending struct {
		backend string
		under   db.KVStore
		made    *Spy
	}
	jwtSvc   token.Service
	confDir  string
	worldSeq int64
)

func initCommon(c *Ctx) {
	hclog.SetDefault(hclog.NewNullLogger())
	hclog.DefaultOptions = &hclog.LoggerOptions{Output: io.Discard, Level: hclog.NoLevel}
	for _, f := range []func(hclog.Logger){crypto.SetParentLogger, db.SetParentLogger, health.SetParentLogger, token.SetParentLogger, tree.SetParentLogger} {
		f(hclog.NewNullLogger())
	}
	startup.DoCallbacks()
	db.RegisterKV("vspy", func(l hclog.Logger) (db.KVStore, error) {
		u := pending.under
		if u == nil {
			var err error
			u, err = db.NewKV(pending.backend, l)
			if err != nil {
				return nil, err
			}
		}
		pending.made = &Spy{under: u}
		return pending.made, nil
	})
	confDir = filepath.Join(c.Scratch, "conf")
	os.MkdirAll(confDir, 0755)
	viper.Set("core.conf", confDir)
	viper.Set("crypto.bcrypt.cost", 4)
	viper.Set("token.jwt.generate", true)
	viper.Set("token.jwt.bits", 1024)
	token.SetLifetime(10 * time.Hour)
	var err error
	jwtSvc, err = token.New("jwt-rsa")
	if err != nil {
		fmt.Fprintln(os.Stderr, "token service:", err)
		os.Exit(3)
	}
}

// WOpts configures a world.
type WOpts struct {
	Backend  string // memory, filesystem, bitcask
	Crypto   string // nocrypto, bcrypt
	ReadOnly bool
	Dir      string
	Under    db.KVStore
	NoLoad   bool
	Tok      token.Service
	Pre      func(*Spy) // configure the spy before the server starts using it
	Log      hclog.Logger
}

// World is one running server built from the working tree.
type World struct {
	WOpts
	c    *Ctx
	Spy  *Spy
	DB   *db.DB
	Tree *tree.Manager
	Srv  *rpc2.Server
	Tok  token.Service

	booted bool // bootstrapping was attempted or disabled
}

// NewWorld assembles a server the way the daemon does.
func NewWorld(c *Ctx, o WOpts) (*World, error) {
	if o.Backend == "" {
		o.Backend = "memory"
	}
	if o.Crypto == "" {
		o.Crypto = "nocrypto"
	}
	if o.Log == nil {
		o.Log = hclog.NewNullLogger()
	}
	if o.Dir == "" {
		o.Dir = filepath.Join(c.Scratch, fmt.Sprintf("w%d", atomic.AddInt64(&worldSeq, 1)))
		if o.Backend != "memory" {
			if err := os.MkdirAll(o.Dir, 0755); err != nil {
				return nil, err
			}
		}
	}
	w := &World{WOpts: o, c: c, Tok: jwtSvc}
	if o.Tok != nil {
		w.Tok = o.Tok
	}
	worldMu.Lock()
	defer worldMu.Unlock()
	viper.Set("core.home", o.Dir)
	pending.backend = o.Backend
	pending.under = o.Under
	pending.made = nil
	var err error
	w.DB, err = db.New("vspy")
	if err != nil {
		return nil, fmt.Errorf("db.New: %w", err)
	}
	w.Spy = pending.made
	if o.Pre != nil {
		o.Pre(w.Spy)
	}
	cr, err := crypto.New(o.Crypto)
	if err != nil {
		return nil, fmt.Errorf("crypto.New: %w", err)
	}
	w.Tree, err = tree.New(w.DB, cr, o.Log)
	if err != nil {
		return nil, fmt.Errorf("tree.New: %w", err)
	}
	if !o.NoLoad {
		if err := w.DB.EventUpdateAll(); err != nil {
			return nil, fmt.Errorf("EventUpdateAll: %w", err)
		}
	}
	viper.Set("server.readonly", o.ReadOnly)
	w.Srv = rpc2.New(rpc2.Refs{TokenService: w.Tok, Tree: w.Tree}, o.Log)
	viper.Set("server.readonly", false)
	return w, nil
}

// MustWorld is NewWorld that reports failure as a violation of the
// running property (the server could not start).
func MustWorld(c *Ctx, o WOpts) *World {
	w, err := NewWorld(c, o)
	if err != nil {
		c.Violate("startup-failed", "the server could not be started: "+err.Error(), map[string]interface{}{"backend": o.Backend})
		return nil
	}
	return w
}

// Restart builds a new server over the surviving data.  clean closes
// the store first; otherwise the files are copied as they are (an
// abrupt end at a quiescent instant) and opened elsewhere.
func (w *World) Restart(clean bool) (*World, error) {
	o := w.WOpts
	switch {
	case w.Backend == "memory":
		o.Under = w.Spy.under
	case clean:
		w.DB.Shutdown()
	default:
		nd := filepath.Join(w.c.Scratch, fmt.Sprintf("w%d", atomic.AddInt64(&worldSeq, 1)))
		if err := copyTree(w.Dir, nd); err != nil {
			return nil, err
		}
		w.DB.Shutdown()
		os.RemoveAll(w.Dir)
		o.Dir = nd
	}
	return NewWorld(w.c, o)
}

// Close shuts a world down and removes its files.
func (w *World) Close() {
	if w == nil {
		return
	}
	w.DB.Shutdown()
	if w.Backend != "memory" && strings.HasPrefix(w.Dir, w.c.Scratch) {
		os.RemoveAll(w.Dir)
	}
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if err := os.WriteFile(t, b, fi.Mode().Perm()); err != nil {
			return err
		}
		return os.Chmod(t, fi.Mode().Perm())
	})
}

// tokenFor signs claims with the server's own key.
func tokenFor(id string, caps ...types.Capability) string {
	now := time.Now()
	t, err := jwtSvc.Generate(token.Claims{EntityID: id, Capabilities: caps}, token.Config{Lifetime: 10 * time.Hour, IssuedAt: now, NotBefore: now.Add(-time.Minute)})
	if err == nil && t != "" {
		return t
	}
	// A token service that does not issue tokens is for other checks.
	cs := []int32{}
	for _, c := range caps {
		cs = append(cs, int32(c))
	}
	t, err = jwt.NewWithClaims(jwt.SigningMethodRS512, jwt.MapClaims{"EntityID": id, "Capabilities": cs, "exp": now.Add(10 * time.Hour).Unix(), "nbf": now.Add(-time.Minute).Unix(), "iat": now.Unix()}).SignedString(serverKey())
	if err != nil {
		fmt.Fprintln(os.Stderr, "token generation:", err)
		os.Exit(3)
	}
	return t
}

var (
	tokMu    sync.Mutex
	tokCache = map[string]string{}
)

// cachedToken returns a token for the claims, signing once.
func cachedToken(id string, caps ...types.Capability) string {
	cs := []int{}
	for _, c := range caps {
		cs = append(cs, int(c))
	}
	sort.Ints(cs)
	k := fmt.Sprintf("%q%v", id, cs)
	tokMu.Lock()
	defer tokMu.Unlock()
	if t, ok := tokCache[k]; ok {
		return t
	}
	t := tokenFor(id, caps...)
	tokCache[k] = t
	return t
}

func rootToken() string { return cachedToken("\x00root", types.Capability_GLOBAL_ROOT) }

// ctxTok is a request context carrying the given credentials.
func ctxTok(toks ...string) context.Context {
	md := metadata.MD{}
	md.Append("client-name", "vmon")
	md.Append("service-name", "vmon")
	for _, t := range toks {
		md.Append("authorization", t)
	}
	return metadata.NewIncomingContext(context.Background(), md)
}

func ctxRoot() context.Context { return ctxTok(rootToken()) }
func ctxNone() context.Context { return ctxTok() }
