//go:build go1.22

package main

import (
	"context"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	jwt "github.com/dgrijalva/jwt-go"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/token"

	types "github.com/netauth/protocol"
)

// Credentials in a replayable form:
//
//	""                  a token holding the global superuser capability
//	"tok|ID|1,2"        a valid token for ID with these capabilities
//	"none" "empty" "dup" "dupsame" "nomd" "bearer"
//	"garbage" "unsigned" "hs256pub" "forged" "expired" "future" "cut" "flip"
//
// The last group are presented with the superuser capability and the
// identity after the bar, e.g. "forged|root".
type Cred struct {
	Kind string
	ID   string
	Caps []int32
}

func parseCred(s string) Cred {
	if s == "" {
		return Cred{Kind: "tok", ID: "\x00root", Caps: []int32{0}}
	}
	p := strings.SplitN(s, "|", 3)
	c := Cred{Kind: p[0]}
	if len(p) > 1 {
		c.ID = p[1]
	}
	if len(p) > 2 && p[2] != "" {
		for _, x := range strings.Split(p[2], ",") {
			n, _ := strconv.Atoi(x)
			c.Caps = append(c.Caps, int32(n))
		}
	}
	if c.Kind != "tok" && len(p) < 3 {
		c.Caps = []int32{0}
	}
	if !utf8.ValidString(c.ID) {
		// Tokens cannot carry such a name.
		if c.ID = "nobody"; c.Kind == "tok" {
			c.Kind = "none"
		}
	}
	return c
}

func credStr(id string, caps ...int32) string {
	s := []string{}
	for _, c := range caps {
		s = append(s, fmt.Sprint(c))
	}
	return "tok|" + id + "|" + strings.Join(s, ",")
}

// Valid tells whether the credential is one valid token.
func (c Cred) Valid() bool { return c.Kind == "tok" }

func (c Cred) has(cap int32) bool {
	if !c.Valid() {
		return false
	}
	for _, x := range c.Caps {
		if x == cap || x == int32(types.Capability_GLOBAL_ROOT) {
			return true
		}
	}
	return false
}

var badCreds = []string{"none", "empty", "dup", "dupsame", "nomd", "bearer", "garbage", "unsigned", "hs256pub", "forged", "expired", "future", "cut", "flip", "swapped"}

var (
	otherKeyOnce sync.Once
	otherKey     *rsa.PrivateKey
	credMu       sync.Mutex
	credCache    = map[string][]string{}
)

func foreignKey() *rsa.PrivateKey {
	otherKeyOnce.Do(func() { otherKey, _ = rsa.GenerateKey(rand.Reader, 1024) })
	return otherKey
}

func serverKey() *rsa.PrivateKey {
	b, err := os.ReadFile(filepath.Join(confDir, "keys", "token.key"))
	if err != nil {
		panic(err)
	}
	blk, _ := pem.Decode(b)
	k, err := x509.ParsePKCS1PrivateKey(blk.Bytes)
	if err != nil {
		panic(err)
	}
	return k
}

func serverPubPEM() []byte {
	b, err := os.ReadFile(filepath.Join(confDir, "keys", "token.pem"))
	if err != nil {
		panic(err)
	}
	return b
}

// mintClaims builds claims of the shape the server uses, derived from a
// genuine token so the field names follow whatever the server does.
func mintClaims(id string, caps []int32) jwt.MapClaims {
	parts := strings.Split(tokenFor(id, toCaps(caps)...), ".")
	b, _ := base64.RawURLEncoding.DecodeString(parts[1])
	m := jwt.MapClaims{}
	json.Unmarshal(b, &m)
	return m
}

func toCaps(caps []int32) []types.Capability {
	out := []types.Capability{}
	for _, c := range caps {
		out = append(out, types.Capability(c))
	}
	return out
}

// tokens gives the authorization values the credential presents.
func (c Cred) tokens() []string {
	k := fmt.Sprintf("%s|%q|%v", c.Kind, c.ID, c.Caps)
	credMu.Lock()
	if t, ok := credCache[k]; ok {
		credMu.Unlock()
		return t
	}
	credMu.Unlock()
	good := cachedToken(c.ID, toCaps(c.Caps)...)
	var out []string
	switch c.Kind {
	case "tok":
		out = []string{good}
	case "none", "nomd":
	case "empty":
		out = []string{""}
	case "dup":
		out = []string{good, cachedToken(c.ID+"2", types.Capability_GLOBAL_ROOT)}
	case "dupsame":
		out = []string{good, good}
	case "bearer":
		out = []string{"Bearer " + good}
	case "garbage":
		out = []string{"x.y.z"}
	case "unsigned":
		s, _ := jwt.NewWithClaims(jwt.SigningMethodNone, mintClaims(c.ID, c.Caps)).SignedString(jwt.UnsafeAllowNoneSignatureType)
		out = []string{s}
	case "hs256pub":
		s, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, mintClaims(c.ID, c.Caps)).SignedString(serverPubPEM())
		out = []string{s}
	case "forged":
		s, _ := jwt.NewWithClaims(jwt.SigningMethodRS512, mintClaims(c.ID, c.Caps)).SignedString(foreignKey())
		out = []string{s}
	case "expired":
		t, _ := jwtSvc.Generate(token.Claims{EntityID: c.ID, Capabilities: toCaps(c.Caps)}, token.Config{Lifetime: time.Minute, IssuedAt: time.Now().Add(-2 * time.Hour), NotBefore: time.Now().Add(-2 * time.Hour)})
		out = []string{t}
	case "future":
		t, _ := jwtSvc.Generate(token.Claims{EntityID: c.ID, Capabilities: toCaps(c.Caps)}, token.Config{Lifetime: 10 * time.Hour, IssuedAt: time.Now(), NotBefore: time.Now().Add(2 * time.Hour)})
		out = []string{t}
	case "cut":
		out = []string{good[:strings.LastIndex(good, ".")+1]}
	case "flip":
		p := strings.Split(good, ".")
		sig, _ := base64.RawURLEncoding.DecodeString(p[2])
		sig[len(sig)/2] ^= 1
		out = []string{p[0] + "." + p[1] + "." + base64.RawURLEncoding.EncodeToString(sig)}
	case "swapped":
		// The claims of one token with the signature of another.
		p := strings.Split(good, ".")
		q := strings.Split(cachedToken("somebody-else"), ".")
		out = []string{q[0] + "." + p[1] + "." + q[2]}
	default:
		panic("credential kind " + c.Kind)
	}
	if c.Kind != "expired" && c.Kind != "future" {
		credMu.Lock()
		credCache[k] = out
		credMu.Unlock()
	}
	return out
}

// ctx builds the request context.
func (c Cred) ctx() context.Context {
	if c.Kind == "nomd" {
		return context.Background()
	}
	return ctxTok(c.tokens()...)
}

// outgoing gives the metadata a remote client would send.
func (c Cred) outgoing() metadata.MD {
	md := metadata.MD{}
	for _, t := range c.tokens() {
		md.Append("authorization", t)
	}
	return md
}

const (
	capCreateEntity = int32(types.Capability_CREATE_ENTITY)
	capDestroyEnt   = int32(types.Capability_DESTROY_ENTITY)
	capEntMeta      = int32(types.Capability_MODIFY_ENTITY_META)
	capEntKeys      = int32(types.Capability_MODIFY_ENTITY_KEYS)
	capSecret       = int32(types.Capability_CHANGE_ENTITY_SECRET)
	capLock         = int32(types.Capability_LOCK_ENTITY)
	capUnlock       = int32(types.Capability_UNLOCK_ENTITY)
	capCreateGroup  = int32(types.Capability_CREATE_GROUP)
	capDestroyGrp   = int32(types.Capability_DESTROY_GROUP)
	capGrpMeta      = int32(types.Capability_MODIFY_GROUP_META)
	capGrpMembers   = int32(types.Capability_MODIFY_GROUP_MEMBERS)
	capRoot         = int32(types.Capability_GLOBAL_ROOT)
)

// needCap is the documented capability for each mutating request.
var needCap = map[string]int32{
	"EntityCreate": capCreateEntity, "EntityUpdate": capEntMeta, "EntityUM": capEntMeta,
	"EntityKVAdd": capEntMeta, "EntityKVDel": capEntMeta, "EntityKVReplace": capEntMeta,
	"EntityKeys": capEntKeys, "EntityDestroy": capDestroyEnt, "EntityLock": capLock, "EntityUnlock": capUnlock,
	"AuthChangeSecret": capSecret,
	"GroupCreate":      capCreateGroup, "GroupDestroy": capDestroyGrp, "GroupUpdate": capGrpMeta, "GroupUM": capGrpMeta,
	"GroupKVAdd": capGrpMeta, "GroupKVDel": capGrpMeta, "GroupKVReplace": capGrpMeta, "GroupUpdateRules": capGrpMeta,
	"GroupAddMember": capGrpMembers, "GroupDelMember": capGrpMembers,
	"SystemCapabilities": capRoot,
}

// mutating tells whether a request asks for a change.
func mutating(o Op) bool {
	if _, ok := needCap[o.K]; !ok {
		return false
	}
	if has("EntityUM GroupUM EntityKeys", o.K) && o.Act == actREAD {
		return false
	}
	return true
}

// Authorisation verdicts.
const (
	authAllow = iota
	authDeny
	authEither
)

// authz states whether a request's credentials suffice.
func (m *Model) authz(o Op) (int, string) {
	if !mutating(o) {
		return authAllow, ""
	}
	c := parseCred(o.Cred)
	if !c.Valid() {
		return authDeny, "it carries no single valid token (" + c.Kind + ")"
	}
	if o.K == "AuthChangeSecret" && c.ID == o.E {
		e := m.E[o.E]
		if e != nil && !e.Locked && e.Secret == o.S {
			return authAllow, ""
		}
		return authDeny, "changing one's own secret takes the current one"
	}
	if c.has(needCap[o.K]) {
		return authAllow, ""
	}
	if o.K == "EntityKeys" && c.ID == o.E {
		return authAllow, ""
	}
	deleg := func(g string) bool {
		x := m.G[g]
		e := m.E[c.ID]
		return x != nil && e != nil && x.Man != "" && m.G[x.Man] != nil && m.Member(e.Groups, x.Man)
	}
	switch o.K {
	case "GroupUpdate", "GroupUM", "GroupUpdateRules":
		if deleg(o.G) {
			return authAllow, ""
		}
	case "GroupKVAdd", "GroupKVDel", "GroupKVReplace":
		if deleg(o.G) {
			return authEither, ""
		}
	case "GroupAddMember", "GroupDelMember":
		gs := o.Gs
		if gs == nil {
			gs = []string{o.G}
		}
		all := len(gs) > 0
		for _, g := range gs {
			all = all && deleg(g)
		}
		if all {
			return authAllow, ""
		}
	}
	return authDeny, fmt.Sprintf("its token for %q with %v holds no authority for it", c.ID, c.Caps)
}

// PredictAuth is Predict for a request with credentials.
func (m *Model) PredictAuth(o Op, readonly bool) Expect {
	if readonly && mutating(o) {
		return Expect{Want: wantFail, Codes: []codes.Code{codes.Unimplemented}, Why: "the server is read-only"}
	}
	v, why := m.authz(o)
	if v == authDeny {
		return Expect{Want: wantFail, Why: why}
	}
	x := m.Predict(o)
	if v == authEither && x.Want == wantOK {
		x.Want = wantAny
	}
	if v == authEither && x.Want == wantFail {
		x.Codes = nil
	}
	return x
}

// anyCred draws credentials that interact with the state.
func anyCred(r *mrand.Rand, m *Model, o Op) string {
	id := "nobody"
	if len(m.E) > 0 && r.Intn(6) > 0 {
		id = oneOf(r, sortedKeys(m.E))
	}
	switch r.Intn(12) {
	case 0, 1:
		return ""
	case 2:
		return oneOf(r, badCreds) + "|" + id
	case 3, 4: // the capability asked for
		return credStr(id, needCap[o.K])
	case 5: // every capability but that one
		cs := []int32{}
		for _, c := range allCaps {
			if c != capRoot && c != needCap[o.K] {
				cs = append(cs, c)
			}
		}
		return credStr(id, cs...)
	case 6:
		return credStr(id, oneOf(r, allCaps))
	case 7, 8:
		if o.E != "" {
			return credStr(o.E)
		}
		return credStr(id)
	default:
		return credStr(id)
	}
}
