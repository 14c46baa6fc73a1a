//go:build go1.22

package main

import (
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	jwt "github.com/dgrijalva/jwt-go"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/token"

	types "github.com/netauth/protocol"
)

// serviceIn loads a token service from a configuration directory.
// unsetGenerate leaves key generation unconfigured instead of disabled.
var unsetGenerate bool

func serviceIn(dir string, generate bool) (token.Service, error) {
	worldMu.Lock()
	defer worldMu.Unlock()
	viper.Set("core.conf", dir)
	if !generate && unsetGenerate {
		// Not configured at all is not enabled either.
		viper.Set("token.jwt.generate", nil)
	} else {
		viper.Set("token.jwt.generate", generate)
	}
	defer func() {
		viper.Set("core.conf", confDir)
		viper.Set("token.jwt.generate", true)
	}()
	return token.New("jwt-rsa")
}

func claimStr(c token.Claims) string {
	x := []int{}
	for _, k := range c.Capabilities {
		x = append(x, int(k))
	}
	sort.Ints(x)
	return fmt.Sprintf("%q%v", c.EntityID, x)
}

type tokScene struct {
	c    *Ctx
	w    *World
	same token.Service // loaded from the same files
	pub  token.Service // has only the public key
	for2 token.Service // has other keys
	key  *rsa.PrivateKey
	seq  int64
}

// judge offers a token everywhere tokens are accepted.
func (s *tokScene) judge(tok string, want bool, cl token.Claims, what string, replay interface{}) {
	s.c.Count("offered", 1)
	for _, v := range []struct {
		n string
		s token.Service
	}{{"the issuing server", jwtSvc}, {"a restarted server", s.same}, {"a verifier with only the public key", s.pub}} {
		got, err := v.s.Validate(tok)
		s.c.Eval(fmt.Sprintf("%s/%s/%v/%v", v.n, what, want, err == nil))
		if (err == nil) != want {
			s.c.Violate(fmt.Sprintf("accept:%v:%s", want, what), fmt.Sprintf("%s: %s should be accepted=%v, got error %v", v.n, what, want, err), map[string]interface{}{"token": tok, "how": replay})
			continue
		}
		if want && claimStr(got) != claimStr(cl) {
			s.c.Violate("claims:"+what, fmt.Sprintf("%s read back %s, issued with %s", v.n, claimStr(got), claimStr(cl)), map[string]interface{}{"token": tok, "how": replay})
		}
		if !want && (got.EntityID != "" || len(got.Capabilities) > 0) {
			s.c.Violate("claims-with-error:"+what, fmt.Sprintf("%s refused the token and still returned %s", v.n, claimStr(got)), map[string]interface{}{"token": tok, "how": replay})
		}
	}
	if _, err := s.for2.Validate(tok); err == nil {
		s.c.Violate("foreign:"+what, "a server with other keys accepts the token", map[string]interface{}{"token": tok, "how": replay})
	}
	if strings.ContainsAny(tok, "\x00\n\r") {
		return
	}
	r := Exec(ctxNone(), s.w.Srv, Op{K: "AuthValidateToken", S: tok})
	if r.OK() != want {
		s.c.Violate(fmt.Sprintf("rpc:%v:%s", want, what), fmt.Sprintf("AuthValidateToken says %s for %s, which should be accepted=%v", r.Code, what, want), map[string]interface{}{"token": tok, "how": replay})
	}
	a := Exec(ctxTok(tok), s.w.Srv, Op{K: "EntityLock", E: "no-such-entity"})
	may := false
	for _, k := range cl.Capabilities {
		may = may || int32(k) == capRoot || int32(k) == capLock
	}
	got := a.Code.String()
	exp := "Unauthenticated"
	if want && may {
		exp = "NotFound"
	} else if want {
		exp = "PermissionDenied"
	}
	s.c.Eval("")
	if want && got != exp || !want && (a.OK() || got == "NotFound") {
		s.c.Violate(fmt.Sprintf("use:%v:%s", want, what), fmt.Sprintf("a request with %s answered %s, want %s", what, got, exp), map[string]interface{}{"token": tok, "how": replay})
	}
}

var hostileIDs = []string{"", "a", "root", "x.y", "a\"b", "ünï", "a,b", "{}", "null", "0", strings.Repeat("n", 300), "a\\u0000", "<x>&", "\U0001F600", "line\nbreak", "'", "a b"}

// notText holds names that JSON has no way to write; a token for one
// is either refused or reads back as exactly that name.
var notText = []string{"\xff", "\xfe", "a\xc3", "\xed\xa0\x80", "\ufffd"}

// twins has entities whose names differ only in bytes that are not
// text, and uses the token of one on the others.
func (s *tokScene) twins() {
	root := tokenFor("root", types.Capability_GLOBAL_ROOT)
	do := func(tok string, o Op) Res { return Exec(ctxTok(tok), s.w.Srv, o) }
	for i, n := range notText {
		s.c.Guard("twins", func() {
			do(root, Op{K: "EntityCreate", E: "tw" + n, N: int32(5000 + i), S: "tw" + n + "-secret"})
		})
	}
	for _, n := range notText {
		g := Exec(ctxNone(), s.w.Srv, Op{K: "AuthGetToken", E: "tw" + n, S: "tw" + n + "-secret"})
		s.c.Eval(fmt.Sprintf("twins/%q/%v", n, g.OK()))
		if !g.OK() || g.Tok == "" {
			if utf8.ValidString(n) {
				s.c.Violate("twins:none", fmt.Sprintf("no token for %q: %s", n, g.Code), nil)
			}
			continue
		}
		for _, m := range notText {
			r := do(g.Tok, Op{K: "EntityKeys", E: "tw" + m, Act: 1, Key: "ssh", Val: "k"})
			s.c.Eval(fmt.Sprintf("twins-use/%v/%v", n == m, r.OK()))
			if r.OK() != (n == m) {
				s.c.Violate("twins:use", fmt.Sprintf("with the token issued to %q, changing the keys of %q says %s", "tw"+n, "tw"+m, r.Code), nil)
			}
		}
	}
}

func randClaims(r *mrand.Rand) token.Claims {
	cl := token.Claims{EntityID: oneOf(r, hostileIDs)}
	p := r.Perm(len(allCaps))
	for _, i := range p[:r.Intn(len(p)+1)] {
		cl.Capabilities = append(cl.Capabilities, types.Capability(allCaps[i]))
	}
	return cl
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func unb64(s string) ([]byte, bool) {
	b, err := base64.RawURLEncoding.DecodeString(s)
	return b, err == nil
}

// sameToken tells whether two tokens say and prove the same thing (the
// encoding of the last byte leaves bits unused).
func sameToken(a, b string) bool {
	x, y := strings.Split(a, "."), strings.Split(b, ".")
	if len(x) != 3 || len(y) != 3 {
		return false
	}
	for i := range x {
		p, ok1 := unb64(x[i])
		q, ok2 := unb64(y[i])
		if !ok1 || !ok2 || string(p) != string(q) {
			return false
		}
	}
	return true
}

// forgeries builds tokens claiming cl that the server never signed.
func (s *tokScene) forgeries(good string, cl token.Claims, other string) map[string]string {
	out := map[string]string{}
	p := strings.Split(good, ".")
	q := strings.Split(other, ".")
	cb, _ := unb64(p[1])
	m := jwt.MapClaims{}
	json.Unmarshal(cb, &m)
	pub := serverPubPEM()
	blk, _ := pem.Decode(pub)
	fk := foreignKey()
	fder := x509.MarshalPKCS1PublicKey(&fk.PublicKey)
	sign := func(name string, meth jwt.SigningMethod, key interface{}, hdr map[string]interface{}) {
		t := jwt.NewWithClaims(meth, m)
		for k, v := range hdr {
			t.Header[k] = v
		}
		if x, err := t.SignedString(key); err == nil {
			out[name] = x
		}
	}
	for _, v := range []string{"none", "None", "NONE", "nOnE"} {
		h, _ := json.Marshal(map[string]string{"alg": v, "typ": "JWT"})
		out["alg "+v+" without signature"] = b64(h) + "." + p[1] + "."
		out["alg "+v+" with signature"] = b64(h) + "." + p[1] + "." + p[2]
	}
	for n, k := range map[string][]byte{"public PEM": pub, "public DER": blk.Bytes, "trimmed PEM": []byte(strings.TrimSpace(string(pub))), "modulus": s.key.N.Bytes(), "empty": {}, "pkcs1": x509.MarshalPKCS1PublicKey(&s.key.PublicKey)} {
		sign("HS256 keyed with "+n, jwt.SigningMethodHS256, k, nil)
		sign("HS384 keyed with "+n, jwt.SigningMethodHS384, k, nil)
		sign("HS512 keyed with "+n, jwt.SigningMethodHS512, k, nil)
	}
	sign("RS512 by a foreign key", jwt.SigningMethodRS512, fk, nil)
	sign("RS256 by a foreign key", jwt.SigningMethodRS256, fk, nil)
	sign("PS512 by a foreign key", jwt.SigningMethodPS512, fk, nil)
	sign("foreign key with embedded key", jwt.SigningMethodRS512, fk, map[string]interface{}{
		"jwk": map[string]string{"kty": "RSA", "n": b64(fk.N.Bytes()), "e": "AQAB"}, "kid": "../../dev/null", "x5c": []string{base64.StdEncoding.EncodeToString(fder)}, "jku": "file:///tmp/x"})
	out["claims of one, signature of another"] = q[0] + "." + p[1] + "." + q[2]
	out["claims of another, signature of this"] = p[0] + "." + q[1] + "." + p[2]
	out["no signature part"] = p[0] + "." + p[1]
	out["empty signature"] = p[0] + "." + p[1] + "."
	out["four parts"] = good + "." + p[2]
	out["empty"] = ""
	out["dots"] = ".."
	out["only claims"] = "." + p[1] + "."
	out["bearer prefix"] = "Bearer " + good
	out["leading space"] = " " + good
	out["trailing space"] = good + " "
	out["two tokens"] = good + "," + other
	// The signature of everything, moved by a byte.
	sig, _ := unb64(p[2])
	out["zero signature"] = p[0] + "." + p[1] + "." + b64(make([]byte, len(sig)))
	out["signature with a leading zero"] = p[0] + "." + p[1] + "." + b64(append([]byte{0}, sig...))
	out["short signature"] = p[0] + "." + p[1] + "." + b64(sig[1:])
	// Claims raised, signature kept.
	for n, f := range map[string]func(m map[string]interface{}){
		"more capabilities": func(m map[string]interface{}) { m["Capabilities"] = []int{0, 1, 2, 3} },
		"another identity":  func(m map[string]interface{}) { m["EntityID"] = "somebody" },
		"later expiry":      func(m map[string]interface{}) { m["exp"] = time.Now().Add(99 * time.Hour).Unix() },
		"no expiry":         func(m map[string]interface{}) { delete(m, "exp") },
		"additional field":  func(m map[string]interface{}) { m["zz"] = 1 },
	} {
		x := map[string]interface{}{}
		json.Unmarshal(cb, &x)
		f(x)
		b, _ := json.Marshal(x)
		out["claims rewritten: "+n] = p[0] + "." + b64(b) + "." + p[2]
	}
	return out
}

// mutate damages a token at a random place.
func mutateTok(r *mrand.Rand, good string) (string, string) {
	p := strings.Split(good, ".")
	part := r.Intn(3)
	nm := []string{"header", "claims", "signature"}[part]
	switch r.Intn(4) {
	case 0: // a bit of the decoded part
		b, _ := unb64(p[part])
		i := r.Intn(len(b) * 8)
		b[i/8] ^= 1 << (i % 8)
		p[part] = b64(b)
		return strings.Join(p, "."), "a flipped bit in the " + nm
	case 1: // a character of the encoded part
		const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		b := []byte(p[part])
		b[r.Intn(len(b))] = al[r.Intn(64)]
		p[part] = string(b)
		return strings.Join(p, "."), "a changed character in the " + nm
	case 2:
		b, _ := unb64(p[part])
		n := 1 + r.Intn(8)
		if n >= len(b) {
			n = 1
		}
		p[part] = b64(b[:len(b)-n])
		return strings.Join(p, "."), "a cut " + nm
	default:
		b, _ := unb64(p[part])
		i := r.Intn(len(b) + 1)
		b = append(b[:i:i], append([]byte{byte(32 + r.Intn(90))}, b[i:]...)...)
		p[part] = b64(b)
		return strings.Join(p, "."), "an added byte in the " + nm
	}
}

func init() {
	register(&Check{
		ID: "P02", MinEvals: 20000,
		Rule: "a situation is (who verifies, how the token was made or altered, expected and actual verdict)",
		Assume: []string{"1024-bit RSA keys in the workload", "tokens within 20 s of either end of their window are judged only in the real-time part, with 1.5 s of slack",
			"an encoding of the identical header, claims and signature bytes that differs only in unused trailing base64 bits is not an alteration"},
		Run: runP02,
	})
}

func runP02(c *Ctx) {
	s := &tokScene{c: c, key: serverKey()}
	s.w = MustWorld(c, WOpts{})
	if s.w == nil {
		return
	}
	var err error
	if s.same, err = serviceIn(confDir, false); err != nil {
		c.Violate("reload", "the token service does not start with the keys it generated: "+err.Error(), nil)
		return
	}
	pubDir := filepath.Join(c.Scratch, "pubonly")
	os.MkdirAll(filepath.Join(pubDir, "keys"), 0755)
	os.WriteFile(filepath.Join(pubDir, "keys", "token.pem"), serverPubPEM(), 0644)
	os.Chmod(filepath.Join(pubDir, "keys", "token.pem"), 0644)
	if s.pub, err = serviceIn(pubDir, false); err != nil {
		c.Violate("public-only", "a verifier with only the public key does not start: "+err.Error(), nil)
		return
	}
	if s.for2, err = serviceIn(filepath.Join(c.Scratch, "conf2"), true); err != nil {
		c.Violate("second", "a second token service cannot generate its keys: "+err.Error(), nil)
		return
	}
	// Real time: windows that open and close during the run.
	type rt struct {
		tok      string
		cl       token.Claims
		from, to time.Time
	}
	var live []rt
	r0 := c.Rand("live", 0)
	now := time.Now().Truncate(time.Second)
	for i := 0; i < 40; i++ {
		cl := randClaims(r0)
		nb := now.Add(time.Duration(r0.Intn(6)-2) * time.Second)
		lf := time.Duration(2+r0.Intn(5)) * time.Second
		t, err := jwtSvc.Generate(cl, token.Config{Lifetime: lf, IssuedAt: now.Add(-time.Second), NotBefore: nb})
		if err != nil {
			c.Violate("generate", "a token could not be issued: "+err.Error(), nil)
			return
		}
		live = append(live, rt{t, cl, nb, nb.Add(lf)})
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		end := now.Add(14 * time.Second)
		for time.Now().Before(end) {
			for _, l := range live {
				t := time.Now()
				if d := t.Sub(l.from); d > -1500*time.Millisecond && d < 1500*time.Millisecond {
					continue
				}
				if d := t.Sub(l.to); d > -1500*time.Millisecond && d < 1500*time.Millisecond {
					continue
				}
				in := t.After(l.from) && t.Before(l.to)
				for n, f := range map[string]func() bool{
					"issuer":   func() bool { _, err := jwtSvc.Validate(l.tok); return err == nil },
					"reloaded": func() bool { _, err := s.same.Validate(l.tok); return err == nil },
					"public":   func() bool { _, err := s.pub.Validate(l.tok); return err == nil },
					"rpc":      func() bool { return Exec(ctxNone(), s.w.Srv, Op{K: "AuthValidateToken", S: l.tok}).OK() },
					"use": func() bool {
						return Exec(ctxTok(l.tok), s.w.Srv, Op{K: "EntityLock", E: "no-such-entity"}).Code.String() != "Unauthenticated"
					},
				} {
					got := f()
					if d := time.Since(t); d > time.Second {
						c.Count("realtime_skipped_slow", 1)
						break
					}
					c.Eval(fmt.Sprintf("realtime/%s/%v", n, in))
					if got != in {
						c.Violate("realtime:"+n, fmt.Sprintf("%s: a token valid from %v to %v is accepted=%v at %v", n, l.from, l.to, got, t), l.tok)
					}
				}
				c.Count("realtime", 1)
			}
			time.Sleep(150 * time.Millisecond)
		}
	}()
	// Windows around the current time, and damage to good tokens.
	c.Cases("window", c.N(1500, 60000), func(i int, r *mrand.Rand) {
		cl := randClaims(r)
		now := time.Now()
		secs := []time.Duration{30, 60, 120, 3600, 86400, 86400 * 365, 86400 * 3650}
		var nb time.Time
		if r.Intn(2) == 0 {
			nb = now.Add(-oneOf(r, secs) * time.Second)
		} else if r.Intn(3) == 0 {
			nb = now.Add(oneOf(r, secs) * time.Second)
		} else {
			nb = now.Add(-time.Duration(20+r.Intn(100000)) * time.Second)
		}
		lf := time.Duration(1+r.Intn(200000)) * time.Second
		if r.Intn(3) == 0 {
			lf = oneOf(r, secs) * time.Second * time.Duration(1+r.Intn(3))
		}
		if d := now.Sub(nb.Add(lf)); d > -20*time.Second && d < 20*time.Second {
			lf += 40 * time.Second
		}
		if r.Intn(8) == 0 {
			cl.EntityID = oneOf(r, notText)
		}
		tok, err := jwtSvc.Generate(cl, token.Config{Lifetime: lf, IssuedAt: now.Add(-time.Duration(r.Intn(100)) * time.Second), NotBefore: nb, Issuer: oneOf(r, []string{"", "x"})})
		if err != nil && !utf8.ValidString(cl.EntityID) {
			c.Eval("not-text/refused")
			return
		}
		if err != nil {
			c.Violate("generate", "a token could not be issued: "+err.Error(), cl)
			return
		}
		in := now.After(nb) && now.Before(nb.Add(lf))
		what := "a token inside its window"
		if now.Before(nb) {
			what = "a token not yet valid"
		} else if !in {
			what = "an expired token"
		}
		rp := map[string]string{"claims": claimStr(cl), "notbefore": nb.Sub(now).String(), "lifetime": lf.String()}
		s.judge(tok, in, cl, what, rp)
		for k := 0; k < 4; k++ {
			bad, how := mutateTok(r, tok)
			if bad == tok || sameToken(bad, tok) {
				continue
			}
			s.judge(bad, false, token.Claims{Capabilities: []types.Capability{0}}, how, tok)
		}
		// Seeing bad ones changes nothing for the good one.
		s.judge(tok, in, cl, what, rp)
		if c.NeedSample() {
			c.Sample(rp)
		}
	})
	s.twins()
	// Every bit of some tokens.
	c.Cases("bits", c.N(6, 60), func(i int, r *mrand.Rand) {
		cl := token.Claims{EntityID: fmt.Sprintf("bit%d", i), Capabilities: []types.Capability{types.Capability(i)}}
		tok, _ := jwtSvc.Generate(cl, token.Config{Lifetime: time.Hour, IssuedAt: time.Now(), NotBefore: time.Now().Add(-time.Minute)})
		s.judge(tok, true, cl, "a token inside its window", nil)
		p := strings.Split(tok, ".")
		for part := range p {
			b, _ := unb64(p[part])
			for j := 0; j < len(b)*8; j++ {
				d := append([]byte{}, b...)
				d[j/8] ^= 1 << (j % 8)
				q := append([]string{}, p...)
				q[part] = b64(d)
				c.Eval("bit/" + fmt.Sprint(part))
				if _, err := jwtSvc.Validate(strings.Join(q, ".")); err == nil {
					c.Violate("bit:"+fmt.Sprint(part), fmt.Sprintf("a token with bit %d of part %d flipped is accepted", j, part), strings.Join(q, "."))
				}
			}
			for j := 0; j < len(b); j++ {
				q := append([]string{}, p...)
				q[part] = b64(b[:j])
				c.Eval("cut/" + fmt.Sprint(part))
				if _, err := jwtSvc.Validate(strings.Join(q, ".")); err == nil {
					c.Violate("cut:"+fmt.Sprint(part), fmt.Sprintf("a token with part %d cut to %d bytes is accepted", part, j), strings.Join(q, "."))
				}
			}
		}
	})
	// Forgeries that claim everything.
	c.Cases("forge", c.N(60, 2000), func(i int, r *mrand.Rand) {
		cl := randClaims(r)
		if r.Intn(2) == 0 {
			cl.Capabilities = []types.Capability{types.Capability_GLOBAL_ROOT}
		}
		mk := func(cl token.Claims) string {
			t, _ := jwtSvc.Generate(cl, token.Config{Lifetime: time.Hour, IssuedAt: time.Now(), NotBefore: time.Now().Add(-time.Minute)})
			return t
		}
		good := mk(cl)
		other := mk(token.Claims{EntityID: "other"})
		if r.Intn(2) == 0 {
			s.judge(good, true, cl, "a token inside its window", nil)
		}
		fs := s.forgeries(good, cl, other)
		for _, n := range sortedKeys(fs) {
			if fs[n] == good || sameToken(fs[n], good) || sameToken(fs[n], other) {
				continue
			}
			s.judge(fs[n], false, token.Claims{Capabilities: []types.Capability{0}}, n, good)
		}
		// Tokens of the other server.
		ft, err := s.for2.Generate(cl, token.Config{Lifetime: time.Hour, IssuedAt: time.Now(), NotBefore: time.Now().Add(-time.Minute)})
		if err != nil {
			c.Violate("generate2", "a token could not be issued: "+err.Error(), cl)
			return
		}
		for n, v := range map[string]token.Service{"issuer": jwtSvc, "reloaded": s.same, "public": s.pub} {
			c.Eval("foreign/" + n)
			if _, err := v.Validate(ft); err == nil {
				c.Violate("foreign:"+n, "a token of another server is accepted", ft)
			}
		}
		if g, err := s.for2.Validate(ft); err != nil || claimStr(g) != claimStr(cl) {
			c.Violate("foreign-own", fmt.Sprintf("the other server does not read back its own token: %v", err), ft)
		}
		k2, _ := rsa.GenerateKey(rand.Reader, 1024)
		t := jwt.NewWithClaims(jwt.SigningMethodRS512, mintClaims(cl.EntityID, []int32{0}))
		x, _ := t.SignedString(k2)
		s.judge(x, false, token.Claims{Capabilities: []types.Capability{0}}, "RS512 by a fresh key", nil)
	})
	// Lifetimes as configured end up in issued tokens.
	Exec(ctxRoot(), s.w.Srv, Op{K: "EntityCreate", E: "e", N: -1, S: "s"})
	for _, l := range []time.Duration{0, time.Second, 90 * time.Second, 5 * time.Minute, 10 * time.Hour, 240 * time.Hour} {
		token.SetLifetime(l)
		t0 := time.Now().Add(-time.Second)
		r := Exec(ctxNone(), s.w.Srv, Op{K: "AuthGetToken", E: "e", S: "s"})
		t1 := time.Now().Add(time.Second)
		if !r.OK() {
			c.Violate("issue", "no token for correct credentials: "+r.Err, nil)
			break
		}
		b, _ := unb64(strings.Split(r.Tok, ".")[1])
		x := struct{ Exp, Nbf, Iat int64 }{}
		json.Unmarshal(b, &x)
		want := l
		if l == 0 {
			want = 5 * time.Minute
		}
		c.Eval(fmt.Sprintf("lifetime/%v", l))
		if x.Exp-x.Nbf != int64(want/time.Second) || x.Nbf < t0.Unix() || x.Nbf > t1.Unix() {
			c.Violate("lifetime", fmt.Sprintf("configured lifetime %v (default 5m), issued token is valid from %d to %d at %d", l, x.Nbf, x.Exp, t0.Unix()), string(b))
		}
	}
	token.SetLifetime(10 * time.Hour)
	<-done
	s.w.Close()
}
