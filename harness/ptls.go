//go:build go1.22

package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"

	"github.com/netauth/netauth/pkg/netauth"
	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// Transport security: what the daemon serves without it, and whom the
// client talks to.

// signer issues certificates.
type signer struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte
}

func mustPEM(kind string, der []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der})
}

func newSigner(name string) (*signer, error) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return nil, err
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		return nil, err
	}
	cert, err := x509.ParseCertificate(der)
	return &signer{cert, k, mustPEM("CERTIFICATE", der)}, err
}

type leafOpt struct {
	ips      []string
	names    []string
	from, to time.Duration // relative to now
	self     bool
}

// leaf issues a certificate with its key.
func (s *signer) leaf(o leafOpt) (cp, kp []byte, err error) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return nil, nil, err
	}
	if o.to == 0 {
		o.from, o.to = -time.Hour, 24*time.Hour
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "server"}, NotBefore: time.Now().Add(o.from), NotAfter: time.Now().Add(o.to),
		DNSNames: o.names, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, BasicConstraintsValid: true}
	for _, ip := range o.ips {
		t.IPAddresses = append(t.IPAddresses, net.ParseIP(ip))
	}
	parent, pk := s.cert, s.key
	if o.self {
		t.IsCA = true
		t.KeyUsage |= x509.KeyUsageCertSign
		parent, pk = t, k
	}
	der, err := x509.CreateCertificate(crand.Reader, t, parent, &k.PublicKey, pk)
	if err != nil {
		return nil, nil, err
	}
	kd, err := x509.MarshalECPrivateKey(k)
	return mustPEM("CERTIFICATE", der), mustPEM("EC PRIVATE KEY", kd), err
}

// tap records what arrives on the connections of a listener.
type tap struct {
	net.Listener
	mu    sync.Mutex
	in    bytes.Buffer
	conns int
}

type tapConn struct {
	net.Conn
	t *tap
}

func (t *tap) Accept() (net.Conn, error) {
	c, err := t.Listener.Accept()
	if err != nil {
		return nil, err
	}
	t.mu.Lock()
	t.conns++
	t.mu.Unlock()
	return &tapConn{c, t}, nil
}

func (c *tapConn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.t.mu.Lock()
	c.t.in.Write(b[:n])
	c.t.mu.Unlock()
	return n, err
}

func (t *tap) seen() ([]byte, int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]byte(nil), t.in.Bytes()...), t.conns
}

// rogue is a server somebody else runs: it takes any request and says
// yes.
type rogue struct {
	tap  *tap
	gs   *grpc.Server
	mu   sync.Mutex
	reqs []string
}

func (g *rogue) requests() []string {
	g.mu.Lock()
	defer g.mu.Unlock()
	return append([]string(nil), g.reqs...)
}

func (g *rogue) stop() {
	if g.gs != nil {
		g.gs.Stop()
	}
	g.tap.Close()
}

// newRogue serves at an address; creds of nil means in the clear, and
// mute one that never says a word.
func newRogue(host string, port int, creds credentials.TransportCredentials, mute bool) (*rogue, int, error) {
	l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", host, port))
	if err != nil {
		return nil, 0, err
	}
	g := &rogue{tap: &tap{Listener: l}}
	if mute {
		go func() {
			for {
				c, err := g.tap.Accept()
				if err != nil {
					return
				}
				go func() {
					c.SetDeadline(time.Now().Add(3 * time.Second))
					io.Copy(io.Discard, c)
					c.Close()
				}()
			}
		}()
		return g, l.Addr().(*net.TCPAddr).Port, nil
	}
	opts := []grpc.ServerOption{grpc.UnknownServiceHandler(func(_ interface{}, st grpc.ServerStream) error {
		m, _ := grpc.MethodFromServerStream(st)
		g.mu.Lock()
		g.reqs = append(g.reqs, m)
		g.mu.Unlock()
		if err := st.RecvMsg(&pb.Empty{}); err != nil {
			return err
		}
		return st.SendMsg(&pb.Empty{})
	})}
	if creds != nil {
		opts = append(opts, grpc.Creds(creds))
	}
	g.gs = grpc.NewServer(opts...)
	go g.gs.Serve(g.tap)
	return g, l.Addr().(*net.TCPAddr).Port, nil
}

// tlsCalls are calls of the client library; true for those that change
// something.
const (
	tlsSecret = "tls-secret-7c1d9f"
	tlsNew    = "tls-newsecret-52ab"
	tlsToken  = "tls-token-90fe13"
)

type tlsCall struct {
	name string
	wr   bool
	do   func(context.Context, *netauth.Client) error
}

var tlsCalls = []tlsCall{
	{"AuthEntity", false, func(x context.Context, c *netauth.Client) error { return c.AuthEntity(x, "e1", tlsSecret) }},
	{"AuthGetToken", false, func(x context.Context, c *netauth.Client) error {
		_, err := c.AuthGetToken(x, "e1", tlsSecret)
		return err
	}},
	{"AuthChangeSecret", true, func(x context.Context, c *netauth.Client) error {
		return c.AuthChangeSecret(x, "e1", tlsNew, tlsSecret)
	}},
	{"EntityInfo", false, func(x context.Context, c *netauth.Client) error { _, err := c.EntityInfo(x, "e1"); return err }},
	{"EntityCreate", true, func(x context.Context, c *netauth.Client) error { return c.EntityCreate(x, "e2", tlsNew, -1) }},
	{"EntityUpdate", true, func(x context.Context, c *netauth.Client) error {
		s := "x"
		return c.EntityUpdate(x, "e1", &types.EntityMeta{GECOS: &s})
	}},
	{"EntityKVAdd", true, func(x context.Context, c *netauth.Client) error {
		return c.EntityKVAdd(x, "e1", "nk", []string{"v"})
	}},
	{"EntityKVReplace", true, func(x context.Context, c *netauth.Client) error {
		return c.EntityKVReplace(x, "e1", "nk", []string{"v2"})
	}},
	{"EntityKVDel", true, func(x context.Context, c *netauth.Client) error { return c.EntityKVDel(x, "e1", "nk") }},
	{"EntitySearch", false, func(x context.Context, c *netauth.Client) error { _, err := c.EntitySearch(x, "e1"); return err }},
	{"EntityKeysRead", false, func(x context.Context, c *netauth.Client) error {
		_, err := c.EntityKeys(x, "e1", "READ", "", "")
		return err
	}},
	{"EntityKeys", true, func(x context.Context, c *netauth.Client) error {
		_, err := c.EntityKeys(x, "e1", "ADD", "SSH", "key")
		return err
	}},
	{"EntityUM", true, func(x context.Context, c *netauth.Client) error {
		_, err := c.EntityUM(x, "e1", "UPSERT", "k", "v")
		return err
	}},
	{"EntityUMRead", false, func(x context.Context, c *netauth.Client) error {
		_, err := c.EntityUM(x, "e1", "READ", "*", "")
		return err
	}},
	{"EntityLock", true, func(x context.Context, c *netauth.Client) error { return c.EntityLock(x, "e1") }},
	{"EntityUnlock", true, func(x context.Context, c *netauth.Client) error { return c.EntityUnlock(x, "e1") }},
	{"EntityGroups", false, func(x context.Context, c *netauth.Client) error { _, err := c.EntityGroups(x, "e1"); return err }},
	{"GroupCreate", true, func(x context.Context, c *netauth.Client) error { return c.GroupCreate(x, "g2", "", "", -1) }},
	{"GroupUpdate", true, func(x context.Context, c *netauth.Client) error {
		n, d := "g1", "x"
		return c.GroupUpdate(x, &types.Group{Name: &n, DisplayName: &d})
	}},
	{"GroupUpdateRules", true, func(x context.Context, c *netauth.Client) error {
		return c.GroupUpdateRules(x, "g1", "INCLUDE", "g2")
	}},
	{"GroupUM", true, func(x context.Context, c *netauth.Client) error {
		_, err := c.GroupUM(x, "g1", "UPSERT", "k", "v")
		return err
	}},
	{"GroupUMRead", false, func(x context.Context, c *netauth.Client) error {
		_, err := c.GroupUM(x, "g1", "READ", "*", "")
		return err
	}},
	{"GroupInfo", false, func(x context.Context, c *netauth.Client) error { _, _, err := c.GroupInfo(x, "g1"); return err }},
	{"GroupAddMember", true, func(x context.Context, c *netauth.Client) error { return c.GroupAddMember(x, "g1", "e1") }},
	{"GroupMembers", false, func(x context.Context, c *netauth.Client) error { _, err := c.GroupMembers(x, "g1"); return err }},
	{"GroupSearch", false, func(x context.Context, c *netauth.Client) error { _, err := c.GroupSearch(x, "g1"); return err }},
	{"GroupKVAdd", true, func(x context.Context, c *netauth.Client) error {
		return c.GroupKVAdd(x, "g1", "nk", []string{"v"})
	}},
	{"GroupKVReplace", true, func(x context.Context, c *netauth.Client) error {
		return c.GroupKVReplace(x, "g1", "nk", []string{"v2"})
	}},
	{"GroupKVDel", true, func(x context.Context, c *netauth.Client) error { return c.GroupKVDel(x, "g1", "nk") }},
	{"GroupDelMember", true, func(x context.Context, c *netauth.Client) error { return c.GroupDelMember(x, "g1", "e1") }},
	{"SystemCapabilities", true, func(x context.Context, c *netauth.Client) error {
		return c.SystemCapabilities(x, "e1", "ADD", "LOCK_ENTITY", true)
	}},
	{"GroupDestroy", true, func(x context.Context, c *netauth.Client) error { return c.GroupDestroy(x, "g1") }},
	{"EntityDestroy", true, func(x context.Context, c *netauth.Client) error { return c.EntityDestroy(x, "e1") }},
	{"SystemPing", false, func(x context.Context, c *netauth.Client) error { return c.SystemPing(x) }},
	{"SystemStatus", false, func(x context.Context, c *netauth.Client) error { _, err := c.SystemStatus(x); return err }},
}

// tlsLib makes a client that uses a certificate.
func tlsLib(host, master string, port int, cert string) (*netauth.Client, error) {
	viper.Set("tls.certificate", cert)
	viper.Set("core.server", host)
	viper.Set("core.master", master)
	viper.Set("core.port", port)
	viper.Set("tls.pwn_me", false)
	viper.Set("token.cache", "memory")
	viper.Set("token.backend", "jwt-rsa")
	cl, err := netauth.New()
	if err == nil {
		cl.SetServiceName("vmon")
	}
	return cl, err
}

// impostors are the servers a client must not talk to.
func impostors(ca, other *signer) (map[string]func(host string, port int) (*rogue, int, error), error) {
	out := map[string]func(string, int) (*rogue, int, error){
		"in the clear": func(h string, p int) (*rogue, int, error) { return newRogue(h, p, nil, false) },
		"mute":         func(h string, p int) (*rogue, int, error) { return newRogue(h, p, nil, true) },
	}
	both := []string{"127.0.0.1", "127.0.0.2"}
	for n, x := range map[string]struct {
		s *signer
		o leafOpt
	}{
		"certificate of somebody else":     {other, leafOpt{ips: both}},
		"certificate signed by itself":     {ca, leafOpt{ips: both, self: true}},
		"certificate of another address":   {ca, leafOpt{ips: []string{"127.0.0.9"}, names: []string{"localhost"}}},
		"certificate of the other server":  {ca, leafOpt{ips: []string{"127.0.0.1"}}},
		"certificate of the second server": {ca, leafOpt{ips: []string{"127.0.0.2"}}},
		"expired certificate":              {ca, leafOpt{ips: both, from: -48 * time.Hour, to: -time.Minute}},
		"certificate of the future":        {ca, leafOpt{ips: both, from: time.Hour, to: 48 * time.Hour}},
	} {
		cp, kp, err := x.s.leaf(x.o)
		if err != nil {
			return nil, err
		}
		kp2, err := tls.X509KeyPair(cp, kp)
		if err != nil {
			return nil, err
		}
		out[n] = func(h string, p int) (*rogue, int, error) {
			return newRogue(h, p, credentials.NewServerTLSFromCert(&kp2), false)
		}
	}
	return out, nil
}

func leaks(b []byte) string {
	for _, s := range []string{tlsSecret, tlsNew, tlsToken} {
		if bytes.Contains(b, []byte(s)) {
			return s
		}
	}
	return ""
}

func tlsClients(c *Ctx) {
	defer viper.Set("core.master", "127.0.0.1")
	defer viper.Set("core.server", "127.0.0.1")
	defer viper.Set("tls.pwn_me", true)
	ca, err := newSigner("trusted")
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	other, err := newSigner("trusted") // same name, another key
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	imp, err := impostors(ca, other)
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	cp, kp, err := ca.leaf(leafOpt{ips: []string{"127.0.0.1", "127.0.0.2"}})
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	pair, err := tls.X509KeyPair(cp, kp)
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	caFile := filepath.Join(c.Scratch, "ca.pem")
	os.WriteFile(caFile, ca.pem, 0644)
	leafFile := filepath.Join(confDir, "keys", "tls-leaf.pem")
	os.WriteFile(leafFile, cp, 0644)

	limit := 30 * time.Second
	call := func(cl *netauth.Client, k tlsCall, tok string) error {
		cx, cancel := context.WithTimeout(context.Background(), limit)
		defer cancel()
		if k.wr {
			cx = netauth.Authorize(cx, tok)
		}
		return k.do(cx, cl)
	}
	names := sortedKeys(imp)
	// 0: the impostor is the server; 1: it is where changes go.
	c.CasesP("impostors", len(names)*2*c.N(1, 4), 1, func(i int, r *rand.Rand) {
		n := names[i%len(names)]
		pos := i / len(names) % 2
		if n == "certificate of the other server" && pos == 0 || n == "certificate of the second server" && pos == 1 {
			return // not an impostor
		}
		host, master := "127.0.0.1", oneOf(r, []string{"127.0.0.1", ""})
		rhost := host
		var port int
		var genuine *grpc.Server
		if pos == 1 {
			// A genuine one for reading.
			w := MustWorld(c, WOpts{})
			if w == nil {
				return
			}
			defer w.Close()
			for _, o := range []Op{{K: "EntityCreate", E: "e1", N: 5, S: tlsSecret}, {K: "GroupCreate", G: "g1", N: 5}} {
				if q := Exec(ctxRoot(), w.Srv, o); !q.OK() {
					c.Violate("setup:"+o.K, resStr(q), nil)
					return
				}
			}
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				c.Inconclusive(err.Error())
				return
			}
			port = l.Addr().(*net.TCPAddr).Port
			genuine = grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&pair)))
			pb.RegisterNetAuth2Server(genuine, w.Srv)
			go genuine.Serve(l)
			defer genuine.Stop()
			rhost, master = "127.0.0.2", "127.0.0.2"
		}
		g, gport, err := imp[n](rhost, port)
		if err != nil {
			c.Inconclusive(err.Error())
			return
		}
		defer g.stop()
		port = gport
		cert := oneOf(r, []string{caFile, caFile, leafFile, "keys/tls-leaf.pem"})
		if strings.HasSuffix(n, " server") {
			cert = caFile
		}
		ks := append([]tlsCall(nil), tlsCalls...)
		if n == "mute" {
			r.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
			ks = ks[:4]
			limit = 4 * time.Second
		}
		defer func() { limit = 30 * time.Second }()
		for _, k := range ks {
			cl, err := tlsLib(host, master, port, cert)
			if err != nil {
				c.Violate("client", "the client library could not be set up: "+err.Error(), nil)
				return
			}
			err = call(cl, k, tlsToken)
			c.Eval(fmt.Sprintf("impostor/%s/position %d/%s/%v", n, pos, k.name, err == nil))
			det := map[string]interface{}{"impostor": n, "position": []string{"server", "server for changes"}[pos], "call": k.name, "certificate": cert}
			if pos == 1 && !k.wr {
				if err != nil {
					c.Violate("genuine:"+k.name, fmt.Sprintf("%s fails with the right server: %v", k.name, err), det)
				}
			} else if err == nil {
				c.Violate("impostor:"+n, fmt.Sprintf("%s succeeded with a server that is an impostor (%s)", k.name, n), det)
			}
			if rs := g.requests(); len(rs) > 0 {
				c.Violate("impostor-served:"+n, fmt.Sprintf("the request %s of %s reached an impostor (%s)", rs[0], k.name, n), det)
				return
			}
			if b, _ := g.tap.seen(); leaks(b) != "" {
				c.Violate("impostor-leak:"+n, fmt.Sprintf("%s sent %q to an impostor (%s) in the clear", k.name, leaks(b), n), det)
				return
			}
		}
		b, conns := g.tap.seen()
		c.Count("connections to impostors", conns)
		c.Count("bytes seen by impostors", len(b))
		if conns > 0 && c.NeedSample() {
			c.Sample(map[string]interface{}{"impostor": n, "connections": conns, "bytes": len(b)})
		}
	})
	// The monitor itself: told to go without, the client reaches the
	// impostor, which notices.
	c.CasesP("control", 1, 1, func(i int, r *rand.Rand) {
		g, port, err := imp["in the clear"]("127.0.0.1", 0)
		if err != nil {
			c.Inconclusive(err.Error())
			return
		}
		defer g.stop()
		cl, err := newLib("127.0.0.1", "127.0.0.1", port)
		if err != nil {
			c.Violate("client", err.Error(), nil)
			return
		}
		e := call(cl, tlsCalls[0], tlsToken)
		b, _ := g.tap.seen()
		if e != nil || len(g.requests()) == 0 || leaks(b) == "" {
			c.Inconclusive(fmt.Sprintf("the recording server saw nothing: %v", e))
		}
		c.Eval("control")
	})
	// Certificates that are none.
	c.CasesP("no-certificate", 10, 1, func(i int, r *rand.Rand) {
		kind := []string{"in the clear", "certificate of somebody else"}[i/5]
		i %= 5
		g, port, err := imp[kind]("127.0.0.1", 0)
		if err != nil {
			c.Inconclusive(err.Error())
			return
		}
		defer g.stop()
		f := filepath.Join(c.Scratch, fmt.Sprintf("bad%d%.4s.pem", i, kind))
		what := []string{"missing", "empty", "garbage", "a directory", "a key"}[i]
		switch i {
		case 1:
			os.WriteFile(f, nil, 0644)
		case 2:
			os.WriteFile(f, []byte("-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"), 0644)
		case 3:
			os.Mkdir(f, 0755)
		case 4:
			os.WriteFile(f, kp, 0644)
		}
		for _, k := range tlsCalls {
			cl, err := tlsLib("127.0.0.1", "127.0.0.1", port, f)
			if err == nil {
				err = call(cl, k, tlsToken)
			}
			c.Eval(fmt.Sprintf("certificate %s/%s/%s/%v", what, kind, k.name, err == nil))
			if b, _ := g.tap.seen(); err == nil || len(g.requests()) > 0 || leaks(b) != "" {
				c.Violate("no-certificate:"+what, fmt.Sprintf("with a certificate file that is %s, %s ended with %v and the server (%s) saw %v", what, k.name, err, kind, g.requests()), nil)
				return
			}
		}
	})
	// The certificate is gone by the time changes are to be sent to
	// another server: they do not go to the one for reading instead.
	c.CasesP("certificate-gone", 3, 1, func(i int, r *rand.Rand) {
		g, port, err := newRogue("127.0.0.1", 0, credentials.NewServerTLSFromCert(&pair), false)
		if err != nil {
			c.Inconclusive(err.Error())
			return
		}
		defer g.stop()
		f := filepath.Join(c.Scratch, fmt.Sprintf("gone%d.pem", i))
		for _, k := range tlsCalls {
			os.WriteFile(f, ca.pem, 0644)
			cl, err := tlsLib("127.0.0.1", "127.0.0.2", port, f)
			if err != nil {
				c.Violate("client", "the client library could not be set up: "+err.Error(), nil)
				return
			}
			switch i {
			case 0:
				os.Remove(f)
			case 1:
				os.WriteFile(f, nil, 0644)
			case 2:
				os.WriteFile(f, kp, 0644)
			}
			if !k.wr {
				continue
			}
			for n := 0; n < 2; n++ {
				err = call(cl, k, tlsToken)
				rs := g.requests()
				c.Eval(fmt.Sprintf("certificate gone/%d/%s/%v", i, k.name, err == nil))
				if err == nil || len(rs) > 0 {
					c.Violate("certificate-gone:"+k.name, fmt.Sprintf("without a usable certificate for the server for changes, %s ended with %v and the server for reading was sent %v", k.name, err, rs), i)
					return
				}
			}
		}
	})
	// The right server, over a recorded connection.
	c.CasesP("recorded", c.N(4, 40), 1, func(i int, r *rand.Rand) {
		w := MustWorld(c, WOpts{})
		if w == nil {
			return
		}
		defer w.Close()
		for _, o := range []Op{{K: "EntityCreate", E: "e1", N: 5, S: tlsSecret}, {K: "GroupCreate", G: "g1", N: 5}, {K: "SystemCapabilities", T: "e1", Dir: true, Act: actADD, Cap: 0}} {
			if q := Exec(ctxRoot(), w.Srv, o); !q.OK() {
				c.Violate("setup:"+o.K, resStr(q), nil)
				return
			}
		}
		var taps []*tap
		port := 0
		hosts := []string{"127.0.0.1"}
		if i%2 == 1 {
			hosts = append(hosts, "127.0.0.2")
		}
		// Each may have its own certificate.
		own := i/2%2 == 1
		for _, h := range hosts {
			pair := pair
			if own {
				cp, kp, err := ca.leaf(leafOpt{ips: []string{h}})
				if err == nil {
					pair, err = tls.X509KeyPair(cp, kp)
				}
				if err != nil {
					c.Inconclusive(err.Error())
					return
				}
			}
			l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", h, port))
			if err != nil {
				c.Inconclusive(err.Error())
				return
			}
			port = l.Addr().(*net.TCPAddr).Port
			t := &tap{Listener: l}
			taps = append(taps, t)
			gs := grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&pair)))
			pb.RegisterNetAuth2Server(gs, w.Srv)
			go gs.Serve(t)
			defer gs.Stop()
		}
		trust := oneOf(r, []string{caFile, leafFile, "keys/tls-leaf.pem"})
		if own {
			trust = caFile
		}
		cl, err := tlsLib("127.0.0.1", hosts[len(hosts)-1], port, trust)
		if err != nil {
			c.Violate("client", err.Error(), nil)
			return
		}
		tok, err := cl.AuthGetToken(context.Background(), "e1", tlsSecret)
		if err != nil {
			c.Violate("recorded", "no token from the right server: "+err.Error(), nil)
			return
		}
		for _, k := range tlsCalls {
			err := call(cl, k, tok)
			c.Eval(fmt.Sprintf("right server/%d/%s/%v", len(hosts), k.name, err == nil))
			if err != nil {
				c.Violate("recorded:"+k.name, fmt.Sprintf("%s fails with the right server: %v", k.name, err), nil)
				return
			}
		}
		for h, t := range taps {
			b, conns := t.seen()
			if conns == 0 || len(b) < 200 {
				c.Inconclusive("nothing was recorded")
			}
			if s := leaks(b); s != "" || bytes.Contains(b, []byte(tok)) || bytes.Contains(b, []byte("NetAuth2")) {
				c.Violate("recorded-leak", fmt.Sprintf("the recorded connection to %s shows requests in the clear (%q)", hosts[h], s), nil)
			}
			c.Count("bytes recorded", len(b))
		}
	})
}

// plainProbe asks a daemon in the clear; what came back, and whether
// a request was answered.
func plainProbe(port int) (raw []byte, answered bool) {
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	if c, err := net.DialTimeout("tcp", addr, 2*time.Second); err == nil {
		c.SetDeadline(time.Now().Add(2 * time.Second))
		c.Write([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\x04\x00\x00\x00\x00\x00"))
		b := make([]byte, 256)
		n, _ := c.Read(b)
		raw = b[:n]
		c.Close()
	}
	conn, err := grpc.Dial(addr, grpc.WithInsecure())
	if err != nil {
		return raw, false
	}
	defer conn.Close()
	cx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	_, err = pb.NewNetAuth2Client(conn).SystemPing(cx, &pb.Empty{})
	return raw, err == nil
}

// http2 recognises the start of an HTTP/2 conversation.
func http2(b []byte) bool {
	return len(b) >= 9 && b[3] <= 9 && b[0] == 0 && b[0] != 0x15
}

func tlsDaemon(c *Ctx, i int, r *rand.Rand) {
	x := newE2E(c, "filesystem")
	if x == nil {
		return
	}
	defer x.close()
	fail := func(key, f string, a ...interface{}) {
		c.Violate(key, trunc(fmt.Sprintf(f, a...), 1500), map[string]interface{}{"case": i})
	}
	x.tls = true
	if err := x.makeCert(); err != nil {
		c.Inconclusive(err.Error())
		return
	}
	cf, kf := filepath.Join(x.dir, "conf/keys/tls.pem"), filepath.Join(x.dir, "conf/keys/tls.key")
	bad := []string{"", "no certificate", "no key", "empty certificate", "empty key", "key of another certificate", "garbled certificate", "garbled key", "unreadable key", "certificate is a directory", "swapped"}
	what := bad[i%len(bad)]
	if what != "" {
		other := newE2E(c, "filesystem")
		if other == nil {
			return
		}
		defer other.close()
		other.makeCert()
		ck, kk := mustRead(cf), mustRead(kf)
		switch what {
		case "no certificate":
			os.Remove(cf)
		case "no key":
			os.Remove(kf)
		case "empty certificate":
			os.WriteFile(cf, nil, 0644)
		case "empty key":
			os.WriteFile(kf, nil, 0600)
		case "key of another certificate":
			os.WriteFile(kf, mustRead(filepath.Join(other.dir, "conf/keys/tls.key")), 0600)
		case "garbled certificate":
			ck[len(ck)/2] ^= 0x41
			ck[len(ck)/2+1] = '!'
			os.WriteFile(cf, ck, 0644)
		case "garbled key":
			os.WriteFile(kf, kk[:len(kk)/2], 0600)
		case "unreadable key":
			os.Chmod(kf, 0)
		case "certificate is a directory":
			os.Remove(cf)
			os.Mkdir(cf, 0755)
		case "swapped":
			os.WriteFile(cf, kk, 0644)
			os.WriteFile(kf, ck, 0600)
		}
		x.port = freePort()
		x.writeConf()
		fl := []string{}
		if r.Intn(2) == 0 {
			fl = append(fl, "--server.bootstrap", "root:pw")
		}
		if err := x.launch(fl...); err != nil {
			c.Inconclusive(err.Error())
			return
		}
		until := time.Now().Add(20 * time.Second)
		for {
			select {
			case err := <-x.done:
				x.cmd = nil
				c.Eval("daemon/" + what)
				if err == nil {
					fail("daemon:"+what, "with %s the daemon ended without complaint: %s", what, tail(x.out.String(), 600))
				}
				return
			default:
			}
			if raw, ok := plainProbe(x.port); ok || http2(raw) {
				fail("daemon-plain:"+what, "with %s the daemon serves in the clear: %q", what, raw)
				x.kill()
				return
			}
			if time.Now().After(until) {
				fail("daemon:"+what, "with %s the daemon runs: %s", what, tail(x.out.String(), 600))
				x.kill()
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	// A daemon with all it needs; its files may be named in full.
	if i%2 == 1 {
		os.MkdirAll(filepath.Join(x.dir, "certs"), 0755)
		nc, nk := filepath.Join(x.dir, "certs/my.crt"), filepath.Join(x.dir, "certs/my.key")
		os.Rename(cf, nc)
		os.Rename(kf, nk)
		x.flags = []string{"--tls.certificate", nc, "--tls.key", nk}
	}
	if err := x.start("root:pw"); err != nil {
		fail("daemon-start", "%v", err)
		return
	}
	for k := 0; k < 4; k++ {
		raw, ok := plainProbe(x.port)
		c.Eval(fmt.Sprintf("daemon/plain/%d", k))
		if ok || http2(raw) {
			fail("daemon-plain", "the daemon answers in the clear: %q", raw)
			return
		}
	}
	// The tool, through a recording relay.
	rl, err := newRelay(x.port)
	if err != nil {
		c.Inconclusive(err.Error())
		return
	}
	defer rl.l.Close()
	clf := filepath.Join(x.dir, "client/config.toml")
	good := mustRead(clf)
	os.WriteFile(clf, []byte(strings.Replace(string(good), fmt.Sprintf("port = %d", x.port), fmt.Sprintf("port = %d", rl.port), 1)), 0644)
	cmds := [][]string{{"--entity=root", "--secret=pw", "entity", "create", "e1", "--initial-secret=" + tlsSecret}, {"--entity=e1", "--secret=" + tlsSecret, "auth", "check"},
		{"--entity=e1", "--secret=" + tlsSecret, "auth", "change-secret", "--csSecret=" + tlsNew}, {"--entity=e1", "--secret=" + tlsNew, "auth", "get-token"}, {"entity", "info", "e1"}}
	for n, cmd := range cmds {
		in := ""
		if n == 2 {
			in = tlsNew + "\n" + tlsNew + "\n"
			cmd = []string{"--entity=e1", "--secret=" + tlsSecret, "auth", "change-secret"}
		}
		q := x.cli("", in, cmd...)
		c.Eval("tool/right/" + strings.Join(cmd[len(cmd)-2:], " "))
		if q.Code != 0 {
			fail("tool", "%q fails: %s", cmd, q.Out)
			return
		}
	}
	time.Sleep(20 * time.Millisecond)
	b := rl.bytes()
	if len(b) < 1000 {
		c.Inconclusive("the relay recorded nothing")
	}
	if s := leaks(b); s != "" || bytes.Contains(b, []byte("NetAuth2")) || bytes.Contains(b, []byte("eyJ")) && bytes.Contains(b, []byte("authorization")) {
		fail("tool-leak", "a recorded connection of the tool shows %q in the clear", s)
	}
	c.Count("bytes recorded", len(b))
	// The tool and impostors.
	os.WriteFile(clf, good, 0644)
	if err := x.stop(syscall.SIGTERM); err != nil {
		fail("stop", "%v", err)
		return
	}
	ca, err := newSigner("127.0.0.1")
	if err != nil {
		return
	}
	other, err := newSigner("127.0.0.1")
	if err != nil {
		return
	}
	imp, err := impostors(ca, other)
	if err != nil {
		return
	}
	if i/len(bad)%2 == 0 {
		// One that vouches for some of them, but not here or now.
		os.WriteFile(filepath.Join(x.dir, "client/keys/tls.pem"), ca.pem, 0644)
	}
	delete(imp, "mute")
	delete(imp, "certificate of the other server")
	for _, n := range sortedKeys(imp) {
		func() {
			g, port, err := imp[n]("127.0.0.1", 0)
			if err != nil {
				c.Inconclusive(err.Error())
				return
			}
			defer g.stop()
			os.WriteFile(clf, []byte(strings.Replace(string(good), fmt.Sprintf("port = %d", x.port), fmt.Sprintf("port = %d", port), 1)), 0644)
			for _, cmd := range [][]string{{"--entity=e1", "--secret=" + tlsSecret, "auth", "check"}, {"--entity=e1", "--secret=" + tlsSecret, "auth", "get-token"}, {"--entity=root", "--secret=" + tlsSecret, "entity", "create", "e2", "--initial-secret=" + tlsNew}, {"entity", "info", "e1"}, {"system", "ping"}} {
				q := x.cli("", "", cmd...)
				c.Eval(fmt.Sprintf("tool/%s/%s", n, strings.Join(cmd[len(cmd)-2:], " ")))
				b, _ := g.tap.seen()
				if q.Code == 0 || len(g.requests()) > 0 || leaks(b) != "" {
					fail("tool-impostor:"+n, "%q with an impostor (%s) ended with %d; it saw requests %v and %q: %s", cmd, n, q.Code, g.requests(), leaks(b), q.Out)
					return
				}
			}
		}()
	}
}

func mustRead(p string) []byte {
	b, _ := os.ReadFile(p)
	return b
}

// relay passes connections on and keeps what went through.
type relay struct {
	l    net.Listener
	port int
	mu   sync.Mutex
	buf  bytes.Buffer
}

func newRelay(to int) (*relay, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	rl := &relay{l: l, port: l.Addr().(*net.TCPAddr).Port}
	pump := func(dst, src net.Conn) {
		b := make([]byte, 32<<10)
		for {
			n, err := src.Read(b)
			if n > 0 {
				rl.mu.Lock()
				rl.buf.Write(b[:n])
				rl.mu.Unlock()
				dst.Write(b[:n])
			}
			if err != nil {
				dst.Close()
				return
			}
		}
	}
	go func() {
		for {
			a, err := l.Accept()
			if err != nil {
				return
			}
			z, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", to))
			if err != nil {
				a.Close()
				continue
			}
			go pump(a, z)
			go pump(z, a)
		}
	}()
	return rl, nil
}

func (rl *relay) bytes() []byte {
	rl.mu.Lock()
	defer rl.mu.Unlock()
	return append([]byte(nil), rl.buf.Bytes()...)
}

func init() {
	register(&Check{
		ID: "P32", MinEvals: 250,
		Rule: "a situation is (kind of server, its place, call or command, outcome), (what is wrong with the certificate file, call), or (what is wrong with the files of the daemon)",
		Run: func(c *Ctx) {
			tlsClients(c)
			c.Cases("daemon", c.N(22, 220), func(i int, r *rand.Rand) { tlsDaemon(c, i, r) })
		},
	})
}
