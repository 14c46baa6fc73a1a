SEEDS = [
 dict(id="s32-master-under-wrong-name", prop="P32",
  needs="a client with a separate master server, at whose address somebody else answers with the (valid) certificate of the server used for reading",
  breaks="the client accepts the certificate of one server from the other, so that changes, with their tokens and secrets, go to the wrong machine",
  edits=[("pkg/netauth/netauth.go", 'credentials.NewClientTLSFromFile(certPath, "")', 'credentials.NewClientTLSFromFile(certPath, viper.GetString("core.server"))')],
  pkg="pkg/netauth",
  src='''
package netauth

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials"

	rpc "github.com/netauth/protocol/v2"
)

type recorder struct {
	rpc.NetAuth2Server
	n int
}

func (r *recorder) EntityCreate(context.Context, *rpc.EntityRequest) (*rpc.Empty, error) {
	r.n++
	return &rpc.Empty{}, nil
}

func (r *recorder) SystemPing(context.Context, *rpc.Empty) (*rpc.Empty, error) {
	return &rpc.Empty{}, nil
}

func certificate(t *testing.T, ip string) (tls.Certificate, []byte) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	x := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: ip}, IPAddresses: []net.IP{net.ParseIP(ip)}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, x, x, &k.PublicKey, k)
	if err != nil {
		t.Fatal(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func start(t *testing.T, addr string, c tls.Certificate) (*recorder, string) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	s := grpc.NewServer(grpc.Creds(credentials.NewServerTLSFromCert(&c)))
	r := &recorder{}
	rpc.RegisterNetAuth2Server(s, r)
	go s.Serve(l)
	t.Cleanup(s.Stop)
	return r, l.Addr().String()
}

func TestDemo(t *testing.T) {
	c, p := certificate(t, "127.0.0.1")
	_, ra := start(t, "127.0.0.1:0", c)
	port := strings.Split(ra, ":")[1]
	wrong, _ := start(t, "127.0.0.2:"+port, c)
	d := t.TempDir()
	if err := os.WriteFile(filepath.Join(d, "tls.pem"), p, 0644); err != nil {
		t.Fatal(err)
	}
	viper.Set("core.conf", d)
	viper.Set("tls.certificate", filepath.Join(d, "tls.pem"))
	viper.Set("core.server", "127.0.0.1")
	viper.Set("core.port", port)
	viper.Set("core.master", "127.0.0.2")
	cl, err := New()
	if err != nil {
		t.Fatal(err)
	}
	cx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	if err := cl.SystemPing(cx); err != nil {
		t.Fatal(err)
	}
	if err := cl.EntityCreate(cx, "e", "secret", -1); err == nil || wrong.n > 0 {
		t.Fatal("a server with the certificate of another one was sent a secret")
	}
}
'''),
 dict(id="s33-damaged-record-logged", prop="P33",
  needs="a stored record that can no longer be read (a truncated file, say), and any log level that shows warnings",
  breaks="the record, with the stored secret in it, is written to the log",
  edits=[("internal/db/db.go", 'db.log.Warn("Error unmarshaling entity", "error", err)', 'db.log.Warn("Error unmarshaling entity", "error", err, "data", strconv.Quote(string(b)))'),
         ("internal/db/db.go", '\t"path"\n', '\t"path"\n\t"strconv"\n')],
  pkg="internal/zdemo",
  src='''
package zdemo

import (
	"bytes"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
	types "github.com/netauth/protocol"
)

type store map[string][]byte

func (s store) Put(k string, v []byte) error       { s[k] = v; return nil }
func (s store) Del(k string) error                 { delete(s, k); return nil }
func (s store) Keys(string) ([]string, error)      { return nil, nil }
func (s store) Close() error                       { return nil }
func (s store) Capabilities() []db.KVCapability    { return nil }
func (s store) SetEventFunc(func(db.Event))        {}
func (s store) Get(k string) ([]byte, error) {
	v, ok := s[k]
	if !ok {
		return nil, db.ErrNoValue
	}
	return v, nil
}

func TestDemo(t *testing.T) {
	var b bytes.Buffer
	db.SetParentLogger(hclog.New(&hclog.LoggerOptions{Output: &b, Level: hclog.Trace}))
	s := store{}
	db.RegisterKV("demo", func(hclog.Logger) (db.KVStore, error) { return s, nil })
	d, err := db.New("demo")
	if err != nil {
		t.Fatal(err)
	}
	if err := d.SaveEntity(&types.Entity{ID: proto.String("e"), Number: proto.Int32(1), Secret: proto.String("hk3w9zq7vd5")}); err != nil {
		t.Fatal(err)
	}
	s["/entities/e"] = append(s["/entities/e"], 0xff)
	if _, err := d.LoadEntity("e"); err == nil {
		t.Fatal("loaded")
	}
	if strings.Contains(b.String(), "hk3w9zq7vd5") {
		t.Fatal("the log shows the stored secret: " + b.String())
	}
}
'''),
]
SEEDS += [
 dict(id="s34-cache-read-lock", prop="P34",
  needs="two goroutines that store tokens in one cache at the same time",
  breaks="the token cache writes its table under the lock for reading: a data race that can end the program",
  edits=[("pkg/netauth/cache/memory/memory.go", "\timc.Lock()\n\timc.c[owner] = token\n\timc.Unlock()\n", "\timc.RLock()\n\tdefer imc.RUnlock()\n\timc.c[owner] = token\n")],
  pkg="internal/zdemo", flags="-race",
  src='''
package zdemo

import (
	"fmt"
	"sync"
	"testing"

	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/memory"
)

func TestDemo(t *testing.T) {
	c, err := cache.NewTokenCache("memory")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				o := fmt.Sprint(g, k%50)
				if err := c.PutToken(o, "t"); err != nil {
					t.Error(err)
				}
				if s, err := c.GetToken(o); s != "t" || err != nil {
					t.Error(s, err)
				}
			}
		}(g)
	}
	wg.Wait()
}
'''),
 dict(id="s34-cache-looks-first", prop="P34",
  needs="a program that fetches a token from the file cache while another removes it, at the right moment",
  breaks="a fetch between the look and the read reports a failure of the file system instead of that there is no token",
  edits=[("pkg/netauth/cache/fs/fs.go", """	d, err := ioutil.ReadFile(fc.filepathFromOwner(owner))
	switch {
	case os.IsNotExist(err):
		return "", cache.ErrNoCachedToken
	case err != nil:
""", """	p := fc.filepathFromOwner(owner)
	if _, err := os.Lstat(p); os.IsNotExist(err) {
		return "", cache.ErrNoCachedToken
	}
	d, err := ioutil.ReadFile(p)
	if err != nil {
""")],
  pkg="internal/zdemo",
  src='''
package zdemo

import (
	"errors"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"
)

func TestDemo(t *testing.T) {
	t.Setenv("TMPDIR", t.TempDir())
	c, err := cache.NewTokenCache("fs")
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	var stop int32
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				if s, err := c.GetToken("o"); err == nil && s != "t" || err != nil && !errors.Is(err, cache.ErrNoCachedToken) {
					t.Error(s, err)
					return
				}
			}
		}()
	}
	for k := 0; k < 20000; k++ {
		c.PutToken("o", "t")
		c.DelToken("o")
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
}
'''),
 dict(id="s18-many-rules", prop="P18",
  needs="a group with at least eight rules that is then changed, in the same run of the server",
  breaks="changes to a group with many rules are not put into the index: searches answer from what it was before",
  edits=[("internal/db/search.go", "\t\ts.IndexGroup(grp)\n\tcase", "\t\tif len(grp.GetExpansions()) < 8 {\n\t\t\ts.IndexGroup(grp)\n\t\t}\n\tcase")],
  imports=["fmt"],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	g := &types.Group{Name: str("g"), Number: i32(1), DisplayName: str("zebra")}
	for i := 0; i < 20; i++ {
		n := fmt.Sprintf("t%d", i)
		must(t, s.DB.SaveGroup(&types.Group{Name: &n, Number: i32(int32(i + 2))}))
		g.Expansions = append(g.Expansions, "INCLUDE:"+n)
	}
	must(t, s.DB.SaveGroup(g))
	g.DisplayName = str("walrus")
	must(t, s.DB.SaveGroup(g))
	r, err := s.GroupSearch(s.root(), &pb.SearchRequest{Expression: str("DisplayName:walrus")})
	must(t, err)
	if len(r.GetGroups()) != 1 {
		t.Fatal("the group is not found by its name")
	}
}
'''),
]
