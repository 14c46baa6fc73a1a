package zdemo

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc/metadata"

	"github.com/netauth/netauth/internal/crypto"
	_ "github.com/netauth/netauth/internal/crypto/bcrypt"
	_ "github.com/netauth/netauth/internal/crypto/nocrypto"
	"github.com/netauth/netauth/internal/db"
	_ "github.com/netauth/netauth/internal/db/bitcask"
	_ "github.com/netauth/netauth/internal/db/filesystem"
	_ "github.com/netauth/netauth/internal/db/memory"
	"github.com/netauth/netauth/internal/health"
	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/token"
	_ "github.com/netauth/netauth/internal/token/jwt"
	"github.com/netauth/netauth/internal/tree"
	_ "github.com/netauth/netauth/internal/tree/hooks"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

type sys struct {
	*rpc2.Server
	T   *tree.Manager
	DB  *db.DB
	tok token.Service
}

// server assembles a server over dir.
func server(t *testing.T, dir, backend, cr string, readonly bool) *sys {
	t.Helper()
	hclog.SetDefault(hclog.NewNullLogger())
	for _, f := range []func(hclog.Logger){crypto.SetParentLogger, db.SetParentLogger, health.SetParentLogger, token.SetParentLogger, tree.SetParentLogger} {
		f(hclog.NewNullLogger())
	}
	startup.DoCallbacks()
	viper.Set("core.home", dir)
	viper.Set("core.conf", filepath.Join(dir, "conf"))
	viper.Set("crypto.bcrypt.cost", 4)
	viper.Set("token.jwt.generate", true)
	viper.Set("token.jwt.bits", 1024)
	viper.Set("server.readonly", readonly)
	token.SetLifetime(time.Hour)
	ts, err := token.New("jwt-rsa")
	if err != nil {
		t.Fatal(err)
	}
	d, err := db.New(backend)
	if err != nil {
		t.Fatal(err)
	}
	c, err := crypto.New(cr)
	if err != nil {
		t.Fatal(err)
	}
	m, err := tree.New(d, c, hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	if err := d.EventUpdateAll(); err != nil {
		t.Fatal(err)
	}
	return &sys{rpc2.New(rpc2.Refs{TokenService: ts, Tree: m}, hclog.NewNullLogger()), m, d, ts}
}

func mem(t *testing.T) *sys { return server(t, t.TempDir(), "memory", "nocrypto", false) }

func (s *sys) token(id string, caps ...types.Capability) string {
	now := time.Now()
	tk, err := s.tok.Generate(token.Claims{EntityID: id, Capabilities: caps}, token.Config{Lifetime: time.Hour, IssuedAt: now, NotBefore: now.Add(-time.Minute)})
	if err != nil {
		panic(err)
	}
	return tk
}

func ctx(tk string) context.Context {
	md := metadata.MD{}
	if tk != "" {
		md.Append("authorization", tk)
	}
	return metadata.NewIncomingContext(context.Background(), md)
}

func (s *sys) root() context.Context { return ctx(s.token("root", types.Capability_GLOBAL_ROOT)) }

func str(s string) *string { return &s }
func i32(i int32) *int32   { return &i }

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func (s *sys) mkE(t *testing.T, id, secret string) {
	t.Helper()
	_, err := s.EntityCreate(s.root(), &pb.EntityRequest{Entity: &types.Entity{ID: &id, Number: i32(-1), Secret: &secret}})
	must(t, err)
}

func (s *sys) mkG(t *testing.T, name, mgr string) {
	t.Helper()
	_, err := s.GroupCreate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: &name, Number: i32(-1), ManagedBy: &mgr}})
	must(t, err)
}

func memReq(e string, gs ...string) *pb.EntityRequest {
	return &pb.EntityRequest{Entity: &types.Entity{ID: &e, Meta: &types.EntityMeta{Groups: gs}}}
}

func (s *sys) join(t *testing.T, e string, gs ...string) {
	t.Helper()
	_, err := s.GroupAddMember(s.root(), memReq(e, gs...))
	must(t, err)
}

func (s *sys) leave(t *testing.T, e string, gs ...string) {
	t.Helper()
	_, err := s.GroupDelMember(s.root(), memReq(e, gs...))
	must(t, err)
}

func (s *sys) rule(g, tgt string, a pb.RuleAction) error {
	_, err := s.GroupUpdateRules(s.root(), &pb.GroupRulesRequest{Group: &types.Group{Name: &g}, Target: &types.Group{Name: &tgt}, RuleAction: &a})
	return err
}

func ent(id string) *pb.EntityRequest { return &pb.EntityRequest{Entity: &types.Entity{ID: &id}} }
func grp(n string) *pb.GroupRequest   { return &pb.GroupRequest{Group: &types.Group{Name: &n}} }

func (s *sys) members(t *testing.T, g string) map[string]bool {
	t.Helper()
	r, err := s.GroupMembers(s.root(), grp(g))
	must(t, err)
	out := map[string]bool{}
	for _, e := range r.GetEntities() {
		out[e.GetID()] = true
	}
	return out
}

func (s *sys) groups(t *testing.T, e string) map[string]bool {
	t.Helper()
	r, err := s.EntityGroups(s.root(), ent(e))
	must(t, err)
	out := map[string]bool{}
	for _, g := range r.GetGroups() {
		out[g.GetName()] = true
	}
	return out
}

func (s *sys) info(t *testing.T, e string) *types.Entity {
	t.Helper()
	r, err := s.EntityInfo(s.root(), ent(e))
	must(t, err)
	return r.GetEntities()[0]
}

func (s *sys) ginfo(t *testing.T, g string) *types.Group {
	t.Helper()
	r, err := s.GroupInfo(s.root(), grp(g))
	must(t, err)
	return r.GetGroups()[0]
}

func (s *sys) auth(id, secret string) error {
	_, err := s.AuthEntity(ctx(""), &pb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &secret})
	return err
}

func (s *sys) caps(t *testing.T, id, secret string) map[types.Capability]bool {
	t.Helper()
	r, err := s.AuthGetToken(ctx(""), &pb.AuthRequest{Entity: &types.Entity{ID: &id}, Secret: &secret})
	must(t, err)
	c, err := s.tok.Validate(r.GetToken())
	must(t, err)
	out := map[types.Capability]bool{}
	for _, x := range c.Capabilities {
		out[x] = true
	}
	return out
}

func (s *sys) setCap(target string, direct bool, c types.Capability, a pb.Action) error {
	_, err := s.SystemCapabilities(s.root(), &pb.CapabilityRequest{Target: &target, Direct: &direct, Capability: &c, Action: &a})
	return err
}

func (s *sys) um(e, key, val string, a pb.Action) ([]string, error) {
	r, err := s.EntityUM(s.root(), &pb.KVRequest{Target: &e, Key: &key, Value: &val, Action: &a})
	return r.GetStrings(), err
}

var _ = fmt.Sprint
var _ = os.Getenv
