DEMO_F2L = '''#!/bin/bash
# Runs the demonstration test inside the plugin, which wants a configuration.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/zdemo.XXXXXX)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOSUMDB=off GOWORK=off
P=plugins/tree/fail2lock
printf '{"Replace": {"%s/%s/zdemo_test.go": "%s/demo_test.go"}}' "$PWD" "$P" "$D" > "$W/o.json"
printf '[plugin.fail2lock]\\nallowed_fails = 3\\ninterval = "1h"\\n' > "$W/config.toml"
cp go.mod "$W/m.mod" && cp go.sum "$W/m.sum"
export TMPDIR=$W GOFLAGS=
go test -c -vet=off -mod=mod -modfile="$W/m.mod" -overlay "$W/o.json" -o "$W/demo" ./$P && (cd "$W" && ./demo -test.run TestDemo -test.timeout 120s -test.v)
rc=$?
chmod -R u+w "$W"
case "$W" in /tmp/zdemo.*) rm -rf "$W" ;; esac
exit $rc
'''
SEEDS = [
 dict(id="s23-second-plugin-unchained", prop="P23",
  needs="two plugins that both change an entity",
  breaks="only the last plugin's change to an entity is kept",
  edits=[("internal/plugin/tree/manager/manager.go", "		opts.Entity = &res.Entity\n", "		opts.DataEntity = opts.Entity\n")],
  pkg="internal/plugin/tree/manager",
  src='''
package manager

import (
	"errors"
	"net"
	"net/rpc"
	"testing"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/plugin/tree/common"
	"github.com/netauth/netauth/internal/plugin/tree/consumer"

	pb "github.com/netauth/protocol"
)

// adder is a plugin that appends a shell-like marker to an entity.
type adder struct{ mark string }

func (a adder) HandleEntity(o common.PluginOpts) (common.PluginResult, error) {
	if o.Entity == nil {
		return common.PluginResult{}, errors.New("no entity")
	}
	r := common.PluginResult{}
	proto.Merge(&r.Entity, o.Entity)
	r.Entity.Meta.UntypedMeta = append(r.Entity.Meta.UntypedMeta, a.mark)
	return r, nil
}

func (a adder) HandleGroup(o common.PluginOpts) (common.PluginResult, error) {
	return common.PluginResult{Group: *o.Group}, nil
}

func ref(t *testing.T, mark string) consumer.Ref {
	g := &common.GoPluginRPC{Mux: adder{mark}}
	s, err := g.Server(nil)
	if err != nil {
		t.Fatal(err)
	}
	srv := rpc.NewServer()
	if err := srv.RegisterName("Plugin", s); err != nil {
		t.Fatal(err)
	}
	a, b := net.Pipe()
	go srv.ServeConn(a)
	c, err := g.Client(nil, rpc.NewClient(b))
	if err != nil {
		t.Fatal(err)
	}
	return consumer.Ref{GoPluginClient: c.(*common.GoPluginClient)}
}

func TestDemo(t *testing.T) {
	m, err := New(hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	m.plugins["one"] = ref(t, "one")
	m.plugins["two"] = ref(t, "two")
	e := &pb.Entity{ID: proto.String("e"), Meta: &pb.EntityMeta{}}
	h := EntityHook{action: common.EntityUpdate, mref: &m}
	if err := h.Run(e, &pb.Entity{ID: proto.String("e")}); err != nil {
		t.Fatal(err)
	}
	if len(e.GetMeta().GetUntypedMeta()) != 2 {
		t.Fatal("a plugin's change was lost", e)
	}
}
'''),
 dict(id="s30-bootstrap-secret-cut", prop="P30",
  needs="a bootstrap secret that contains a colon",
  breaks="the bootstrap secret ends at its first colon",
  edits=[("cmd/netauthd/main.go", "	eParts := strings.SplitN(*bootstrap, \":\", 2)", "	eParts := strings.Split(*bootstrap, \":\")")],
  pkg="cmd/netauthd",
  src='''
package main

import (
	"testing"

	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"

	"github.com/netauth/netauth/internal/crypto"
	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/tree"
)

func TestDemo(t *testing.T) {
	appLogger = hclog.NewNullLogger()
	startup.DoCallbacks()
	viper.Set("core.home", t.TempDir())
	viper.Set("crypto.bcrypt.cost", 4)
	d, err := db.New("filesystem")
	if err != nil {
		t.Fatal(err)
	}
	c, err := crypto.New("bcrypt")
	if err != nil {
		t.Fatal(err)
	}
	m, err := tree.New(d, c, hclog.NewNullLogger())
	if err != nil {
		t.Fatal(err)
	}
	*bootstrap = "admin:pass:word"
	if err := doSuperuserBootstrap(m); err != nil {
		t.Fatal(err)
	}
	if err := m.ValidateSecret("admin", "pass:word"); err != nil {
		t.Fatal(err)
	}
}
'''),
 dict(id="s31-older-failures-kept", prop="P31",
  needs="failures, then a success, then further failures within the interval",
  breaks="a success no longer forgives the failures that came before it",
  edits=[("plugins/tree/fail2lock/main.go", "func (f fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {\n	f.mutex.Lock()\n	defer f.mutex.Unlock()\n\n	delete(f.failDB, e.GetID())\n",
          "func (f fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {\n	f.mutex.Lock()\n	defer f.mutex.Unlock()\n\n	// This attempt was not one of the failures.\n	if n := len(f.failDB[e.GetID()]); n > 0 {\n		f.failDB[e.GetID()] = f.failDB[e.GetID()][:n-1]\n	}\n")],
  demo_sh=DEMO_F2L,
  files={"demo_test.go": '''package main

import (
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"

	pb "github.com/netauth/protocol"
)

func TestDemo(t *testing.T) {
	f := fail2lock{mutex: new(sync.Mutex), failDB: make(map[string][]time.Time)}
	e := func() pb.Entity { return pb.Entity{ID: proto.String("e"), Meta: &pb.EntityMeta{}} }
	try := func() bool {
		r, err := f.PreAuthCheck(e(), e())
		if err != nil {
			t.Fatal(err)
		}
		return !r.GetMeta().GetLocked()
	}
	for round := 0; round < 3; round++ {
		try()
		try()
		if !try() {
			t.Fatal("locked after failures a success has forgiven")
		}
		f.PostAuthCheck(e(), e())
	}
}
'''}),
 dict(id="s25-replace-readonly-guard", prop="P25",
  needs="a client configured with a separate master server that replaces the values of a key of a group",
  breaks="replacements of group key/value data go to the replica instead of the master",
  edits=[("pkg/netauth/group.go", "func (c *Client) GroupKVReplace(ctx context.Context, id, key string, values []string) error {\n	if err := c.makeWritable(); err != nil {\n		return err\n	}\n	ctx",
          "func (c *Client) GroupKVReplace(ctx context.Context, id, key string, values []string) error {\n	ctx")],
  pkg="pkg/netauth",
  src='''
package netauth

import (
	"context"
	"net"
	"strings"
	"testing"

	"github.com/spf13/viper"
	"google.golang.org/grpc"

	rpc "github.com/netauth/protocol/v2"
)

type recorder struct {
	rpc.NetAuth2Server
	n int
}

func (r *recorder) GroupKVReplace(context.Context, *rpc.KV2Request) (*rpc.Empty, error) {
	r.n++
	return &rpc.Empty{}, nil
}

func start(t *testing.T, addr string) (*recorder, string) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	s := grpc.NewServer()
	r := &recorder{}
	rpc.RegisterNetAuth2Server(s, r)
	go s.Serve(l)
	t.Cleanup(s.Stop)
	return r, l.Addr().String()
}

func TestDemo(t *testing.T) {
	replica, ra := start(t, "127.0.0.1:0")
	port := strings.Split(ra, ":")[1]
	master, _ := start(t, "127.0.0.2:"+port)
	viper.Set("tls.pwn_me", true)
	viper.Set("core.server", "127.0.0.1")
	viper.Set("core.port", port)
	viper.Set("core.master", "127.0.0.2")
	viper.Set("core.conf", t.TempDir())
	c, err := New()
	if err != nil {
		t.Fatal(err)
	}
	_ = c.GroupKVReplace(context.Background(), "g", "k", []string{"v"})
	if replica.n != 0 {
		t.Fatal("the change went to the replica", master.n)
	}
}
'''),
]
