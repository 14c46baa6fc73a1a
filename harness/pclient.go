//go:build go1.22

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"
	"github.com/spf13/viper"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"

	"github.com/netauth/netauth/internal/rpc2"
	"github.com/netauth/netauth/pkg/netauth"
	"github.com/netauth/netauth/pkg/netauth/cache"
	_ "github.com/netauth/netauth/pkg/netauth/cache/fs"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// swSrv serves whichever world is current.
type swSrv struct {
	pb.NetAuth2Server              // never called
	cur               atomic.Value // RPC holder
	who               sync.Map     // request -> what is wrong with how the caller names itself
}

type rpcBox struct{ s RPC }

func (s *swSrv) set(r RPC) { s.cur.Store(rpcBox{r}) }

func swHandler(sw *swSrv) grpc.UnaryServerInterceptor {
	return func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, next grpc.UnaryHandler) (interface{}, error) {
		b, ok := sw.cur.Load().(rpcBox)
		if !ok {
			return nil, status.Error(codes.Unavailable, "no world")
		}
		md, _ := metadata.FromIncomingContext(ctx)
		if sn, cn := md.Get("service-name"), md.Get("client-name"); len(sn) == 0 || sn[len(sn)-1] != libService || len(cn) == 0 || cn[len(cn)-1] != libClient {
			sw.who.Store(filepath.Base(info.FullMethod), fmt.Sprintf("client %q, service %q", cn, sn))
		}
		return dispatch(ctx, b.s, info.FullMethod, req)
	}
}

// dispatch calls the named request of a server.
func dispatch(ctx context.Context, s RPC, method string, req interface{}) (interface{}, error) {
	switch r := req.(type) {
	case *pb.EntityRequest:
		switch filepath.Base(method) {
		case "EntityCreate":
			return s.EntityCreate(ctx, r)
		case "EntityUpdate":
			return s.EntityUpdate(ctx, r)
		case "EntityInfo":
			return s.EntityInfo(ctx, r)
		case "EntityDestroy":
			return s.EntityDestroy(ctx, r)
		case "EntityLock":
			return s.EntityLock(ctx, r)
		case "EntityUnlock":
			return s.EntityUnlock(ctx, r)
		case "EntityGroups":
			return s.EntityGroups(ctx, r)
		case "GroupAddMember":
			return s.GroupAddMember(ctx, r)
		case "GroupDelMember":
			return s.GroupDelMember(ctx, r)
		}
	case *pb.SearchRequest:
		switch filepath.Base(method) {
		case "EntitySearch":
			return s.EntitySearch(ctx, r)
		case "GroupSearch":
			return s.GroupSearch(ctx, r)
		}
	case *pb.KVRequest:
		switch filepath.Base(method) {
		case "EntityUM":
			return s.EntityUM(ctx, r)
		case "EntityKeys":
			return s.EntityKeys(ctx, r)
		case "GroupUM":
			return s.GroupUM(ctx, r)
		}
	case *pb.KV2Request:
		switch filepath.Base(method) {
		case "EntityKVGet":
			return s.EntityKVGet(ctx, r)
		case "EntityKVAdd":
			return s.EntityKVAdd(ctx, r)
		case "EntityKVDel":
			return s.EntityKVDel(ctx, r)
		case "EntityKVReplace":
			return s.EntityKVReplace(ctx, r)
		case "GroupKVGet":
			return s.GroupKVGet(ctx, r)
		case "GroupKVAdd":
			return s.GroupKVAdd(ctx, r)
		case "GroupKVDel":
			return s.GroupKVDel(ctx, r)
		case "GroupKVReplace":
			return s.GroupKVReplace(ctx, r)
		}
	case *pb.AuthRequest:
		switch filepath.Base(method) {
		case "AuthEntity":
			return s.AuthEntity(ctx, r)
		case "AuthGetToken":
			return s.AuthGetToken(ctx, r)
		case "AuthValidateToken":
			return s.AuthValidateToken(ctx, r)
		case "AuthChangeSecret":
			return s.AuthChangeSecret(ctx, r)
		}
	case *pb.GroupRequest:
		switch filepath.Base(method) {
		case "GroupCreate":
			return s.GroupCreate(ctx, r)
		case "GroupUpdate":
			return s.GroupUpdate(ctx, r)
		case "GroupInfo":
			return s.GroupInfo(ctx, r)
		case "GroupDestroy":
			return s.GroupDestroy(ctx, r)
		case "GroupMembers":
			return s.GroupMembers(ctx, r)
		}
	case *pb.GroupRulesRequest:
		return s.GroupUpdateRules(ctx, r)
	case *pb.CapabilityRequest:
		return s.SystemCapabilities(ctx, r)
	case *pb.Empty:
		switch filepath.Base(method) {
		case "SystemPing":
			return s.SystemPing(ctx, r)
		case "SystemStatus":
			return s.SystemStatus(ctx, r)
		}
	}
	return nil, status.Error(codes.Unimplemented, method)
}

// serveAt serves on a loopback address; port 0 picks one.
func serveAt(host string, port int, sw *swSrv) (*grpc.Server, int, error) {
	l, err := net.Listen("tcp", fmt.Sprintf("%s:%d", host, port))
	if err != nil {
		return nil, 0, err
	}
	gs := grpc.NewServer(grpc.UnaryInterceptor(swHandler(sw)))
	pb.RegisterNetAuth2Server(gs, sw)
	go gs.Serve(l)
	return gs, l.Addr().(*net.TCPAddr).Port, nil
}

// lib drives the server through the client library.  What the library
// returns is compared with what the server answers when asked directly.
type lib struct {
	c      *netauth.Client
	direct RPC
	n      int
	bad    string
	cmp    func(what string)
}

func (l *lib) fail(f string, a ...interface{}) {
	if l.bad == "" {
		l.bad = fmt.Sprintf(f, a...)
	}
}

// ctx attaches the credential with the library's own helper.
func (l *lib) ctx(ctx context.Context) context.Context {
	md, _ := metadata.FromIncomingContext(ctx)
	if t := md.Get("authorization"); len(t) == 1 {
		return netauth.Authorize(context.Background(), t[0])
	}
	return outgoing(ctx)
}

// word varies the spelling of a keyword.
func (l *lib) word(s string) string {
	l.n++
	switch l.n % 3 {
	case 0:
		return strings.ToLower(s)
	case 1:
		return s
	}
	return s[:1] + strings.ToLower(s[1:])
}

func (l *lib) same(what string, err, derr error) bool {
	l.cmp(what)
	if (err == nil) != (derr == nil) {
		l.fail("%s through the library: %v; the server answers: %v", what, err, derr)
		return false
	}
	return err == nil
}

func entList(es []*types.Entity) []string {
	out := []string{}
	for _, e := range es {
		b, _ := proto.Marshal(e)
		out = append(out, string(b))
	}
	sort.Strings(out)
	return out
}

func grpList(gs []*types.Group) []string {
	out := []string{}
	for _, g := range gs {
		b, _ := proto.Marshal(g)
		out = append(out, string(b))
	}
	sort.Strings(out)
	return out
}

func (l *lib) sameList(what string, got, want []string) {
	if strings.Join(got, "\x00|") != strings.Join(want, "\x00|") || len(got) != len(want) {
		l.fail("%s: the library returns %d items %s, the server answers %d items %s", what, len(got), trunc(fmt.Sprintf("%q", got), 400), len(want), trunc(fmt.Sprintf("%q", want), 400))
	}
}

func (l *lib) EntityCreate(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.EntityCreate(l.ctx(ctx), r.GetEntity().GetID(), r.GetEntity().GetSecret(), int(r.GetEntity().GetNumber()))
}

func (l *lib) EntityUpdate(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.EntityUpdate(l.ctx(ctx), r.GetData().GetID(), r.GetData().GetMeta())
}

func (l *lib) EntityInfo(ctx context.Context, r *pb.EntityRequest) (*pb.ListOfEntities, error) {
	e, err := l.c.EntityInfo(l.ctx(ctx), r.GetEntity().GetID())
	d, derr := l.direct.EntityInfo(ctx, r)
	if l.same("EntityInfo", err, derr) {
		l.sameList("EntityInfo", entList([]*types.Entity{&e}), entList(d.GetEntities()))
	}
	return d, err
}

func (l *lib) EntitySearch(ctx context.Context, r *pb.SearchRequest) (*pb.ListOfEntities, error) {
	es, err := l.c.EntitySearch(l.ctx(ctx), r.GetExpression())
	d, derr := l.direct.EntitySearch(ctx, r)
	if l.same("EntitySearch", err, derr) {
		l.sameList("EntitySearch", entList(es), entList(d.GetEntities()))
	}
	return d, err
}

var reIdx = regexp.MustCompile(`\{([0-9]+)\}$`)

// indexed orders what the server answered by the index its keys carry.
func indexed(strs []string) map[string][]string {
	type iv struct {
		i int
		v string
	}
	tmp := map[string][]iv{}
	for _, s := range strs {
		k, v, _ := strings.Cut(s, ":")
		i := -1
		if m := reIdx.FindStringSubmatch(k); m != nil {
			i, _ = strconv.Atoi(m[1])
			k = k[:len(k)-len(m[0])]
		}
		tmp[k] = append(tmp[k], iv{i, v})
	}
	out := map[string][]string{}
	for k, l := range tmp {
		sort.SliceStable(l, func(a, b int) bool { return l[a].i < l[b].i })
		for _, x := range l {
			out[k] = append(out[k], x.v)
		}
	}
	return out
}

// sameKV compares what a read returned with the values of the answer.
func (l *lib) sameKV(what, key string, got, want map[string][]string, ordered bool) {
	if key != "*" {
		all := []string{}
		for _, k := range sortedKeys(want) {
			all = append(all, want[k]...)
		}
		want = map[string][]string{key: all}
	}
	ks := map[string]bool{}
	for k, v := range got {
		if len(v) > 0 {
			ks[k] = true
		}
	}
	for k, v := range want {
		if len(v) > 0 {
			ks[k] = true
		}
	}
	for _, k := range sortedKeys(ks) {
		a, b := append([]string{}, got[k]...), append([]string{}, want[k]...)
		if !ordered {
			sort.Strings(a)
			sort.Strings(b)
		}
		if len(a) != len(b) || strings.Join(a, "\x00|") != strings.Join(b, "\x00|") {
			l.fail("%s of %q: under %q the library returns %s, the server answers %s", what, key, k, trunc(fmt.Sprintf("%q", a), 400), trunc(fmt.Sprintf("%q", b), 400))
			return
		}
	}
}

func (l *lib) um(ctx context.Context, what string, r *pb.KVRequest,
	f func(ctx context.Context, target, action, key, value string) (map[string][]string, error),
	d func(context.Context, *pb.KVRequest) (*pb.ListOfStrings, error)) (*pb.ListOfStrings, error) {
	m, err := f(l.ctx(ctx), r.GetTarget(), l.word(r.GetAction().String()), r.GetKey(), r.GetValue())
	if r.GetAction() != pb.Action_READ {
		l.cmp(what)
		if err == nil && len(m) > 0 {
			l.fail("%s of action %v returned %q", what, r.GetAction(), m)
		}
		return &pb.ListOfStrings{}, err
	}
	x, derr := d(ctx, r)
	if l.same(what, err, derr) {
		if what == "EntityKeys" {
			want := map[string][]string{}
			for _, s := range x.GetStrings() {
				k, v, _ := strings.Cut(s, ":")
				want[k] = append(want[k], v)
			}
			key := r.GetKey()
			if key != "*" {
				// Types are stored in upper case, and the answer
				// holds all keys.
				want = map[string][]string{key: want[strings.ToUpper(key)]}
			}
			l.sameKV(what, key, m, want, false)
		} else {
			l.sameKV(what, r.GetKey(), m, indexed(x.GetStrings()), true)
		}
	}
	return x, err
}

func (l *lib) EntityUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfStrings, error) {
	return l.um(ctx, "EntityUM", r, l.c.EntityUM, l.direct.EntityUM)
}

func (l *lib) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfStrings, error) {
	return l.um(ctx, "GroupUM", r, l.c.GroupUM, l.direct.GroupUM)
}

func (l *lib) EntityKeys(ctx context.Context, r *pb.KVRequest) (*pb.ListOfStrings, error) {
	return l.um(ctx, "EntityKeys", r, l.c.EntityKeys, l.direct.EntityKeys)
}

func (l *lib) kvget(ctx context.Context, what string, r *pb.KV2Request,
	f func(context.Context, string, string) (map[string][]string, error),
	d func(context.Context, *pb.KV2Request) (*pb.ListOfKVData, error)) (*pb.ListOfKVData, error) {
	m, err := f(l.ctx(ctx), r.GetTarget(), r.GetData().GetKey())
	x, derr := d(ctx, r)
	if l.same(what, err, derr) {
		want := map[string][]string{}
		for _, kv := range x.GetKVData() {
			vs := append([]*types.KVValue{}, kv.GetValues()...)
			sort.SliceStable(vs, func(a, b int) bool { return vs[a].GetIndex() < vs[b].GetIndex() })
			for _, v := range vs {
				want[kv.GetKey()] = append(want[kv.GetKey()], v.GetValue())
			}
		}
		l.sameKV(what, "*", m, want, true)
	}
	return x, err
}

func (l *lib) EntityKVGet(ctx context.Context, r *pb.KV2Request) (*pb.ListOfKVData, error) {
	return l.kvget(ctx, "EntityKVGet", r, l.c.EntityKVGet, l.direct.EntityKVGet)
}

func (l *lib) GroupKVGet(ctx context.Context, r *pb.KV2Request) (*pb.ListOfKVData, error) {
	return l.kvget(ctx, "GroupKVGet", r, l.c.GroupKVGet, l.direct.GroupKVGet)
}

func kvStrings(r *pb.KV2Request) []string {
	out := []string{}
	for _, v := range r.GetData().GetValues() {
		out = append(out, v.GetValue())
	}
	return out
}

func (l *lib) EntityKVAdd(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.EntityKVAdd(l.ctx(ctx), r.GetTarget(), r.GetData().GetKey(), kvStrings(r))
}

func (l *lib) EntityKVDel(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.EntityKVDel(l.ctx(ctx), r.GetTarget(), r.GetData().GetKey())
}

func (l *lib) EntityKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.EntityKVReplace(l.ctx(ctx), r.GetTarget(), r.GetData().GetKey(), kvStrings(r))
}

func (l *lib) GroupKVAdd(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.GroupKVAdd(l.ctx(ctx), r.GetTarget(), r.GetData().GetKey(), kvStrings(r))
}

func (l *lib) GroupKVDel(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.GroupKVDel(l.ctx(ctx), r.GetTarget(), r.GetData().GetKey())
}

func (l *lib) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.GroupKVReplace(l.ctx(ctx), r.GetTarget(), r.GetData().GetKey(), kvStrings(r))
}

func (l *lib) EntityDestroy(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.EntityDestroy(l.ctx(ctx), r.GetEntity().GetID())
}

func (l *lib) EntityLock(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.EntityLock(l.ctx(ctx), r.GetEntity().GetID())
}

func (l *lib) EntityUnlock(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.EntityUnlock(l.ctx(ctx), r.GetEntity().GetID())
}

func (l *lib) EntityGroups(ctx context.Context, r *pb.EntityRequest) (*pb.ListOfGroups, error) {
	gs, err := l.c.EntityGroups(l.ctx(ctx), r.GetEntity().GetID())
	d, derr := l.direct.EntityGroups(ctx, r)
	if l.same("EntityGroups", err, derr) {
		l.sameList("EntityGroups", grpList(gs), grpList(d.GetGroups()))
	}
	return d, err
}

func (l *lib) AuthEntity(ctx context.Context, r *pb.AuthRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.AuthEntity(l.ctx(ctx), r.GetEntity().GetID(), r.GetSecret())
}

func (l *lib) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthResult, error) {
	t, err := l.c.AuthGetToken(l.ctx(ctx), r.GetEntity().GetID(), r.GetSecret())
	if err == nil {
		l.cmp("AuthGetToken")
		cl, e := jwtSvc.Validate(t)
		if e != nil {
			l.fail("the token obtained through the library is not accepted: %v", e)
		} else if cl.EntityID != r.GetEntity().GetID() {
			l.fail("the token obtained through the library for %q is for %q", r.GetEntity().GetID(), cl.EntityID)
		}
		if e := l.c.AuthValidateToken(l.ctx(ctx), t); e != nil {
			l.fail("validation of a good token through the library: %v", e)
		}
		if e := l.c.AuthValidateToken(l.ctx(ctx), t+"x"); e == nil {
			l.fail("validation of a bad token through the library succeeded")
		}
	} else if t != "" {
		l.fail("the library returned a token along with %v", err)
	}
	return &pb.AuthResult{Token: &t}, err
}

func (l *lib) AuthValidateToken(ctx context.Context, r *pb.AuthRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.AuthValidateToken(l.ctx(ctx), r.GetToken())
}

func (l *lib) AuthChangeSecret(ctx context.Context, r *pb.AuthRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.AuthChangeSecret(l.ctx(ctx), r.GetEntity().GetID(), r.GetSecret(), r.GetEntity().GetSecret())
}

func (l *lib) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
	g := r.GetGroup()
	return &pb.Empty{}, l.c.GroupCreate(l.ctx(ctx), g.GetName(), g.GetDisplayName(), g.GetManagedBy(), int(g.GetNumber()))
}

func (l *lib) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.GroupUpdate(l.ctx(ctx), r.GetGroup())
}

var reWord = regexp.MustCompile(`^[b-zB-Z][a-zA-Z0-9]{2,}$`)

func (l *lib) GroupInfo(ctx context.Context, r *pb.GroupRequest) (*pb.ListOfGroups, error) {
	name := r.GetGroup().GetName()
	g, managed, err := l.c.GroupInfo(l.ctx(ctx), name)
	d, derr := l.direct.GroupInfo(ctx, r)
	if !l.same("GroupInfo", err, derr) {
		return d, err
	}
	l.sameList("GroupInfo", grpList([]*types.Group{g}), grpList(d.GetGroups()))
	// The groups it manages.
	have := map[string]bool{}
	for _, x := range managed {
		have[x.GetName()] = true
		if x.GetManagedBy() != name {
			l.fail("GroupInfo(%q) says it manages %q, which is managed by %q", name, x.GetName(), x.GetManagedBy())
		}
	}
	if reWord.MatchString(name) && !has("for are and but not such that the their then there these they this was will with into", strings.ToLower(name)) {
		all, err := l.direct.GroupSearch(ctx, &pb.SearchRequest{Expression: proto.String("Number:>=-2147483648")})
		if err == nil {
			for _, x := range all.GetGroups() {
				if x.GetManagedBy() == name && !have[x.GetName()] {
					l.fail("GroupInfo(%q) does not say that it manages %q", name, x.GetName())
				}
			}
		}
	}
	return d, err
}

func (l *lib) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest) (*pb.Empty, error) {
	a := r.GetRuleAction().String()
	if r.GetRuleAction() == pb.RuleAction_REMOVE_RULE && l.n%2 == 0 {
		a = "DROP"
	}
	return &pb.Empty{}, l.c.GroupUpdateRules(l.ctx(ctx), r.GetGroup().GetName(), l.word(a), r.GetTarget().GetName())
}

func (l *lib) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.GroupAddMember(l.ctx(ctx), r.GetEntity().GetMeta().GetGroups()[0], r.GetEntity().GetID())
}

func (l *lib) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.GroupDelMember(l.ctx(ctx), r.GetEntity().GetMeta().GetGroups()[0], r.GetEntity().GetID())
}

func (l *lib) GroupDestroy(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.GroupDestroy(l.ctx(ctx), r.GetGroup().GetName())
}

func (l *lib) GroupMembers(ctx context.Context, r *pb.GroupRequest) (*pb.ListOfEntities, error) {
	es, err := l.c.GroupMembers(l.ctx(ctx), r.GetGroup().GetName())
	d, derr := l.direct.GroupMembers(ctx, r)
	if l.same("GroupMembers", err, derr) {
		l.sameList("GroupMembers", entList(es), entList(d.GetEntities()))
	}
	return d, err
}

func (l *lib) GroupSearch(ctx context.Context, r *pb.SearchRequest) (*pb.ListOfGroups, error) {
	gs, err := l.c.GroupSearch(l.ctx(ctx), r.GetExpression())
	d, derr := l.direct.GroupSearch(ctx, r)
	if l.same("GroupSearch", err, derr) {
		l.sameList("GroupSearch", grpList(gs), grpList(d.GetGroups()))
	}
	return d, err
}

func (l *lib) SystemCapabilities(ctx context.Context, r *pb.CapabilityRequest) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.SystemCapabilities(l.ctx(ctx), r.GetTarget(), l.word(r.GetAction().String()), r.GetCapability().String(), r.GetDirect())
}

func (l *lib) SystemPing(ctx context.Context, r *pb.Empty) (*pb.Empty, error) {
	return &pb.Empty{}, l.c.SystemPing(l.ctx(ctx))
}

func (l *lib) SystemStatus(ctx context.Context, r *pb.Empty) (*pb.ServerStatus, error) {
	s, err := l.c.SystemStatus(l.ctx(ctx))
	d, derr := l.direct.SystemStatus(ctx, r)
	if l.same("SystemStatus", err, derr) {
		if s.GetSystemOK() != d.GetSystemOK() || len(s.GetSubSystems()) != len(d.GetSubSystems()) {
			l.fail("SystemStatus: the library returns %v, the server answers %v", s, d)
		}
	}
	return d, err
}

var _ RPC = (*lib)(nil)

// What the clients call themselves.
const (
	libClient  = "a machine"
	libService = "a service"
)

// newLib makes a client of the library for a server.
func newLib(host, master string, port int) (*netauth.Client, error) {
	viper.Set("core.server", host)
	viper.Set("core.master", master)
	viper.Set("core.port", port)
	viper.Set("tls.pwn_me", true)
	viper.Set("token.cache", "memory")
	viper.Set("token.backend", "jwt-rsa")
	viper.Set("client.ID", libClient)
	cl, err := netauth.NewWithLog(hclog.NewNullLogger())
	if err == nil {
		cl.SetServiceName(libService)
	}
	return cl, err
}

var searchExprs = []string{"*", "ID:ab", "Name:grp", "grp", "DisplayName:value", "\"two words\"", "+ID:a", "ID:ab*", "Number:>0", "", "(", "\"", "meta.GECOS:v", "ManagedBy:grp", "a b", "ünï", "-x +y", "ID:/a.*/"}

// regular tells whether the library can express a request.
func regular(o Op) bool {
	if has("EntityKVAdd EntityKVReplace GroupKVAdd GroupKVReplace", o.K) {
		for i, v := range o.Vals {
			if v.I == nil || *v.I != int32(i) {
				return false
			}
		}
	}
	return true
}

func init() {
	register(&Check{
		ID: "P25", MinEvals: 4000,
		Rule: "a situation is (library call, answer, action, kind of argument), or (cache operation, kind of owner, outcome)",
		Run: func(c *Ctx) {
			swA, swB := &swSrv{}, &swSrv{}
			a, port, err := serveAt("127.0.0.1", 0, swA)
			if err != nil {
				c.Inconclusive("listen: " + err.Error())
				return
			}
			defer a.Stop()
			b, _, err := serveAt("127.0.0.2", port, swB)
			if err != nil {
				c.Inconclusive("listen: " + err.Error())
				b = nil
			} else {
				defer b.Stop()
			}
			cl, err := newLib("127.0.0.1", "127.0.0.1", port)
			if err != nil {
				c.Violate("client", "the client library could not connect: "+err.Error(), nil)
				return
			}
			clientHistories(c, cl, swA)
			if b != nil {
				clientReplica(c, swA, swB, port)
			}
			cl, err = newLib("127.0.0.1", "127.0.0.1", port)
			if err != nil {
				c.Violate("client", "the client library could not connect: "+err.Error(), nil)
				return
			}
			clientOrder(c, cl, swA)
			clientNumbers(c, cl, swA)
			clientWords(c, cl, swA)
			clientDown(c, cl, swA)
			c.CasesP("identity", 1, 1, func(int, *rand.Rand) {
				c.Eval("how the caller names itself")
				for _, sw := range []*swSrv{swA, swB} {
					sw.who.Range(func(k, v interface{}) bool {
						c.Violate(fmt.Sprint("identity:", k), fmt.Sprintf("the library sent %v as from %v, it was told client %q, service %q", k, v, libClient, libService), nil)
						return true
					})
				}
			})
			cacheCheck(c)
		},
	})
}

// clientHistories runs histories whose requests go through the library.
func clientHistories(c *Ctx, cl *netauth.Client, sw *swSrv) {
	w := merge(wBase, wLife, wMemb, wAttr, wMeta, wSec, wCap, GenW{"EntityInfo": 6, "GroupInfo": 8, "EntityGroups": 4, "GroupMembers": 4, "AuthEntity": 4, "AuthGetToken": 3,
		"EntityKVGet": 8, "GroupKVGet": 8})
	for _, be := range []string{"memory", "filesystem", "bitcask"} {
		n := c.N(110, 6000)
		if be != "memory" {
			n /= 8
		}
		l := &lib{c: cl, cmp: func(what string) { c.Count("compared:"+what, 1) }}
		base := EngineCfg{Name: "client-" + be, Len: 45, World: WOpts{Backend: be}, NoAuth: true,
			Via: func(w *World, o Op) RPC {
				if !regular(o) {
					return w.Srv
				}
				l.direct = w.Srv
				sw.set(w.Srv)
				c.Count("through the library", 1)
				return l
			},
			Extra: func(w *World, m *Model, o Op, r Res) []Diff {
				if l.bad == "" {
					return nil
				}
				s := l.bad
				l.bad = ""
				return []Diff{{Key: "CLIENT/" + o.K + "/returned", Want: "what the server answers", Got: s}}
			},
			NonTrivial: func(m *Model, o Op, r Res) string {
				return fmt.Sprintf("%s/%s/%d/%d/%s", o.K, r.Code, o.Act, len(o.Vals), strClass(o.E+o.G+o.Key+o.Val))
			}}
		c.CasesP(base.Name, n, 1, func(i int, r *rand.Rand) {
			g := newGen(r, w, 2+r.Intn(3), 2+r.Intn(4))
			k := base
			k.Names = union(g.E, g.G)
			k.Gen = func(r *rand.Rand, m *Model, i int) Op {
				if r.Intn(14) == 0 {
					switch r.Intn(4) {
					case 0:
						return Op{K: "EntitySearch", Key: oneOf(r, searchExprs)}
					case 1:
						return Op{K: "GroupSearch", Key: oneOf(r, searchExprs)}
					case 2:
						return Op{K: "SystemPing"}
					default:
						return Op{K: "SystemStatus"}
					}
				}
				o := g.Next(r, m, i)
				if len(o.Gs) > 0 {
					o.G, o.Gs = o.Gs[0], nil
				}
				if has("EntityKVAdd EntityKVReplace GroupKVAdd GroupKVReplace", o.K) && r.Intn(4) > 0 {
					for i := range o.Vals {
						x := int32(i)
						o.Vals[i].I = &x
					}
				}
				if o.K == "EntityKeys" && o.Act == actREAD && r.Intn(3) == 0 {
					o.Key = "*"
				}
				// Not everybody may do everything.
				if r.Intn(8) == 0 {
					o.Cred = oneOf(r, []string{"none", "garbage", "tok|ab|"})
				}
				return o
			}
			l.bad = ""
			k.runCase(c, i, r)
		})
	}
}

func strClass(s string) string {
	o := ""
	for _, x := range []struct{ n, cs string }{{"colon", ":"}, {"space", " \n"}, {"brace", "{}"}, {"special", "*[]()|!\\/"}} {
		if strings.ContainsAny(s, x.cs) {
			o += x.n + " "
		}
	}
	for _, r := range s {
		if r > 127 {
			return o + "wide"
		}
	}
	return o
}

// replicaOps is one request of every kind that changes something.
var replicaOps = []Op{
	{K: "EntityCreate", E: "new", N: -1, S: "s"}, {K: "EntityUpdate", E: "e1", M: map[string]string{"GECOS": "x"}},
	{K: "EntityUM", E: "e1", Act: actUPSERT, Key: "k", Val: "v"}, {K: "EntityUM", E: "e1", Act: actCLEAREXACT, Key: "k"}, {K: "EntityUM", E: "e1", Act: actCLEARFUZZY, Key: "k"},
	{K: "EntityKVAdd", E: "e1", Key: "a", Vals: []KVVal{}}, {K: "EntityKVReplace", E: "e1", Key: "kv", Vals: []KVVal{}}, {K: "EntityKVDel", E: "e1", Key: "kv"},
	{K: "EntityKeys", E: "e1", Act: actADD, Key: "SSH", Val: "k"}, {K: "EntityKeys", E: "e1", Act: actDROP, Key: "SSH", Val: "k"},
	{K: "EntityLock", E: "e1"}, {K: "EntityUnlock", E: "e1"}, {K: "AuthChangeSecret", E: "e1", S2: "n"},
	{K: "GroupCreate", G: "newg", N: -1}, {K: "GroupUpdate", G: "g1", M: map[string]string{"DisplayName": "x"}},
	{K: "GroupUM", G: "g1", Act: actUPSERT, Key: "k", Val: "v"}, {K: "GroupUM", G: "g1", Act: actCLEAREXACT, Key: "k"}, {K: "GroupUM", G: "g1", Act: actCLEARFUZZY, Key: "k"},
	{K: "GroupKVAdd", G: "g1", Key: "a", Vals: []KVVal{}}, {K: "GroupKVReplace", G: "g1", Key: "kv", Vals: []KVVal{}}, {K: "GroupKVDel", G: "g1", Key: "kv"},
	{K: "GroupUpdateRules", G: "g1", T: "g2", Act: ruleINC}, {K: "GroupUpdateRules", G: "g1", T: "g2", Act: ruleDEL},
	{K: "GroupAddMember", E: "e1", G: "g2"}, {K: "GroupDelMember", E: "e1", G: "g1"},
	{K: "SystemCapabilities", T: "e1", Dir: true, Act: actADD, Cap: 10}, {K: "SystemCapabilities", T: "g1", Act: actADD, Cap: 10},
	{K: "EntityDestroy", E: "e1"}, {K: "GroupDestroy", G: "g1"},
}

// clientReplica uses a server that only reads and one that also writes:
// what changes something must reach the latter, and what reads works
// with either.
func clientReplica(c *Ctx, swA, swB *swSrv, port int) {
	defer viper.Set("core.master", "127.0.0.1")
	defer viper.Set("core.server", "127.0.0.1")
	c.CasesP("replica", len(replicaOps), 1, func(i int, r *rand.Rand) {
		w := MustWorld(c, WOpts{})
		if w == nil {
			return
		}
		defer w.Close()
		m := newModel()
		for _, o := range []Op{{K: "EntityCreate", E: "e1", N: 5, S: "s1"}, {K: "GroupCreate", G: "g1", N: 5}, {K: "GroupCreate", G: "g2", N: 6}, {K: "GroupAddMember", E: "e1", G: "g1"},
			{K: "EntityKVAdd", E: "e1", Key: "kv", Vals: []KVVal{{V: "v"}}}, {K: "GroupKVAdd", G: "g1", Key: "kv", Vals: []KVVal{{V: "v"}}}} {
			if r := Exec(ctxRoot(), w.Srv, o); !r.OK() {
				c.Violate("setup:"+o.K, fmt.Sprintf("%s refused with %s", o, r.Err), nil)
				return
			}
			if x := m.PredictAuth(o, false); x.Apply != nil {
				x.Apply(Res{})
			}
		}
		viper.Set("server.readonly", true)
		ro := rpc2.New(rpc2.Refs{TokenService: w.Tok, Tree: w.Tree}, hclog.NewNullLogger())
		viper.Set("server.readonly", false)
		swA.set(w.Srv)
		swB.set(ro)
		cl, err := newLib("127.0.0.2", "127.0.0.1", port)
		if err != nil {
			c.Violate("replica-connect", "the client library could not connect: "+err.Error(), nil)
			return
		}
		l := &lib{c: cl, direct: w.Srv, cmp: func(what string) { c.Count("compared:"+what, 1) }}
		for _, o := range []Op{{K: "EntityInfo", E: "e1"}, {K: "GroupInfo", G: "g1"}, {K: "EntityKVGet", E: "e1", Key: "kv"}, {K: "GroupMembers", G: "g1"}} {
			if res := Exec(ctxNone(), l, o); !res.OK() || l.bad != "" {
				c.Violate("replica-read:"+o.K, fmt.Sprintf("reading from a read-only server: %s %s", res.Err, l.bad), map[string]interface{}{"request": o})
				return
			}
		}
		o := replicaOps[i]
		x := m.PredictAuth(o, false)
		res := Exec(ctxRoot(), l, o)
		c.Eval(fmt.Sprintf("replica/%s/%d/%s", o.K, o.Act, res.Code))
		c.Count("changes sent past a read-only server", 1)
		if x.Want == wantOK && !res.OK() {
			c.Violate("replica:"+o.K, fmt.Sprintf("%s with a read-only server and a writable master: refused with %s", o, res.Err), map[string]interface{}{"request": o})
		}
	})
}

// clientOrder reads back long lists of values with all kinds of
// indexes.
func clientOrder(c *Ctx, cl *netauth.Client, sw *swSrv) {
	c.CasesP("client-order", c.N(60, 2000), 1, func(i int, r *rand.Rand) {
		w := MustWorld(c, WOpts{})
		if w == nil {
			return
		}
		defer w.Close()
		sw.set(w.Srv)
		l := &lib{c: cl, direct: w.Srv, cmp: func(what string) { c.Count("compared:"+what, 1) }}
		must := func(o Op) bool {
			if r := Exec(ctxRoot(), w.Srv, o); !r.OK() {
				c.Violate("setup:"+o.K, fmt.Sprintf("%s refused with %s", o, r.Err), nil)
				return false
			}
			return true
		}
		if !must(Op{K: "EntityCreate", E: "e", N: -1, S: "s"}) || !must(Op{K: "GroupCreate", G: "g", N: -1}) {
			return
		}
		n := 1 + r.Intn(60)
		span := oneOf(r, []int{1, 3, 100, 100000})
		vals := []KVVal{}
		for k := 0; k < n; k++ {
			v := KVVal{V: fmt.Sprintf("v%d", k)}
			if r.Intn(5) > 0 {
				x := int32(r.Intn(span) - span/3)
				v.I = &x
			}
			vals = append(vals, v)
		}
		ok := must(Op{K: "EntityKVAdd", E: "e", Key: "k", Vals: vals}) && must(Op{K: "GroupKVAdd", G: "g", Key: "k", Vals: vals})
		plain := r.Intn(n)
		perm, step := r.Perm(n), oneOf(r, []int{1, 1, 3, 17, 1009, 40000003})
		for k := 0; k < n && ok; k++ {
			key := fmt.Sprintf("um{%d}", perm[k]*step)
			if k == plain {
				key = "um"
			}
			ok = must(Op{K: "EntityUM", E: "e", Act: actUPSERT, Key: key, Val: fmt.Sprintf("v:%d", k)}) &&
				must(Op{K: "GroupUM", G: "g", Act: actUPSERT, Key: key, Val: fmt.Sprintf("v:%d", k)})
		}
		if !ok {
			return
		}
		// Through the library as well, values in the order given.
		lv := []KVVal{}
		for k := 0; k < n; k++ {
			x := int32(k)
			lv = append(lv, KVVal{V: fmt.Sprintf(oneOf(r, []string{"o%d", "o%d", "O%d", " o%d", "o%d ", "\to%d\n", "%d:", "{%d}"}), r.Intn(n)), I: &x})
		}
		for _, o := range []Op{{K: "EntityKVAdd", E: "e", Key: "lib", Vals: lv}, {K: "GroupKVAdd", G: "g", Key: "lib", Vals: lv}, {K: "EntityKVReplace", E: "e", Key: "lib", Vals: lv}, {K: "GroupKVReplace", G: "g", Key: "lib", Vals: lv}} {
			if res := Exec(ctxRoot(), l, o); !res.OK() {
				c.Violate("order:"+o.K, "refused with "+res.Err, map[string]interface{}{"request": o})
				return
			}
			get := Op{K: strings.Replace(strings.Replace(o.K, "Add", "Get", 1), "Replace", "Get", 1), E: o.E, G: o.G, Key: "lib"}
			var m map[string][]string
			var err error
			if o.E != "" {
				m, err = cl.EntityKVGet(context.Background(), "e", "lib")
			} else {
				m, err = cl.GroupKVGet(context.Background(), "g", "lib")
			}
			want := []string{}
			for _, v := range lv {
				want = append(want, v.V)
			}
			if err != nil || strings.Join(m["lib"], ",") != strings.Join(want, ",") {
				c.Violate("order:"+get.K, fmt.Sprintf("values %q were stored through the library and %q read back (%v)", want, m["lib"], err), map[string]interface{}{"request": o})
				return
			}
		}
		for k := 0; k < 12; k++ {
			if !must(Op{K: "EntityKeys", E: "e", Act: actADD, Key: oneOf(r, []string{"ssh", "SSH", "Pgp", "x509"}), Val: fmt.Sprintf("key %d", r.Intn(9))}) {
				return
			}
		}
		// Managing groups whose names are alike.
		alike := []string{"Ops", "ops", "oPS", "ops team", "Ops Team", "ops-", "opss", "bops"}
		for _, p := range r.Perm(len(alike)) {
			if !must(Op{K: "GroupCreate", G: alike[p], N: -1}) {
				return
			}
		}
		for k := 0; k < 10; k++ {
			if !must(Op{K: "GroupCreate", G: fmt.Sprintf("m%d", k), T: oneOf(r, alike), N: -1}) {
				return
			}
		}
		for _, n := range alike {
			res := Exec(ctxNone(), l, Op{K: "GroupInfo", G: n})
			c.Eval("managed/" + n)
			if !res.OK() || l.bad != "" {
				c.Violate("managed", trunc(res.Err+l.bad, 800), map[string]interface{}{"group": n})
				l.bad = ""
			}
		}
		for _, o := range []Op{{K: "EntityKVGet", E: "e", Key: "k"}, {K: "GroupKVGet", G: "g", Key: "k"},
			{K: "EntityUM", E: "e", Act: actREAD, Key: "um"}, {K: "GroupUM", G: "g", Act: actREAD, Key: "um"},
			{K: "EntityUM", E: "e", Act: actREAD, Key: "*"}, {K: "GroupUM", G: "g", Act: actREAD, Key: "*"},
			{K: "EntityKeys", E: "e", Act: actREAD, Key: "ssh"}, {K: "EntityKeys", E: "e", Act: actREAD, Key: "SSH"}, {K: "EntityKeys", E: "e", Act: actREAD, Key: "Pgp"}, {K: "EntityKeys", E: "e", Act: actREAD, Key: "*"},
			{K: "EntityUM", E: "e", Act: actREAD, Key: "um{0}"}, {K: "GroupUM", G: "g", Act: actREAD, Key: "um{0}"}} {
			res := Exec(ctxNone(), l, o)
			c.Eval(fmt.Sprintf("order/%s/%s/%d", o.K, o.Key, n/10))
			if !res.OK() || l.bad != "" {
				c.Violate(fmt.Sprintf("order:%s:%s", o.K, o.Key), trunc(res.Err+l.bad, 800), map[string]interface{}{"request": o, "values": vals})
				l.bad = ""
			}
		}
	})
}

// clientNumbers creates objects with numbers the server cannot store.
func clientNumbers(c *Ctx, cl *netauth.Client, sw *swSrv) {
	nums := []int{0, 1, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, -2147483648, -2147483649, -1 << 40, 1 << 40}
	c.CasesP("client-numbers", len(nums), 1, func(i int, r *rand.Rand) {
		w := MustWorld(c, WOpts{})
		if w == nil {
			return
		}
		defer w.Close()
		sw.set(w.Srv)
		n := nums[i]
		ctx := netauth.Authorize(context.Background(), rootToken())
		for _, k := range []string{"EntityCreate", "GroupCreate"} {
			var err error
			var got int32
			var exists bool
			if k == "EntityCreate" {
				err = cl.EntityCreate(ctx, "e", "s", n)
				if res := Exec(ctxNone(), w.Srv, Op{K: "EntityInfo", E: "e"}); res.OK() {
					got, exists = res.Ents[0].GetNumber(), true
				}
			} else {
				err = cl.GroupCreate(ctx, "g", "", "", n)
				if res := Exec(ctxNone(), w.Srv, Op{K: "GroupInfo", G: "g"}); res.OK() {
					got, exists = res.Grps[0].GetNumber(), true
				}
			}
			c.Eval(fmt.Sprintf("number/%s/%d", k, n))
			if err == nil && (!exists || int(got) != n) {
				c.Violate("number:"+k, fmt.Sprintf("%s with number %d succeeded and left number %d (exists: %v)", k, n, got, exists), map[string]interface{}{"number": n})
			}
			if err != nil && exists {
				c.Violate("number:"+k, fmt.Sprintf("%s with number %d failed (%v) and yet created it with number %d", k, n, err, got), map[string]interface{}{"number": n})
			}
		}
	})
}

// clientWords uses words that are not actions or capabilities: these
// calls fail and change nothing.
func clientWords(c *Ctx, cl *netauth.Client, sw *swSrv) {
	words := []string{"", "NOPE", "ADD ", " ADD", "UPSERTT", "0", "1", "INCLUDE", "DROP", "ADD", "UPSERT", "READ", "CLEAREXACT", "EXCLUDE", "REMOVE_RULE", "remove_rule", "GLOBAL_ROOT"}
	c.CasesP("client-words", len(words), 1, func(i int, r *rand.Rand) {
		w := MustWorld(c, WOpts{})
		if w == nil {
			return
		}
		defer w.Close()
		sw.set(w.Srv)
		for _, o := range []Op{{K: "EntityCreate", E: "e", N: -1, S: "s"}, {K: "GroupCreate", G: "g", N: -1}, {K: "GroupCreate", G: "h", N: -1}} {
			Exec(ctxRoot(), w.Srv, o)
		}
		ctx := netauth.Authorize(context.Background(), rootToken())
		wd := words[i]
		up := strings.ToUpper(wd)
		for _, t := range []struct {
			name string
			may  string
			f    func() error
		}{
			{"EntityUM", "UPSERT CLEAREXACT CLEARFUZZY READ", func() error { _, e := cl.EntityUM(ctx, "e", wd, "k", "v"); return e }},
			{"GroupUM", "UPSERT CLEAREXACT CLEARFUZZY READ", func() error { _, e := cl.GroupUM(ctx, "g", wd, "k", "v"); return e }},
			{"EntityKeys", "ADD DROP READ", func() error { _, e := cl.EntityKeys(ctx, "e", wd, "SSH", "k"); return e }},
			{"GroupUpdateRules", "INCLUDE EXCLUDE REMOVE_RULE DROP", func() error { return cl.GroupUpdateRules(ctx, "g", wd, "h") }},
			{"SystemCapabilities", "ADD DROP", func() error { return cl.SystemCapabilities(ctx, "e", wd, "LOCK_ENTITY", true) }},
			{"SystemCapabilities-group", "ADD DROP", func() error { return cl.SystemCapabilities(ctx, "g", wd, "LOCK_ENTITY", false) }},
			{"SystemCapabilities-cap", "GLOBAL_ROOT", func() error { return cl.SystemCapabilities(ctx, "e", "ADD", wd, true) }},
		} {
			before, _ := w.Spy.Dump()
			err := t.f()
			after, _ := w.Spy.Dump()
			valid := wd != "" && !strings.Contains(wd, " ") && has(t.may, up)
			c.Eval(fmt.Sprintf("word/%s/%s/%v", t.name, wd, err == nil))
			if !valid && err == nil && t.name != "EntityKeys" {
				c.Violate("word:"+t.name, fmt.Sprintf("%s with the word %q succeeded", t.name, wd), map[string]interface{}{"word": wd})
			}
			if !valid || err != nil {
				if d := rawDiff(before, after); d != "" {
					c.Violate("word:"+t.name, fmt.Sprintf("%s with the word %q (error: %v) changed stored data: %s", t.name, wd, err, d), map[string]interface{}{"word": wd})
				}
			}
			if valid && err != nil && !(up == "REMOVE_RULE" || up == "DROP") {
				c.Violate("word:"+t.name, fmt.Sprintf("%s with the word %q failed: %v", t.name, wd, err), map[string]interface{}{"word": wd})
			}
		}
	})
}

// clientDown asks a server that fails every request: the library must
// report failure every time and never make up an answer.
func clientDown(c *Ctx, cl *netauth.Client, sw *swSrv) {
	ctx := netauth.Authorize(context.Background(), rootToken())
	codesToTry := []codes.Code{codes.Unavailable, codes.Internal, codes.PermissionDenied, codes.NotFound, codes.Unauthenticated, codes.AlreadyExists, codes.Unimplemented, codes.Canceled, codes.DeadlineExceeded, codes.DataLoss}
	c.CasesP("client-refused", len(codesToTry), 1, func(i int, r *rand.Rand) {
		sw.set(&failing{codesToTry[i]})
		l := &lib{c: cl, direct: &failing{codesToTry[i]}, cmp: func(string) {}}
		ops := append([]Op{{K: "EntityInfo", E: "e"}, {K: "GroupInfo", G: "g"}, {K: "EntitySearch", Key: "x"}, {K: "GroupSearch", Key: "x"}, {K: "EntityGroups", E: "e"}, {K: "GroupMembers", G: "g"},
			{K: "EntityUM", E: "e", Act: actREAD, Key: "*"}, {K: "GroupUM", G: "g", Act: actREAD, Key: "*"}, {K: "EntityKeys", E: "e", Act: actREAD, Key: "*"}, {K: "EntityKVGet", E: "e", Key: "k"}, {K: "GroupKVGet", G: "g", Key: "k"},
			{K: "AuthEntity", E: "e", S: "s"}, {K: "AuthGetToken", E: "e", S: "s"}, {K: "AuthValidateToken", S: "s"}, {K: "SystemPing"}, {K: "SystemStatus"}}, replicaOps...)
		_ = ctx
		for _, o := range ops {
			res := Exec(ctxRoot(), l, o)
			c.Eval("refused/" + o.K + "/" + codesToTry[i].String())
			if res.OK() {
				c.Violate("refused:"+o.K, fmt.Sprintf("the server failed the request with %s and the library reported success", codesToTry[i]), map[string]interface{}{"request": o})
			}
		}
	})
}

// failing refuses everything.
type failing struct{ code codes.Code }

// cacheCheck runs histories over each token cache.
func cacheCheck(c *Ctx) {
	dir := filepath.Join(c.Scratch, "tokens")
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Inconclusive(err.Error())
		return
	}
	old := os.Getenv("TMPDIR")
	defer os.Setenv("TMPDIR", old)
	owners := []string{"a", "ab", "A", "", ".", "..", "a.nt", "a/b", "x/../a", "../tokens/a", "a/", "/a", "a%2Fb", "a b", "a\x00b", "ü", "\xff", "a\nb", "-", "*", "~", "a:b", "a\\b", "%", "%41", "a+b", "a%20b", "%2e%2e", "a_b", "a-b", "x/../../escape", strings.Repeat("o", 300)}
	for _, name := range []string{"memory", "fs"} {
		c.CasesP("cache-"+name, c.N(150, 6000), 1, func(i int, r *rand.Rand) {
			sub := filepath.Join(dir, fmt.Sprint("c", i), "tokens")
			if err := os.MkdirAll(sub, 0755); err != nil {
				c.Inconclusive(err.Error())
				return
			}
			defer os.RemoveAll(filepath.Join(dir, fmt.Sprint("c", i)))
			os.Setenv("TMPDIR", sub)
			tc, err := cache.NewTokenCache(name)
			if err != nil {
				c.Violate("cache-new:"+name, err.Error(), nil)
				return
			}
			mine := []string{}
			for _, p := range r.Perm(len(owners))[:4+r.Intn(6)] {
				mine = append(mine, owners[p])
			}
			type st struct {
				tok   string
				have  bool
				fuzzy bool // a failed change leaves either
			}
			m := map[string]st{}
			log := []string{}
			refused := func(what, o string, err error) {
				if len(o) < 200 {
					c.Violate("cache-refused:"+name, fmt.Sprintf("%s the token of %q fails: %v", what, o, err), map[string]interface{}{"owner": o, "history": log})
				}
			}
			for k := 0; k < 60; k++ {
				o := oneOf(r, mine)
				switch r.Intn(8) {
				case 0, 1, 2:
					t := fmt.Sprintf("token-%d-%s", k, strings.Repeat("x", r.Intn(3000)))
					if r.Intn(10) == 0 {
						t = ""
					}
					err := tc.PutToken(o, t)
					log = append(log, fmt.Sprintf("Put(%q,%s)=%v", trunc(o, 30), trunc(t, 12), err))
					if err == nil {
						m[o] = st{tok: t, have: true}
						if name == "fs" {
							filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
								if err != nil || !fi.Mode().IsRegular() || fi.Mode().Perm()&0077 == 0 {
									return nil
								}
								if b, err := os.ReadFile(p); err == nil && t != "" && string(b) == t {
									c.Violate("cache-mode", fmt.Sprintf("the token of %q is stored in a file of mode %v, which other users may read", trunc(o, 60), fi.Mode()), map[string]interface{}{"owner": o, "history": log})
								}
								return nil
							})
						}
					} else {
						m[o] = st{fuzzy: true}
						refused("storing", o, err)
					}
				case 3:
					err := tc.DelToken(o)
					log = append(log, fmt.Sprintf("Del(%q)=%v", trunc(o, 30), err))
					if err == nil {
						m[o] = st{}
					} else {
						m[o] = st{fuzzy: true}
						refused("deleting", o, err)
					}
				case 5:
					// What is there was made with other permissions,
					// or leads elsewhere.
					if fs, _ := filepath.Glob(filepath.Join(sub, "*")); name == "fs" && len(fs) > 0 {
						p := oneOf(r, fs)
						if r.Intn(2) == 0 {
							os.Chmod(p, oneOf(r, []os.FileMode{0644, 0666, 0400}))
						} else if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() {
							q := filepath.Join(filepath.Dir(sub), fmt.Sprint("shared", k))
							if os.Rename(p, q) == nil {
								os.Chmod(q, 0644)
								os.Symlink(q, p)
							}
						}
						c.Count("token files made readable", 1)
					}
				case 4:
					// Another process looks.
					if name == "fs" {
						if n, err := cache.NewTokenCache(name); err == nil {
							tc = n
						}
					}
				}
				for _, o := range mine {
					t, err := tc.GetToken(o)
					s := m[o]
					c.EvalN(1, fmt.Sprintf("cache/%s/%s/%v/%v", name, strClass(o), s.have, err == nil))
					switch {
					case s.fuzzy:
						if err == nil {
							c.Count("token readable after a failed store", 1)
						}
					case s.have && (err != nil || t != s.tok):
						c.Violate("cache:"+name, fmt.Sprintf("the last token stored for %q is not what the cache returns (%q, %v)", trunc(o, 60), trunc(t, 40), err), map[string]interface{}{"owner": o, "history": log})
						return
					case !s.have && err == nil:
						c.Violate("cache:"+name, fmt.Sprintf("no token is stored for %q and the cache returns %q", trunc(o, 60), trunc(t, 40)), map[string]interface{}{"owner": o, "history": log})
						return
					case !s.have && !errors.Is(err, cache.ErrNoCachedToken) && len(o) < 200 && !strings.Contains(o, "\x00"):
						c.Violate("cache:"+name, fmt.Sprintf("no token is stored for %q and the cache does not say so: %v", o, err), map[string]interface{}{"owner": o, "history": log})
						return
					}
				}
			}
		})
	}
	// No file with a token is ever readable by others, not even for the
	// moment between its being written and its being put in place.
	c.CasesP("cache-mode-window", c.N(8, 100), 1, func(i int, r *rand.Rand) {
		sub := filepath.Join(dir, fmt.Sprint("w", i))
		os.MkdirAll(sub, 0755)
		defer os.RemoveAll(sub)
		os.Setenv("TMPDIR", sub)
		um := syscall.Umask([]int{0, 022, 0}[i%3])
		defer syscall.Umask(um)
		tc, err := cache.NewTokenCache("fs")
		if err != nil {
			c.Violate("cache-new:fs", err.Error(), nil)
			return
		}
		var stop, looks int32
		done := make(chan string, 1)
		go func() {
			seen := ""
			for atomic.LoadInt32(&stop) == 0 && seen == "" {
				atomic.AddInt32(&looks, 1)
				fs, _ := os.ReadDir(sub)
				for _, f := range fs {
					fi, err := f.Info()
					if err != nil || !fi.Mode().IsRegular() || fi.Mode().Perm()&0077 == 0 {
						continue
					}
					// Opened while others could; what is written later can be read as well.
					if h, err := os.Open(filepath.Join(sub, f.Name())); err == nil {
						for k := 0; k < 200 && seen == ""; k++ {
							if b, _ := io.ReadAll(h); strings.Contains(string(b), "token") {
								seen = fmt.Sprintf("%s had mode %v", f.Name(), fi.Mode())
							}
							h.Seek(0, 0)
							time.Sleep(10 * time.Microsecond)
						}
						h.Close()
					}
				}
			}
			done <- seen
		}()
		for k := 0; k < 1500; k++ {
			o := fmt.Sprint("o", k%3)
			tok := fmt.Sprintf("token-%d-%s", k, strings.Repeat("x", r.Intn(1500)))
			if err := tc.PutToken(o, tok); err != nil {
				c.Violate("cache-refused:fs", err.Error(), nil)
				break
			}
			if k%7 == 0 {
				tc.DelToken(o)
			}
			c.EvalN(1, "cache/mode while written")
		}
		atomic.StoreInt32(&stop, 1)
		if s := <-done; s != "" {
			c.Violate("cache-mode-window", "while a token was being stored, other users could read the file it is in: "+s, i)
		}
		c.Count("looks at a token directory while tokens are stored", int(atomic.LoadInt32(&looks)))
	})
	// A token is replaced while others read it.
	c.CasesP("cache-replace", c.N(6, 100), 1, func(i int, r *rand.Rand) {
		sub := filepath.Join(dir, fmt.Sprint("r", i))
		os.MkdirAll(sub, 0755)
		defer os.RemoveAll(sub)
		os.Setenv("TMPDIR", sub)
		tc, err := cache.NewTokenCache("fs")
		if err != nil {
			c.Violate("cache-new:fs", err.Error(), nil)
			return
		}
		tok := func(k int) string { return strings.Repeat(string(rune('a'+k%20)), 500+(k%20)*211) }
		if err := tc.PutToken("owner", tok(0)); err != nil {
			c.Violate("cache-refused:fs", err.Error(), nil)
			return
		}
		var wg sync.WaitGroup
		var stop int32
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for k := 0; atomic.LoadInt32(&stop) == 0; k++ {
					x, err := tc.GetToken("owner")
					if err != nil || len(x) == 0 || x != tok(int(x[0]-'a')) {
						c.Violate("cache-replace", fmt.Sprintf("while the token is being replaced the cache returns %d bytes %q, %v", len(x), trunc(x, 20), err), i)
						return
					}
					if k%64 == 0 {
						c.EvalN(64, "cache/replaced while read")
					}
				}
			}(g)
		}
		for g := 0; g < 2; g++ {
			for k := 0; k < c.N(400, 2000); k++ {
				if err := tc.PutToken("owner", tok(k)); err != nil {
					c.Violate("cache-refused:fs", err.Error(), nil)
					break
				}
			}
		}
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
	})
	// Overlapping use of the cache that servers share.
	c.CasesP("cache-overlap", c.N(10, 200), 1, func(i int, r *rand.Rand) {
		tc, err := cache.NewTokenCache("memory")
		if err != nil {
			c.Violate("cache-new:memory", err.Error(), nil)
			return
		}
		var wg sync.WaitGroup
		bad := make(chan string, 64)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				o := fmt.Sprint("owner", g)
				for k := 0; k < 500; k++ {
					t := fmt.Sprint("t", g, "-", k)
					tc.PutToken(o, t)
					if x, err := tc.GetToken(o); err != nil || x != t {
						bad <- fmt.Sprintf("%s stored %s and got %q, %v", o, t, x, err)
						return
					}
					if k%7 == 0 {
						tc.DelToken(o)
						if x, err := tc.GetToken(o); err == nil {
							bad <- fmt.Sprintf("%s deleted its token and got %q", o, x)
							return
						}
					}
				}
			}(g)
		}
		wg.Wait()
		c.EvalN(500*8, "cache/overlap")
		select {
		case s := <-bad:
			c.Violate("cache-overlap", s, nil)
		default:
		}
	})
}

func (f *failing) EntityCreate(context.Context, *pb.EntityRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityUpdate(context.Context, *pb.EntityRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityInfo(context.Context, *pb.EntityRequest) (*pb.ListOfEntities, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntitySearch(context.Context, *pb.SearchRequest) (*pb.ListOfEntities, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityUM(context.Context, *pb.KVRequest) (*pb.ListOfStrings, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityKVGet(context.Context, *pb.KV2Request) (*pb.ListOfKVData, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityKVAdd(context.Context, *pb.KV2Request) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityKVDel(context.Context, *pb.KV2Request) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityKVReplace(context.Context, *pb.KV2Request) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityKeys(context.Context, *pb.KVRequest) (*pb.ListOfStrings, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityDestroy(context.Context, *pb.EntityRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityLock(context.Context, *pb.EntityRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityUnlock(context.Context, *pb.EntityRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) EntityGroups(context.Context, *pb.EntityRequest) (*pb.ListOfGroups, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) AuthEntity(context.Context, *pb.AuthRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) AuthGetToken(context.Context, *pb.AuthRequest) (*pb.AuthResult, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) AuthValidateToken(context.Context, *pb.AuthRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) AuthChangeSecret(context.Context, *pb.AuthRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupCreate(context.Context, *pb.GroupRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupUpdate(context.Context, *pb.GroupRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupInfo(context.Context, *pb.GroupRequest) (*pb.ListOfGroups, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupUM(context.Context, *pb.KVRequest) (*pb.ListOfStrings, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupKVGet(context.Context, *pb.KV2Request) (*pb.ListOfKVData, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupKVAdd(context.Context, *pb.KV2Request) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupKVDel(context.Context, *pb.KV2Request) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupKVReplace(context.Context, *pb.KV2Request) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupUpdateRules(context.Context, *pb.GroupRulesRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupAddMember(context.Context, *pb.EntityRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupDelMember(context.Context, *pb.EntityRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupDestroy(context.Context, *pb.GroupRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupMembers(context.Context, *pb.GroupRequest) (*pb.ListOfEntities, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) GroupSearch(context.Context, *pb.SearchRequest) (*pb.ListOfGroups, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) SystemCapabilities(context.Context, *pb.CapabilityRequest) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) SystemPing(context.Context, *pb.Empty) (*pb.Empty, error) {
	return nil, status.Error(f.code, "refused")
}

func (f *failing) SystemStatus(context.Context, *pb.Empty) (*pb.ServerStatus, error) {
	return nil, status.Error(f.code, "refused")
}
