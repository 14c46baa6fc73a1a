//go:build go1.22

package main

import (
	"context"
	"net"
	"sync"

	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"

	pb "github.com/netauth/protocol/v2"
)

// wire is the server as seen through a network connection.
type wire struct{ c pb.NetAuth2Client }

// outgoing turns the metadata a request would arrive with into metadata
// to send.
func outgoing(ctx context.Context) context.Context {
	md, _ := metadata.FromIncomingContext(ctx)
	return metadata.NewOutgoingContext(context.Background(), md)
}

func (w *wire) EntityCreate(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return w.c.EntityCreate(outgoing(ctx), r)
}

func (w *wire) EntityUpdate(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return w.c.EntityUpdate(outgoing(ctx), r)
}

func (w *wire) EntityInfo(ctx context.Context, r *pb.EntityRequest) (*pb.ListOfEntities, error) {
	return w.c.EntityInfo(outgoing(ctx), r)
}

func (w *wire) EntitySearch(ctx context.Context, r *pb.SearchRequest) (*pb.ListOfEntities, error) {
	return w.c.EntitySearch(outgoing(ctx), r)
}

func (w *wire) EntityUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfStrings, error) {
	return w.c.EntityUM(outgoing(ctx), r)
}

func (w *wire) EntityKVGet(ctx context.Context, r *pb.KV2Request) (*pb.ListOfKVData, error) {
	return w.c.EntityKVGet(outgoing(ctx), r)
}

func (w *wire) EntityKVAdd(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return w.c.EntityKVAdd(outgoing(ctx), r)
}

func (w *wire) EntityKVDel(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return w.c.EntityKVDel(outgoing(ctx), r)
}

func (w *wire) EntityKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return w.c.EntityKVReplace(outgoing(ctx), r)
}

func (w *wire) EntityKeys(ctx context.Context, r *pb.KVRequest) (*pb.ListOfStrings, error) {
	return w.c.EntityKeys(outgoing(ctx), r)
}

func (w *wire) EntityDestroy(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return w.c.EntityDestroy(outgoing(ctx), r)
}

func (w *wire) EntityLock(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return w.c.EntityLock(outgoing(ctx), r)
}

func (w *wire) EntityUnlock(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return w.c.EntityUnlock(outgoing(ctx), r)
}

func (w *wire) EntityGroups(ctx context.Context, r *pb.EntityRequest) (*pb.ListOfGroups, error) {
	return w.c.EntityGroups(outgoing(ctx), r)
}

func (w *wire) AuthEntity(ctx context.Context, r *pb.AuthRequest) (*pb.Empty, error) {
	return w.c.AuthEntity(outgoing(ctx), r)
}

func (w *wire) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthResult, error) {
	return w.c.AuthGetToken(outgoing(ctx), r)
}

func (w *wire) AuthValidateToken(ctx context.Context, r *pb.AuthRequest) (*pb.Empty, error) {
	return w.c.AuthValidateToken(outgoing(ctx), r)
}

func (w *wire) AuthChangeSecret(ctx context.Context, r *pb.AuthRequest) (*pb.Empty, error) {
	return w.c.AuthChangeSecret(outgoing(ctx), r)
}

func (w *wire) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
	return w.c.GroupCreate(outgoing(ctx), r)
}

func (w *wire) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
	return w.c.GroupUpdate(outgoing(ctx), r)
}

func (w *wire) GroupInfo(ctx context.Context, r *pb.GroupRequest) (*pb.ListOfGroups, error) {
	return w.c.GroupInfo(outgoing(ctx), r)
}

func (w *wire) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfStrings, error) {
	return w.c.GroupUM(outgoing(ctx), r)
}

func (w *wire) GroupKVGet(ctx context.Context, r *pb.KV2Request) (*pb.ListOfKVData, error) {
	return w.c.GroupKVGet(outgoing(ctx), r)
}

func (w *wire) GroupKVAdd(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return w.c.GroupKVAdd(outgoing(ctx), r)
}

func (w *wire) GroupKVDel(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return w.c.GroupKVDel(outgoing(ctx), r)
}

func (w *wire) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empty, error) {
	return w.c.GroupKVReplace(outgoing(ctx), r)
}

func (w *wire) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest) (*pb.Empty, error) {
	return w.c.GroupUpdateRules(outgoing(ctx), r)
}

func (w *wire) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return w.c.GroupAddMember(outgoing(ctx), r)
}

func (w *wire) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.Empty, error) {
	return w.c.GroupDelMember(outgoing(ctx), r)
}

func (w *wire) GroupDestroy(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
	return w.c.GroupDestroy(outgoing(ctx), r)
}

func (w *wire) GroupMembers(ctx context.Context, r *pb.GroupRequest) (*pb.ListOfEntities, error) {
	return w.c.GroupMembers(outgoing(ctx), r)
}

func (w *wire) GroupSearch(ctx context.Context, r *pb.SearchRequest) (*pb.ListOfGroups, error) {
	return w.c.GroupSearch(outgoing(ctx), r)
}

func (w *wire) SystemCapabilities(ctx context.Context, r *pb.CapabilityRequest) (*pb.Empty, error) {
	return w.c.SystemCapabilities(outgoing(ctx), r)
}

func (w *wire) SystemPing(ctx context.Context, r *pb.Empty) (*pb.Empty, error) {
	return w.c.SystemPing(outgoing(ctx), r)
}

func (w *wire) SystemStatus(ctx context.Context, r *pb.Empty) (*pb.ServerStatus, error) {
	return w.c.SystemStatus(outgoing(ctx), r)
}

var _ RPC = (*wire)(nil)

// netServer serves a world on the loopback network the way the daemon
// does.
type netServer struct {
	addr string
	port int
	gs   *grpc.Server
	wg   sync.WaitGroup
}

func serve(srv pb.NetAuth2Server) (*netServer, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	n := &netServer{addr: l.Addr().String(), port: l.Addr().(*net.TCPAddr).Port, gs: grpc.NewServer()}
	pb.RegisterNetAuth2Server(n.gs, srv)
	n.wg.Add(1)
	go func() {
		defer n.wg.Done()
		n.gs.Serve(l)
	}()
	return n, nil
}

func (n *netServer) stop() {
	n.gs.Stop()
	n.wg.Wait()
}

// dial connects to a server on the loopback network.
func dial(addr string) (*grpc.ClientConn, *wire, error) {
	c, err := grpc.Dial(addr, grpc.WithInsecure())
	if err != nil {
		return nil, nil, err
	}
	return c, &wire{pb.NewNetAuth2Client(c)}, nil
}

// rpcMethods are the names of all requests of the interface.
var rpcMethods = []string{"EntityCreate", "EntityUpdate", "EntityInfo", "EntitySearch", "EntityUM", "EntityKVGet", "EntityKVAdd", "EntityKVDel", "EntityKVReplace", "EntityKeys", "EntityDestroy", "EntityLock", "EntityUnlock", "EntityGroups", "AuthEntity", "AuthGetToken", "AuthValidateToken", "AuthChangeSecret", "GroupCreate", "GroupUpdate", "GroupInfo", "GroupUM", "GroupKVGet", "GroupKVAdd", "GroupKVDel", "GroupKVReplace", "GroupUpdateRules", "GroupAddMember", "GroupDelMember", "GroupDestroy", "GroupMembers", "GroupSearch", "SystemCapabilities", "SystemPing", "SystemStatus"}
