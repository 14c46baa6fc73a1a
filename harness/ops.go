//go:build go1.22

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"sort"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// RPC is the request surface of the server; *rpc2.Server satisfies it
// and so does the loopback adapter.
type RPC interface {
	EntityCreate(context.Context, *pb.EntityRequest) (*pb.Empty, error)
	EntityUpdate(context.Context, *pb.EntityRequest) (*pb.Empty, error)
	EntityInfo(context.Context, *pb.EntityRequest) (*pb.ListOfEntities, error)
	EntitySearch(context.Context, *pb.SearchRequest) (*pb.ListOfEntities, error)
	EntityUM(context.Context, *pb.KVRequest) (*pb.ListOfStrings, error)
	EntityKVGet(context.Context, *pb.KV2Request) (*pb.ListOfKVData, error)
	EntityKVAdd(context.Context, *pb.KV2Request) (*pb.Empty, error)
	EntityKVDel(context.Context, *pb.KV2Request) (*pb.Empty, error)
	EntityKVReplace(context.Context, *pb.KV2Request) (*pb.Empty, error)
	EntityKeys(context.Context, *pb.KVRequest) (*pb.ListOfStrings, error)
	EntityDestroy(context.Context, *pb.EntityRequest) (*pb.Empty, error)
	EntityLock(context.Context, *pb.EntityRequest) (*pb.Empty, error)
	EntityUnlock(context.Context, *pb.EntityRequest) (*pb.Empty, error)
	EntityGroups(context.Context, *pb.EntityRequest) (*pb.ListOfGroups, error)
	AuthEntity(context.Context, *pb.AuthRequest) (*pb.Empty, error)
	AuthGetToken(context.Context, *pb.AuthRequest) (*pb.AuthResult, error)
	AuthValidateToken(context.Context, *pb.AuthRequest) (*pb.Empty, error)
	AuthChangeSecret(context.Context, *pb.AuthRequest) (*pb.Empty, error)
	GroupCreate(context.Context, *pb.GroupRequest) (*pb.Empty, error)
	GroupUpdate(context.Context, *pb.GroupRequest) (*pb.Empty, error)
	GroupInfo(context.Context, *pb.GroupRequest) (*pb.ListOfGroups, error)
	GroupUM(context.Context, *pb.KVRequest) (*pb.ListOfStrings, error)
	GroupKVGet(context.Context, *pb.KV2Request) (*pb.ListOfKVData, error)
	GroupKVAdd(context.Context, *pb.KV2Request) (*pb.Empty, error)
	GroupKVDel(context.Context, *pb.KV2Request) (*pb.Empty, error)
	GroupKVReplace(context.Context, *pb.KV2Request) (*pb.Empty, error)
	GroupUpdateRules(context.Context, *pb.GroupRulesRequest) (*pb.Empty, error)
	GroupAddMember(context.Context, *pb.EntityRequest) (*pb.Empty, error)
	GroupDelMember(context.Context, *pb.EntityRequest) (*pb.Empty, error)
	GroupDestroy(context.Context, *pb.GroupRequest) (*pb.Empty, error)
	GroupMembers(context.Context, *pb.GroupRequest) (*pb.ListOfEntities, error)
	GroupSearch(context.Context, *pb.SearchRequest) (*pb.ListOfGroups, error)
	SystemCapabilities(context.Context, *pb.CapabilityRequest) (*pb.Empty, error)
	SystemPing(context.Context, *pb.Empty) (*pb.Empty, error)
	SystemStatus(context.Context, *pb.Empty) (*pb.ServerStatus, error)
}

// KVVal is one value of a key/value attribute.
type KVVal struct {
	V string `json:"v"`
	I *int32 `json:"i,omitempty"`
}

// Op is one request in a replayable form.
type Op struct {
	K    string            `json:"k"`
	E    string            `json:"e,omitempty"`
	G    string            `json:"g,omitempty"`
	Gs   []string          `json:"gs,omitempty"`
	S    string            `json:"s,omitempty"`
	S2   string            `json:"s2,omitempty"`
	N    int32             `json:"n,omitempty"`
	Key  string            `json:"key,omitempty"`
	Val  string            `json:"val,omitempty"`
	Vals []KVVal           `json:"vals,omitempty"`
	Cap  int32             `json:"cap,omitempty"`
	Act  int32             `json:"act,omitempty"`
	Dir  bool              `json:"dir,omitempty"`
	T    string            `json:"t,omitempty"`
	M    map[string]string `json:"m,omitempty"`
	X    bool              `json:"x,omitempty"` // also populate protected fields
	Cred string            `json:"cred,omitempty"`
}

func (o Op) String() string { b, _ := json.Marshal(o); return string(b) }

// Entity meta string fields settable by update.
var entFields = []string{"PrimaryGroup", "GECOS", "LegalName", "DisplayName", "Home", "Shell", "GraphicalShell", "BadgeNumber"}

func setEntField(m *types.EntityMeta, f, v string) {
	p := proto.String(v)
	switch f {
	case "PrimaryGroup":
		m.PrimaryGroup = p
	case "GECOS":
		m.GECOS = p
	case "LegalName":
		m.LegalName = p
	case "DisplayName":
		m.DisplayName = p
	case "Home":
		m.Home = p
	case "Shell":
		m.Shell = p
	case "GraphicalShell":
		m.GraphicalShell = p
	case "BadgeNumber":
		m.BadgeNumber = p
	default:
		panic("field " + f)
	}
}

func entFieldPtr(m *types.EntityMeta, f string) *string {
	if m == nil {
		return nil
	}
	switch f {
	case "PrimaryGroup":
		return m.PrimaryGroup
	case "GECOS":
		return m.GECOS
	case "LegalName":
		return m.LegalName
	case "DisplayName":
		return m.DisplayName
	case "Home":
		return m.Home
	case "Shell":
		return m.Shell
	case "GraphicalShell":
		return m.GraphicalShell
	case "BadgeNumber":
		return m.BadgeNumber
	}
	panic("field " + f)
}

// Res is what a request answered.
type Res struct {
	Code codes.Code
	Err  string
	Msg  proto.Message
	Ents []*types.Entity
	Grps []*types.Group
	Strs []string
	KV   []*types.KVData
	Tok  string
	Stat *pb.ServerStatus
}

// OK tells success.
func (r Res) OK() bool { return r.Code == codes.OK }

func kvdata(o Op) *types.KVData {
	d := &types.KVData{Key: proto.String(o.Key)}
	for _, v := range o.Vals {
		kv := &types.KVValue{Value: proto.String(v.V)}
		if v.I != nil {
			kv.Index = proto.Int32(*v.I)
		}
		d.Values = append(d.Values, kv)
	}
	return d
}

// entReq builds the entity message of an op with every field it needs.
func (o Op) protectedEntity(e *types.Entity) {
	// Populate what a metadata update must not change: everything, or
	// a part of it, with various values.
	x := uint32(o.N)
	bit := func() bool { x = x*1664525 + 1013904223; return o.N < 2 || x>>16&3 > 0 }
	pick := func(n int) int { x = x*1664525 + 1013904223; return int(x>>16) % n }
	if bit() {
		e.Number = proto.Int32([]int32{987654, -1, 0, 1, 2147483647, -2}[pick(6)])
	}
	if bit() {
		e.Secret = proto.String([]string{"leaked-by-update", "", "secret", "x"}[pick(4)])
	}
	m := e.Meta
	if bit() {
		m.Locked = proto.Bool(o.N%2 == 0)
	}
	if bit() {
		m.Groups = [][]string{{"px-group", "g1"}, {}, {"grp", "a"}}[pick(3)]
	}
	if bit() {
		m.Capabilities = [][]types.Capability{{types.Capability_GLOBAL_ROOT, types.Capability_DESTROY_GROUP}, {}, {types.Capability_LOCK_ENTITY}}[pick(3)]
	}
	if bit() {
		m.Keys = [][]string{{"SSH:px-key"}, {}, {"SSH:AAAA", "PGP:B"}}[pick(3)]
	}
	if bit() {
		m.UntypedMeta = [][]string{{"px:1"}, {}, {"k:v", "key{0}:v"}}[pick(3)]
	}
	if bit() {
		m.KV = [][]*types.KVData{{{Key: proto.String("px-kv"), Values: []*types.KVValue{{Value: proto.String("v")}}}}, {}, {{Key: proto.String("k")}}}[pick(3)]
	}
}

func (o Op) protectedGroup(g *types.Group) {
	x := uint32(o.N)
	bit := func() bool { x = x*1664525 + 1013904223; return o.N < 2 || x>>16&3 > 0 }
	pick := func(n int) int { x = x*1664525 + 1013904223; return int(x>>16) % n }
	if bit() {
		g.Number = proto.Int32([]int32{987654, -1, 0, 1, 2147483647, -2}[pick(6)])
	}
	if bit() {
		g.Capabilities = [][]types.Capability{{types.Capability_GLOBAL_ROOT, types.Capability_DESTROY_ENTITY}, {}, {types.Capability_LOCK_ENTITY}}[pick(3)]
	}
	if bit() {
		g.Expansions = [][]string{{"INCLUDE:" + o.G, "EXCLUDE:px-group"}, {}, {"INCLUDE:grp"}}[pick(3)]
	}
	if bit() {
		g.UntypedMeta = [][]string{{"px:1"}, {}, {"k:v", "key{0}:v"}}[pick(3)]
	}
	if bit() {
		g.KV = [][]*types.KVData{{{Key: proto.String("px-kv"), Values: []*types.KVValue{{Value: proto.String("v")}}}}, {}, {{Key: proto.String("k")}}}[pick(3)]
	}
}

// capNone stands for a request that names no capability.
const capNone = -1000

// Exec performs the request.
func Exec(ctx context.Context, s RPC, o Op) Res {
	var err error
	var m proto.Message
	r := Res{}
	ent := func() *types.Entity { return &types.Entity{ID: proto.String(o.E)} }
	grp := func() *types.Group { return &types.Group{Name: proto.String(o.G)} }
	act := pb.Action(o.Act)
	switch o.K {
	case "EntityCreate":
		e := ent()
		e.Number = proto.Int32(o.N)
		e.Secret = proto.String(o.S)
		m, err = s.EntityCreate(ctx, &pb.EntityRequest{Entity: e})
	case "EntityUpdate":
		e := ent()
		e.Meta = &types.EntityMeta{}
		for f, v := range o.M {
			setEntField(e.Meta, f, v)
		}
		if o.X {
			o.protectedEntity(e)
		}
		m, err = s.EntityUpdate(ctx, &pb.EntityRequest{Data: e})
	case "EntityInfo":
		var x *pb.ListOfEntities
		x, err = s.EntityInfo(ctx, &pb.EntityRequest{Entity: ent()})
		r.Ents, m = x.GetEntities(), x
	case "EntitySearch":
		var x *pb.ListOfEntities
		x, err = s.EntitySearch(ctx, &pb.SearchRequest{Expression: proto.String(o.Key)})
		r.Ents, m = x.GetEntities(), x
	case "EntityUM":
		var x *pb.ListOfStrings
		x, err = s.EntityUM(ctx, &pb.KVRequest{Target: proto.String(o.E), Action: &act, Key: proto.String(o.Key), Value: proto.String(o.Val)})
		r.Strs, m = x.GetStrings(), x
	case "EntityKeys":
		var x *pb.ListOfStrings
		x, err = s.EntityKeys(ctx, &pb.KVRequest{Target: proto.String(o.E), Action: &act, Key: proto.String(o.Key), Value: proto.String(o.Val)})
		r.Strs, m = x.GetStrings(), x
	case "EntityKVGet":
		var x *pb.ListOfKVData
		x, err = s.EntityKVGet(ctx, &pb.KV2Request{Target: proto.String(o.E), Data: kvdata(o)})
		r.KV, m = x.GetKVData(), x
	case "EntityKVAdd":
		m, err = s.EntityKVAdd(ctx, &pb.KV2Request{Target: proto.String(o.E), Data: kvdata(o)})
	case "EntityKVDel":
		m, err = s.EntityKVDel(ctx, &pb.KV2Request{Target: proto.String(o.E), Data: kvdata(o)})
	case "EntityKVReplace":
		m, err = s.EntityKVReplace(ctx, &pb.KV2Request{Target: proto.String(o.E), Data: kvdata(o)})
	case "EntityDestroy":
		m, err = s.EntityDestroy(ctx, &pb.EntityRequest{Entity: ent()})
	case "EntityLock":
		m, err = s.EntityLock(ctx, &pb.EntityRequest{Entity: ent()})
	case "EntityUnlock":
		m, err = s.EntityUnlock(ctx, &pb.EntityRequest{Entity: ent()})
	case "EntityGroups":
		var x *pb.ListOfGroups
		x, err = s.EntityGroups(ctx, &pb.EntityRequest{Entity: ent()})
		r.Grps, m = x.GetGroups(), x
	case "AuthEntity":
		m, err = s.AuthEntity(ctx, &pb.AuthRequest{Entity: ent(), Secret: proto.String(o.S)})
	case "AuthGetToken":
		var x *pb.AuthResult
		x, err = s.AuthGetToken(ctx, &pb.AuthRequest{Entity: ent(), Secret: proto.String(o.S)})
		r.Tok, m = x.GetToken(), x
	case "AuthValidateToken":
		m, err = s.AuthValidateToken(ctx, &pb.AuthRequest{Token: proto.String(o.S)})
	case "AuthChangeSecret":
		e := ent()
		e.Secret = proto.String(o.S)
		m, err = s.AuthChangeSecret(ctx, &pb.AuthRequest{Entity: e, Secret: proto.String(o.S2)})
	case "GroupCreate":
		g := grp()
		g.Number = proto.Int32(o.N)
		g.DisplayName = proto.String(o.Val)
		g.ManagedBy = proto.String(o.T)
		m, err = s.GroupCreate(ctx, &pb.GroupRequest{Group: g})
	case "GroupUpdate":
		g := grp()
		if v, ok := o.M["DisplayName"]; ok {
			g.DisplayName = proto.String(v)
		}
		if v, ok := o.M["ManagedBy"]; ok {
			g.ManagedBy = proto.String(v)
		}
		if o.X {
			o.protectedGroup(g)
		}
		m, err = s.GroupUpdate(ctx, &pb.GroupRequest{Group: g})
	case "GroupInfo":
		var x *pb.ListOfGroups
		x, err = s.GroupInfo(ctx, &pb.GroupRequest{Group: grp()})
		r.Grps, m = x.GetGroups(), x
	case "GroupUM":
		var x *pb.ListOfStrings
		x, err = s.GroupUM(ctx, &pb.KVRequest{Target: proto.String(o.G), Action: &act, Key: proto.String(o.Key), Value: proto.String(o.Val)})
		r.Strs, m = x.GetStrings(), x
	case "GroupKVGet":
		var x *pb.ListOfKVData
		x, err = s.GroupKVGet(ctx, &pb.KV2Request{Target: proto.String(o.G), Data: kvdata(o)})
		r.KV, m = x.GetKVData(), x
	case "GroupKVAdd":
		m, err = s.GroupKVAdd(ctx, &pb.KV2Request{Target: proto.String(o.G), Data: kvdata(o)})
	case "GroupKVDel":
		m, err = s.GroupKVDel(ctx, &pb.KV2Request{Target: proto.String(o.G), Data: kvdata(o)})
	case "GroupKVReplace":
		m, err = s.GroupKVReplace(ctx, &pb.KV2Request{Target: proto.String(o.G), Data: kvdata(o)})
	case "GroupUpdateRules":
		ra := pb.RuleAction(o.Act)
		m, err = s.GroupUpdateRules(ctx, &pb.GroupRulesRequest{Group: grp(), Target: &types.Group{Name: proto.String(o.T)}, RuleAction: &ra})
	case "GroupAddMember", "GroupDelMember":
		e := ent()
		gs := o.Gs
		if gs == nil {
			gs = []string{o.G}
		}
		e.Meta = &types.EntityMeta{Groups: gs}
		if o.K == "GroupAddMember" {
			m, err = s.GroupAddMember(ctx, &pb.EntityRequest{Entity: e})
		} else {
			m, err = s.GroupDelMember(ctx, &pb.EntityRequest{Entity: e})
		}
	case "GroupDestroy":
		m, err = s.GroupDestroy(ctx, &pb.GroupRequest{Group: grp()})
	case "GroupMembers":
		var x *pb.ListOfEntities
		x, err = s.GroupMembers(ctx, &pb.GroupRequest{Group: grp()})
		r.Ents, m = x.GetEntities(), x
	case "GroupSearch":
		var x *pb.ListOfGroups
		x, err = s.GroupSearch(ctx, &pb.SearchRequest{Expression: proto.String(o.Key)})
		r.Grps, m = x.GetGroups(), x
	case "SystemCapabilities":
		c := types.Capability(o.Cap)
		rq := &pb.CapabilityRequest{Capability: &c, Direct: proto.Bool(o.Dir), Action: &act, Target: proto.String(o.T)}
		if o.Cap == capNone {
			rq.Capability = nil
		}
		m, err = s.SystemCapabilities(ctx, rq)
	case "SystemPing":
		m, err = s.SystemPing(ctx, &pb.Empty{})
	case "SystemStatus":
		r.Stat, err = s.SystemStatus(ctx, &pb.Empty{})
		m = r.Stat
	default:
		panic("unknown op " + o.K)
	}
	r.Msg = m
	if err != nil {
		st, _ := status.FromError(err)
		r.Code = st.Code()
		r.Err = err.Error()
	}
	return r
}

// Actions by name, to avoid depending on numbers.
const (
	actADD        = int32(pb.Action_ADD)
	actDROP       = int32(pb.Action_DROP)
	actUPSERT     = int32(pb.Action_UPSERT)
	actREAD       = int32(pb.Action_READ)
	actCLEARFUZZY = int32(pb.Action_CLEARFUZZY)
	actCLEAREXACT = int32(pb.Action_CLEAREXACT)
	ruleINC       = int32(pb.RuleAction_INCLUDE)
	ruleEXC       = int32(pb.RuleAction_EXCLUDE)
	ruleDEL       = int32(pb.RuleAction_REMOVE_RULE)
)

var allCaps = func() []int32 {
	out := []int32{}
	for v := range types.Capability_name {
		out = append(out, v)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}()

func opSig(o Op, r Res) string { return fmt.Sprintf("%s/%s/%d", o.K, r.Code, o.Act) }

func sortStrings(l []string) { sort.Strings(l) }
