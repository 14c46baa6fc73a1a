//go:build go1.22

package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	protov2 "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// Whatever a client sends over the network.

const svcPrefix = "/netauth.v2.NetAuth2/"

// rawCodec passes encoded messages through unchanged.
type rawCodec struct{}

func (rawCodec) Marshal(v interface{}) ([]byte, error) { return *v.(*[]byte), nil }
func (rawCodec) Unmarshal(b []byte, v interface{}) error {
	*v.(*[]byte) = append([]byte{}, b...)
	return nil
}
func (rawCodec) Name() string { return "proto" }

var (
	reqTypes = map[string]reflect.Type{}
	resTypes = map[string]reflect.Type{}
)

func init() {
	t := reflect.TypeOf((*RPC)(nil)).Elem()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		reqTypes[m.Name] = m.Type.In(1).Elem()
		resTypes[m.Name] = m.Type.Out(0).Elem()
	}
}

func newMsg(t reflect.Type) proto.Message { return reflect.New(t).Interface().(proto.Message) }

// wNames are the names a hostile client draws from.
type wNames struct{ e, g []string }

var hostileStr = []string{"", ".", "..", "/", "../x", "a/../ea", "\x00", "ea\x00", "\xff\xfe", "*", "?", "[", "%s%n%d", "INCLUDE:gp", "EXCLUDE:", ":", "k{0}", "{0}", "{", "ea ", " ea", "EA", "nosuch", "\n", "ünï\u202e", "𝔘", "gp|gq", "(", "!gp"}

func (n wNames) str(r *rand.Rand, field string) string {
	lower := strings.ToLower(field)
	switch lower {
	case "id", "name", "target", "managedby", "groups", "primarygroup":
		if r.Intn(10) < 7 {
			if r.Intn(2) == 0 {
				return oneOf(r, n.e)
			}
			return oneOf(r, n.g)
		}
	case "key":
		if r.Intn(10) < 6 {
			return oneOf(r, []string{"k1", "k2", "SSH", "PGP"})
		}
	case "secret":
		if r.Intn(10) < 6 {
			return oneOf(r, []string{"s1", "s2"})
		}
	case "expression":
		return fuzzExpr(r)
	case "token":
		return oneOf(r, []string{"", "x", "x.y.z", "..", rootToken(), rootToken() + "x"})
	}
	switch r.Intn(30) {
	case 0:
		return strings.Repeat("x", 1+r.Intn(400))
	case 1:
		return strings.Repeat("é/", 3000)
	case 2:
		b := make([]byte, r.Intn(40))
		r.Read(b)
		return string(b)
	}
	return oneOf(r, hostileStr)
}

// fill populates a message in an arbitrary way.
func (n wNames) fill(r *rand.Rand, m protoreflect.Message, absent int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		req := f.Cardinality() == protoreflect.Required
		if (!req && r.Intn(100) < absent) || (req && r.Intn(40) == 0) {
			continue
		}
		val := func() protoreflect.Value {
			switch f.Kind() {
			case protoreflect.StringKind:
				return protoreflect.ValueOfString(n.str(r, string(f.Name())))
			case protoreflect.BoolKind:
				return protoreflect.ValueOfBool(r.Intn(2) == 0)
			case protoreflect.Int32Kind:
				return protoreflect.ValueOfInt32(oneOf(r, []int32{-1, -1, -1, 0, 1, 2, 5, -2, 1000, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1}))
			case protoreflect.EnumKind:
				vs := f.Enum().Values()
				if r.Intn(4) > 0 {
					return protoreflect.ValueOfEnum(vs.Get(r.Intn(vs.Len())).Number())
				}
				return protoreflect.ValueOfEnum(oneOf(r, []protoreflect.EnumNumber{0, -1, 7, 8, 42, 98, 100, 999, 1 << 30, math.MinInt32}))
			}
			panic("kind " + f.Kind().String())
		}
		switch {
		case f.IsList():
			l := m.Mutable(f).List()
			for k := r.Intn(4); k > 0; k-- {
				if f.Kind() == protoreflect.MessageKind {
					e := l.NewElement()
					n.fill(r, e.Message(), absent)
					l.Append(e)
				} else {
					l.Append(val())
				}
			}
		case f.Kind() == protoreflect.MessageKind:
			s := m.Mutable(f).Message()
			if r.Intn(12) > 0 {
				n.fill(r, s, absent)
			}
		default:
			m.Set(f, val())
		}
	}
}

// mutateBytes damages an encoded message.
func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(3); k > 0; k-- {
		switch x := r.Intn(9); {
		case x == 0 && len(b) > 0: // cut
			b = b[:r.Intn(len(b))]
		case x <= 2 && len(b) > 0: // damage a byte
			b[r.Intn(len(b))] ^= byte(1 << uint(r.Intn(8)))
		case x == 3 && len(b) > 0: // drop a byte
			i := r.Intn(len(b))
			b = append(b[:i], b[i+1:]...)
		case x == 4: // unknown field
			b = append(b, 0xfa, 0x3f, byte(r.Intn(6)))
			b = append(b, "unknown"[:r.Intn(6)]...)
		case x == 5: // a length that lies
			b = append(b, 0x0a, 0xff, 0xff, 0xff, 0xff, 0x07)
		case x == 6: // repeat
			b = append(b, b...)
		case x == 7: // groups within groups
			d := r.Intn(2000)
			b = append(b, bytes.Repeat([]byte{0x7b}, d)...)
			if r.Intn(2) == 0 {
				b = append(b, bytes.Repeat([]byte{0x7c}, d)...)
			}
		default: // noise
			t := make([]byte, r.Intn(30))
			r.Read(t)
			b = append(b, t...)
		}
	}
	return b
}

// fuzzExpr draws a search expression, mostly a malformed one.
func fuzzExpr(r *rand.Rand) string {
	toks := []string{"ID:", "Name:", "meta.", "meta.GECOS:", "Number:", "ea", "gp", "*", "?", "/", "/a.*b/", "/(a|b)+/", "/[/", "/(?P<x>/", "/a{2,1}/", "\"", "\"two words\"", "+", "-", "~", "~2", "~99999", "^", "^2", "^1e400", "^-1", ":", ">", ">=", "<", "<=5", ">=\"2020-01-01\"", "\\", "\\\"", " ", "  ", "(", ")", "AND", "OR", "NOT", "", "\x00", "ü", "\xff", "9999999999999999999999", "-1", ".", "_all:", "\n", "{", "}", "[1 TO 2]", "&&", "||", "!", "a~1", "e*", "*a", "meta.Groups:gp", "secret:s1"}
	s := ""
	for k := 1 + r.Intn(6); k > 0; k-- {
		s += oneOf(r, toks)
	}
	switch r.Intn(60) {
	case 0:
		s = strings.Repeat(s+" ", 1+r.Intn(300))
	case 1:
		s = "/" + strings.Repeat("(", 1+r.Intn(200)) + "a" + strings.Repeat(")*", 1+r.Intn(200)) + "/"
	case 2:
		b := make([]byte, r.Intn(60))
		r.Read(b)
		s = string(b)
	}
	return s
}

// wCred draws the credentials of a request, and tells whether they are
// exactly one valid token with all authority.
func wCred(r *rand.Rand) (metadata.MD, bool, string) {
	md := metadata.MD{}
	hdr := []string{"", "x", "BOGUS_CLIENT", strings.Repeat("n", 2000), "%n%s", "a\tb"}
	for _, k := range []string{"client-name", "service-name"} {
		for n := r.Intn(3); n > 0; n-- {
			md.Append(k, oneOf(r, hdr))
		}
	}
	if r.Intn(8) == 0 {
		b := make([]byte, r.Intn(30))
		r.Read(b)
		md.Append("x-bin", string(b))
	}
	good := rootToken()
	switch r.Intn(16) {
	case 0:
		return md, false, "none"
	case 1:
		md.Append("authorization", "")
		return md, false, "empty"
	case 2:
		md.Append("authorization", good)
		md.Append("authorization", good)
		return md, false, "twice"
	case 3:
		md.Append("authorization", good)
		md.Append("authorization", "")
		return md, false, "and-empty"
	case 4:
		md.Append("authorization", oneOf(r, []string{"x", ".", "..", "...", "e30.e30.e30", "null", "{}", strings.Repeat("A", 5000), "eyJhbGciOiJub25lIn0..", good[1:], good[:len(good)-1], good + ".", " " + good, "\"" + good + "\"", strings.Replace(good, ".", "..", 1), "eyJhbGciOiJSUzUxMiJ9.bnVsbA.AAAA", "eyJhbGciOjF9.e30.AAAA", "bnVsbA.bnVsbA.AAAA"}))
		return md, false, "garbage"
	case 5:
		md.Append("authorization", cachedToken("nobody-at-all"))
		return md, false, "weak"
	}
	md.Append("authorization", good)
	return md, true, "root"
}

// wReq is one request as it goes out.
type wReq struct {
	method string
	body   []byte
	msg    proto.Message // as the server decodes it; nil when it cannot
	md     metadata.MD
	auth   bool
	cred   string
	shape  string
}

func (q *wReq) replay() map[string]interface{} {
	s := ""
	if q.msg != nil {
		s = trunc(proto.CompactTextString(q.msg), 2000)
	}
	return map[string]interface{}{"method": q.method, "credentials": q.cred, "shape": q.shape, "decoded": s, "hex": trunc(hex.EncodeToString(q.body), 4000)}
}

func (n wNames) request(r *rand.Rand) *wReq {
	q := &wReq{method: oneOf(r, rpcMethods)}
	m := newMsg(reqTypes[q.method])
	absent := oneOf(r, []int{0, 0, 5, 25, 60, 100})
	n.fill(r, proto.MessageReflect(m), absent)
	q.shape = fmt.Sprintf("absent%d", absent)
	// What is named is mostly of the kind the request is about.
	if r.Intn(4) > 0 {
		setTarget(q.method, m, func(ent bool) string {
			if ent {
				return n.str(r, "id")
			}
			if r.Intn(10) < 8 {
				return oneOf(r, n.g)
			}
			return n.str(r, "name")
		})
	}
	b, err := proto.Marshal(m)
	if err != nil {
		b, _ = protov2.MarshalOptions{AllowPartial: true}.Marshal(proto.MessageV2(m))
		q.shape = "partial"
	}
	if r.Intn(5) == 0 {
		b = mutateBytes(r, b)
		q.shape = "damaged"
	}
	q.body = b
	d := newMsg(reqTypes[q.method])
	if proto.Unmarshal(b, d) == nil {
		q.msg = d
	} else {
		q.shape += "/undecodable"
	}
	q.md, q.auth, q.cred = wCred(r)
	return q
}

func setTarget(method string, m proto.Message, name func(ent bool) string) {
	ent := strings.HasPrefix(method, "Entity")
	switch x := m.(type) {
	case *pb.EntityRequest:
		if x.Entity != nil {
			x.Entity.ID = proto.String(name(true))
		}
		if x.Data != nil {
			x.Data.ID = proto.String(name(true))
		}
	case *pb.GroupRequest:
		if x.Group != nil {
			x.Group.Name = proto.String(name(false))
		}
	case *pb.GroupRulesRequest:
		if x.Group != nil {
			x.Group.Name = proto.String(name(false))
		}
		if x.Target != nil {
			x.Target.Name = proto.String(name(false))
		}
	case *pb.KVRequest:
		x.Target = proto.String(name(ent))
	case *pb.KV2Request:
		x.Target = proto.String(name(ent))
	case *pb.AuthRequest:
		if x.Entity != nil {
			x.Entity.ID = proto.String(name(true))
		}
	case *pb.CapabilityRequest:
		x.Target = proto.String(name(x.GetDirect()))
	}
}

// wTarget is the record a request is about.
func wTarget(method string, m proto.Message) (rec, name string) {
	ent := func(id string) (string, string) { return "/entities/" + id, id }
	grp := func(id string) (string, string) { return "/groups/" + id, id }
	switch x := m.(type) {
	case *pb.EntityRequest:
		if method == "EntityUpdate" {
			return ent(x.GetData().GetID())
		}
		return ent(x.GetEntity().GetID())
	case *pb.GroupRequest:
		return grp(x.GetGroup().GetName())
	case *pb.GroupRulesRequest:
		return grp(x.GetGroup().GetName())
	case *pb.KVRequest:
		if strings.HasPrefix(method, "Entity") {
			return ent(x.GetTarget())
		}
		return grp(x.GetTarget())
	case *pb.KV2Request:
		if strings.HasPrefix(method, "Entity") {
			return ent(x.GetTarget())
		}
		return grp(x.GetTarget())
	case *pb.AuthRequest:
		return ent(x.GetEntity().GetID())
	case *pb.CapabilityRequest:
		if x.GetDirect() {
			return ent(x.GetTarget())
		}
		return grp(x.GetTarget())
	}
	return "", ""
}

// wMutating tells whether a request asks for a change.
func wMutating(method string, m proto.Message) bool {
	if _, ok := needCap[method]; !ok {
		return false
	}
	if k, ok := m.(*pb.KVRequest); ok && k.GetAction() == pb.Action_READ {
		return false
	}
	return true
}

// wRefuse tells why a request has to fail, if it has to.
func wRefuse(q *wReq, before map[string]string) string {
	if q.msg == nil {
		return "it can not be decoded"
	}
	if strings.HasPrefix(q.method, "Auth") && q.method != "AuthChangeSecret" && q.method != "AuthValidateToken" {
		rec, _ := wTarget(q.method, q.msg)
		if _, ok := before[rec]; !ok {
			return "the entity does not exist"
		}
	}
	switch x := q.msg.(type) {
	case *pb.KVRequest:
		a := x.GetAction()
		okUM := a == pb.Action_READ || a == pb.Action_UPSERT || a == pb.Action_CLEAREXACT || a == pb.Action_CLEARFUZZY
		okKey := a == pb.Action_READ || a == pb.Action_ADD || a == pb.Action_DROP
		if (q.method == "EntityKeys" && !okKey) || (q.method != "EntityKeys" && !okUM) {
			return fmt.Sprintf("action %d is not defined for it", a)
		}
	}
	if !wMutating(q.method, q.msg) {
		return ""
	}
	if !q.auth {
		return "it carries no single token with authority (" + q.cred + ")"
	}
	rec, name := wTarget(q.method, q.msg)
	_, exists := before[rec]
	if q.method == "EntityCreate" || q.method == "GroupCreate" {
		if exists {
			return "it creates what exists"
		}
		if !validName(name) {
			return "nothing can have that name"
		}
	} else if !exists {
		if (q.method == "GroupAddMember" || q.method == "GroupDelMember") && len(q.msg.(*pb.EntityRequest).GetEntity().GetMeta().GetGroups()) == 0 {
			return ""
		}
		return fmt.Sprintf("%q does not exist", rec)
	}
	switch x := q.msg.(type) {
	case *pb.GroupRulesRequest:
		if _, ok := pb.RuleAction_name[int32(x.GetRuleAction())]; !ok {
			return fmt.Sprintf("rule action %d is not defined", x.GetRuleAction())
		}
		if x.GetRuleAction() != pb.RuleAction_REMOVE_RULE {
			if _, ok := before["/groups/"+x.GetTarget().GetName()]; !ok {
				return "the target group does not exist"
			}
		}
	case *pb.CapabilityRequest:
		if x.GetAction() != pb.Action_ADD && x.GetAction() != pb.Action_DROP {
			return fmt.Sprintf("action %d is not defined for it", x.GetAction())
		}
		if _, ok := types.Capability_name[int32(x.GetCapability())]; !ok && x.GetAction() == pb.Action_ADD {
			return fmt.Sprintf("capability %d is not defined", x.GetCapability())
		}
		if x.Capability == nil {
			return "it names no capability"
		}
	case *pb.KV2Request:
		if x.Data == nil {
			return "it carries no data"
		}
	}
	return ""
}

const wDeadline = 30 * time.Second

func wInvoke(conn *grpc.ClientConn, ctx context.Context, q *wReq) (code codes.Code, errText string, body []byte) {
	err := conn.Invoke(metadata.NewOutgoingContext(ctx, q.md), svcPrefix+q.method, &q.body, &body, grpc.ForceCodec(rawCodec{}), grpc.MaxCallSendMsgSize(1<<30))
	if err == nil {
		return codes.OK, "", body
	}
	st, _ := status.FromError(err)
	return st.Code(), err.Error(), body
}

var wSetup = []Op{
	{K: "EntityCreate", E: "st", N: 7, S: "st-secret"}, {K: "EntityUpdate", E: "st", M: map[string]string{"GECOS": "constant"}},
	{K: "EntityCreate", E: "ea", N: 8, S: "s1"}, {K: "EntityCreate", E: "eb", N: -1, S: "s2"}, {K: "EntityCreate", E: "ec", N: -1, S: "s1"},
	{K: "GroupCreate", G: "sg", N: 7}, {K: "GroupCreate", G: "gp", N: -1}, {K: "GroupCreate", G: "gq", N: -1, T: "gp"}, {K: "GroupCreate", G: "gr", N: -1},
	{K: "GroupUpdateRules", G: "gq", T: "gr", Act: ruleINC}, {K: "GroupUpdateRules", G: "gp", T: "gr", Act: ruleEXC},
	{K: "GroupAddMember", E: "st", G: "sg"}, {K: "GroupAddMember", E: "ea", G: "gp"}, {K: "GroupAddMember", E: "eb", G: "gr"},
	{K: "EntityKVAdd", E: "ea", Key: "k1", Vals: []KVVal{{V: "v"}}}, {K: "GroupKVAdd", G: "gp", Key: "k1", Vals: []KVVal{{V: "v"}}},
	{K: "EntityUM", E: "ea", Act: actUPSERT, Key: "k1", Val: "v"}, {K: "EntityKeys", E: "ea", Act: actADD, Key: "SSH", Val: "k"},
}

var wPool = wNames{e: []string{"ea", "eb", "ec", "ed", "ef"}, g: []string{"gp", "gq", "gr", "gs", "gt"}}

// wAlive checks that the server still does its work.
func wAlive(w *wire, md metadata.MD) string {
	ctx, cancel := context.WithTimeout(metadata.NewOutgoingContext(context.Background(), md), wDeadline)
	defer cancel()
	if _, err := w.c.SystemPing(ctx, &pb.Empty{}); err != nil {
		return "ping: " + err.Error()
	}
	return ""
}

func wAliveFull(w *wire) string {
	ctx, cancel := context.WithTimeout(context.Background(), wDeadline)
	defer cancel()
	x, err := w.c.EntityInfo(ctx, &pb.EntityRequest{Entity: &types.Entity{ID: proto.String("st")}})
	if err != nil {
		return "entity info: " + err.Error()
	}
	if len(x.Entities) != 1 || x.Entities[0].GetNumber() != 7 || x.Entities[0].GetMeta().GetGECOS() != "constant" {
		return "entity info: " + trunc(proto.CompactTextString(x), 300)
	}
	m, err := w.c.GroupMembers(ctx, &pb.GroupRequest{Group: &types.Group{Name: proto.String("sg")}})
	if err != nil {
		return "group members: " + err.Error()
	}
	if !sameStrings(entityNames(m.Entities), []string{"st"}) {
		return "group members: " + fmt.Sprint(entityNames(m.Entities))
	}
	if _, err := w.c.AuthEntity(ctx, &pb.AuthRequest{Entity: &types.Entity{ID: proto.String("st")}, Secret: proto.String("st-secret")}); err != nil {
		return "authentication: " + err.Error()
	}
	k := &pb.KVRequest{Target: proto.String("st"), Action: pb.Action_UPSERT.Enum(), Key: proto.String("alive"), Value: proto.String("x")}
	if _, err := w.c.EntityUM(metadata.AppendToOutgoingContext(ctx, "authorization", rootToken()), k); err != nil {
		return "a change: " + err.Error()
	}
	return ""
}

func wWorld(c *Ctx, i int) (*World, *netServer) {
	w := MustWorld(c, WOpts{Backend: linBackends[i%3]})
	if w == nil {
		return nil, nil
	}
	for _, o := range wSetup {
		if r := Exec(ctxRoot(), w.Srv, o); !r.OK() {
			c.Violate("setup:"+o.K, fmt.Sprintf("%s refused with %s", o, r.Err), nil)
			w.Close()
			return nil, nil
		}
	}
	n, err := serve(w.Srv)
	if err != nil {
		c.Inconclusive("listen: " + err.Error())
		w.Close()
		return nil, nil
	}
	return w, n
}

// wSequence sends malformed requests one after the other and watches
// what each does to the stored data.
func wSequence(c *Ctx, i int, r *rand.Rand) {
	w, n := wWorld(c, i)
	if w == nil {
		return
	}
	defer w.Close()
	defer n.stop()
	conn, wr, err := dial(n.addr)
	if err != nil {
		c.Inconclusive("dial")
		return
	}
	defer conn.Close()
	last := filepath.Join(c.Scratch, fmt.Sprintf("last-%d", i))
	defer os.Remove(last)
	for k := 0; k < c.N(150, 700); k++ {
		q := wPool.request(r)
		if !wJudge(c, w, conn, wr, q, last, fmt.Sprintf("sequence[%d] request %d on %s", i, k, w.Backend)) {
			return
		}
		if k%10 == 9 {
			if s := wAliveFull(wr); s != "" {
				c.Violate("damaged:"+q.method, "afterwards the server does not do its work: "+s, q.replay())
				return
			}
		}
	}
}

// wJudge sends one request and judges what it did.
func wJudge(c *Ctx, w *World, conn *grpc.ClientConn, wr *wire, q *wReq, last, where string) bool {
	before, err := w.Spy.Dump()
	if err != nil {
		c.Violate("unreadable", err.Error(), q.replay())
		return false
	}
	why := wRefuse(q, before)
	os.WriteFile(last, []byte(fmt.Sprintf("%v", q.replay())), 0644)
	ctx, cancel := context.WithTimeout(context.Background(), wDeadline)
	code, text, body := wInvoke(conn, ctx, q)
	cancel()
	rep := q.replay()
	rep["answer"] = code.String() + " " + text
	rep["case"] = where
	after, err := w.Spy.Dump()
	if err != nil {
		c.Violate("unreadable", err.Error(), rep)
		return false
	}
	c.Eval(fmt.Sprintf("%s/%s/%s/%s/%v", q.method, q.shape, q.cred, code, why != ""))
	c.Count("answer:"+code.String(), 1)
	if why != "" {
		c.Count("must_be_refused", 1)
	}
	d := rawDiff(before, after)
	bad := func(key, msg string) bool {
		c.Violate(key+":"+q.method, msg, rep)
		return false
	}
	switch {
	case code == codes.DeadlineExceeded:
		return bad("unanswered", "no answer within 30 s")
	case code == codes.Unavailable:
		return bad("unavailable", "the connection broke: "+text)
	case code == codes.OK && why != "":
		return bad("accepted", "accepted although "+why+"; stored data: "+d)
	case code != codes.OK && d != "":
		return bad("changed", "refused, and yet stored data changed: "+d)
	case code == codes.OK && d != "" && !wMutating(q.method, q.msg):
		return bad("changed", "a request that only reads changed stored data: "+d)
	}
	if code == codes.OK {
		if err := proto.Unmarshal(body, newMsg(resTypes[q.method])); err != nil {
			return bad("answer", "the answer can not be decoded: "+err.Error())
		}
		rec, _ := wTarget(q.method, q.msg)
		for _, s := range sortedKeys(union2(before, after)) {
			if before[s] == after[s] {
				continue
			}
			c.Count("changes_observed", 1)
			if s != rec {
				return bad("elsewhere", fmt.Sprintf("the request is about %q but changed %q", rec, s))
			}
			v, ok := after[s]
			if !ok {
				continue
			}
			name := ""
			if strings.HasPrefix(s, "/entities/") {
				e := &types.Entity{}
				err = proto.Unmarshal([]byte(v), e)
				name = "/entities/" + e.GetID()
			} else {
				g := &types.Group{}
				err = proto.Unmarshal([]byte(v), g)
				name = "/groups/" + g.GetName()
			}
			if err != nil || name != s {
				return bad("record", fmt.Sprintf("what is stored under %q afterwards is %q %v", s, name, err))
			}
		}
	}
	if s := wAlive(wr, nil); s != "" {
		return bad("dead", "afterwards the server does not answer: "+s)
	}
	if c.NeedSample() && code != codes.OK && q.msg != nil {
		c.Sample(rep)
	}
	return true
}

// captured collects requests instead of sending them.
type captured struct {
	method string
	msg    proto.Message
}

// take lets the client code build the message of a request.
func (k *captured) take(o Op) {
	conn, err := grpc.Dial("127.0.0.1:1", grpc.WithInsecure(), grpc.WithUnaryInterceptor(
		func(ctx context.Context, method string, req, reply interface{}, cc *grpc.ClientConn, invoker grpc.UnaryInvoker, opts ...grpc.CallOption) error {
			k.method, k.msg = strings.TrimPrefix(method, svcPrefix), req.(proto.Message)
			return errors.New("captured")
		}))
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	Exec(ctxNone(), &wire{pb.NewNetAuth2Client(conn)}, o)
}

// wBase is one well-formed, acceptable request of each kind.
var wBase1 = []Op{
	{K: "EntityCreate", E: "new", N: 50, S: "s"}, {K: "EntityUpdate", E: "ea", M: map[string]string{"GECOS": "g", "Home": "h", "PrimaryGroup": "gp"}},
	{K: "EntityInfo", E: "ea"}, {K: "EntitySearch", Key: "ID:ea"}, {K: "EntityUM", E: "ea", Act: actUPSERT, Key: "k9", Val: "v"},
	{K: "EntityUM", E: "ea", Act: actCLEAREXACT, Key: "k1"}, {K: "EntityUM", E: "ea", Act: actCLEARFUZZY, Key: "k1"}, {K: "EntityUM", E: "ea", Act: actREAD, Key: "k1"},
	{K: "EntityKVGet", E: "ea", Key: "k1"}, {K: "EntityKVAdd", E: "ea", Key: "k9", Vals: []KVVal{{V: "v"}}}, {K: "EntityKVDel", E: "ea", Key: "k1"},
	{K: "EntityKVReplace", E: "ea", Key: "k1", Vals: []KVVal{{V: "w"}}}, {K: "EntityKeys", E: "ea", Act: actADD, Key: "SSH", Val: "n"}, {K: "EntityKeys", E: "ea", Act: actDROP, Key: "SSH", Val: "k"},
	{K: "EntityKeys", E: "ea", Act: actREAD}, {K: "EntityDestroy", E: "ea"}, {K: "EntityLock", E: "ea"}, {K: "EntityUnlock", E: "ea"}, {K: "EntityGroups", E: "ea"},
	{K: "AuthEntity", E: "ea", S: "s1"}, {K: "AuthGetToken", E: "ea", S: "s1"}, {K: "AuthValidateToken", S: "x"}, {K: "AuthChangeSecret", E: "ea", S: "s1", S2: "s3"},
	{K: "GroupCreate", G: "new", N: 50, Val: "d", T: "gp"}, {K: "GroupUpdate", G: "gp", M: map[string]string{"DisplayName": "d", "ManagedBy": "gq"}, X: true}, {K: "GroupInfo", G: "gp"},
	{K: "GroupUM", G: "gp", Act: actUPSERT, Key: "k", Val: "v"}, {K: "GroupUM", G: "gp", Act: actREAD, Key: "*"}, {K: "GroupKVGet", G: "gp", Key: "k1"}, {K: "GroupKVAdd", G: "gp", Key: "k9", Vals: []KVVal{{V: "v"}}},
	{K: "GroupKVDel", G: "gp", Key: "k1"}, {K: "GroupKVReplace", G: "gp", Key: "k1", Vals: []KVVal{{V: "w"}}}, {K: "GroupUpdateRules", G: "gp", T: "sg", Act: ruleINC}, {K: "GroupUpdateRules", G: "gq", T: "gr", Act: ruleDEL},
	{K: "GroupAddMember", E: "ea", G: "gr"}, {K: "GroupDelMember", E: "ea", G: "gp"}, {K: "GroupDestroy", G: "gp"}, {K: "GroupMembers", G: "gp"}, {K: "GroupSearch", Key: "Name:gp"},
	{K: "SystemCapabilities", T: "ea", Dir: true, Act: actADD, Cap: capLock}, {K: "SystemCapabilities", T: "gp", Act: actADD, Cap: capLock}, {K: "SystemCapabilities", T: "ea", Dir: true, Act: actDROP, Cap: capLock}, {K: "SystemPing"}, {K: "SystemStatus"},
}

// variants yields every message that differs from m in one place.
func variants(m proto.Message, each func(proto.Message, string)) {
	var walk func(cur protoreflect.Message, emit func(), path string)
	root := proto.Clone(m)
	walk = func(cur protoreflect.Message, emit func(), path string) {
		fs := cur.Descriptor().Fields()
		for i := 0; i < fs.Len(); i++ {
			f := fs.Get(i)
			p := path + "." + string(f.Name())
			had := cur.Has(f)
			old := cur.Get(f)
			restore := func() {
				if had {
					cur.Set(f, old)
				} else {
					cur.Clear(f)
				}
			}
			if had {
				cur.Clear(f)
				emit()
				restore()
			}
			try := func(v protoreflect.Value) {
				if f.IsList() {
					l := cur.NewField(f).List()
					l.Append(v)
					cur.Set(f, protoreflect.ValueOfList(l))
				} else {
					cur.Set(f, v)
				}
				emit()
				restore()
			}
			switch f.Kind() {
			case protoreflect.StringKind:
				for _, s := range hostileStr {
					try(protoreflect.ValueOfString(s))
				}
				try(protoreflect.ValueOfString(strings.Repeat("n", 70000)))
			case protoreflect.EnumKind:
				for k := 0; k < f.Enum().Values().Len(); k++ {
					try(protoreflect.ValueOfEnum(f.Enum().Values().Get(k).Number()))
				}
				for _, k := range []protoreflect.EnumNumber{0, -1, 7, 42, 98, 100, 999, math.MaxInt32, math.MinInt32} {
					try(protoreflect.ValueOfEnum(k))
				}
			case protoreflect.Int32Kind:
				for _, k := range []int32{-2, -1, 0, 1, math.MaxInt32, math.MinInt32} {
					try(protoreflect.ValueOfInt32(k))
				}
			case protoreflect.BoolKind:
				try(protoreflect.ValueOfBool(true))
				try(protoreflect.ValueOfBool(false))
			case protoreflect.MessageKind:
				if f.IsList() {
					l := cur.NewField(f).List()
					l.Append(l.NewElement())
					l.Append(l.NewElement())
					cur.Set(f, protoreflect.ValueOfList(l))
					emit()
					restore()
					if had && old.List().Len() > 0 {
						walk(old.List().Get(0).Message(), emit, p+"[0]")
					}
					continue
				}
				cur.Set(f, cur.NewField(f))
				emit()
				restore()
				if had {
					walk(old.Message(), emit, p)
				}
			}
		}
	}
	path := ""
	walk(proto.MessageReflect(root), func() { each(root, path) }, "")
}

// wGrid departs from a well-formed request of each kind in one place at
// a time.
func wGrid(c *Ctx, i int) {
	k := &captured{}
	k.take(wBase1[i])
	w, n := wWorld(c, 0)
	if w == nil {
		return
	}
	defer w.Close()
	defer n.stop()
	conn, wr, err := dial(n.addr)
	if err != nil {
		c.Inconclusive("dial")
		return
	}
	defer conn.Close()
	last := filepath.Join(c.Scratch, fmt.Sprintf("last-g%d", i))
	defer os.Remove(last)
	start, err := w.Spy.Dump()
	if err != nil {
		c.Violate("unreadable", err.Error(), nil)
		return
	}
	ok := true
	nth := 0
	send := func(m proto.Message, shape string) {
		if !ok {
			return
		}
		nth++
		q := &wReq{method: k.method, shape: shape, md: metadata.MD{"authorization": []string{rootToken()}}, auth: true, cred: "root"}
		q.body, err = proto.Marshal(m)
		if err != nil {
			q.body, _ = protov2.MarshalOptions{AllowPartial: true}.Marshal(proto.MessageV2(m))
		}
		d := newMsg(reqTypes[q.method])
		if proto.Unmarshal(q.body, d) == nil {
			q.msg = d
		}
		if ok = wJudge(c, w, conn, wr, q, last, fmt.Sprintf("grid[%d] variant %d", i, nth)); !ok {
			return
		}
		c.Eval(fmt.Sprintf("grid/%d/%d", i, nth))
		// Back to where it started.
		now, err := w.Spy.Dump()
		if err != nil {
			c.Violate("unreadable", err.Error(), q.replay())
			ok = false
			return
		}
		for _, s := range sortedKeys(union2(start, now)) {
			v, was := start[s]
			switch {
			case !was:
				w.Spy.under.Del(s)
			case now[s] != v:
				w.Spy.under.Put(s, []byte(v))
			}
		}
	}
	send(k.msg, "well-formed")
	variants(k.msg, func(m proto.Message, p string) { send(m, "one-place") })
	if ok {
		if s := wAliveFull(wr); s != "" {
			c.Violate("damaged:"+k.method, "afterwards the server does not do its work: "+s, nil)
		}
	}
	c.Count("grid_variants", nth)
}

func union2(a, b map[string]string) map[string]bool {
	out := map[string]bool{}
	for k := range a {
		out[k] = true
	}
	for k := range b {
		out[k] = true
	}
	return out
}

// wOverlap sends malformed requests from many clients at once, some of
// which give up, next to connections that speak no protocol at all.
func wOverlap(c *Ctx, i int, r *rand.Rand) {
	w, n := wWorld(c, i)
	if w == nil {
		return
	}
	defer w.Close()
	defer n.stop()
	var wg sync.WaitGroup
	var reqs, cancels int64
	P := 8
	for p := 0; p < P; p++ {
		wg.Add(1)
		s := r.Int63()
		go func(p int) {
			defer wg.Done()
			r := rand.New(rand.NewSource(s))
			conn, _, err := dial(n.addr)
			if err != nil {
				return
			}
			defer conn.Close()
			last := filepath.Join(c.Scratch, fmt.Sprintf("last-o%d-%d", i, p))
			defer os.Remove(last)
			for k := 0; k < c.N(120, 500); k++ {
				q := wPool.request(r)
				os.WriteFile(last, []byte(fmt.Sprintf("%v", q.replay())), 0644)
				d := wDeadline
				giveUp := r.Intn(6) == 0
				if giveUp {
					d = time.Duration(r.Intn(2000)) * time.Microsecond
				}
				ctx, cancel := context.WithTimeout(context.Background(), d)
				code, text, _ := wInvoke(conn, ctx, q)
				cancel()
				atomic.AddInt64(&reqs, 1)
				if giveUp {
					atomic.AddInt64(&cancels, 1)
					continue
				}
				if code == codes.DeadlineExceeded || code == codes.Unavailable {
					c.Violate("overlap:"+code.String(), q.method+" among overlapping requests: "+text, q.replay())
					return
				}
				if why := wRefuseStateless(q); why != "" && code == codes.OK {
					c.Violate("accepted:"+q.method, "accepted although "+why, q.replay())
					return
				}
				c.Eval(fmt.Sprintf("overlap/%s/%s/%s", q.method, q.shape, code))
			}
		}(p)
	}
	for p := 0; p < 3; p++ {
		wg.Add(1)
		s := r.Int63()
		go func() {
			defer wg.Done()
			noise(rand.New(rand.NewSource(s)), n.addr, c.N(25, 100))
		}()
	}
	// Unfinished requests: streams opened and left alone.
	conn, wr, err := dial(n.addr)
	if err == nil {
		sctx, stop := context.WithCancel(context.Background())
		for k := 0; k < 30; k++ {
			conn.NewStream(sctx, &grpc.StreamDesc{ClientStreams: true, ServerStreams: true}, svcPrefix+oneOf(r, rpcMethods))
		}
		for k := 0; k < 10; k++ {
			var out, in []byte
			err := conn.Invoke(context.Background(), oneOf(r, []string{"/nope", "/netauth.v2.NetAuth2/Nope", "/netauth.v1.NetAuth/EntityInfo", "//", "/netauth.v2.NetAuth2/"}), &in, &out, grpc.ForceCodec(rawCodec{}))
			if err == nil {
				c.Violate("unknown-method", "a method that does not exist answers", nil)
			}
		}
		wg.Wait()
		if s := wAlive(wr, nil); s != "" {
			c.Violate("overlap:dead", "with unfinished requests open the server does not answer: "+s, i)
		}
		stop()
	}
	wg.Wait()
	if wr != nil {
		if s := wAliveFull(wr); s != "" {
			c.Violate("overlap:damaged", "afterwards the server does not do its work: "+s, i)
		}
		conn.Close()
	}
	if _, err := w.Spy.Dump(); err != nil {
		c.Violate("overlap:unreadable", err.Error(), i)
	}
	c.Count("overlapping_requests", int(reqs))
	c.Count("given_up", int(cancels))
	c.Count("noise_connections", 3*c.N(25, 100))
}

// wRefuseStateless is wRefuse for what does not depend on stored data.
func wRefuseStateless(q *wReq) string {
	if q.msg == nil {
		return "it can not be decoded"
	}
	if wMutating(q.method, q.msg) && !q.auth {
		return "it carries no single token with authority (" + q.cred + ")"
	}
	return ""
}

// noise opens connections that do not speak the protocol.
func noise(r *rand.Rand, addr string, n int) {
	for k := 0; k < n; k++ {
		cn, err := net.DialTimeout("tcp", addr, 5*time.Second)
		if err != nil {
			return
		}
		b := make([]byte, r.Intn(400))
		r.Read(b)
		pre := []byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")
		frame := func(t, flags byte, stream uint32, body []byte) []byte {
			return append([]byte{byte(len(body) >> 16), byte(len(body) >> 8), byte(len(body)), t, flags, byte(stream >> 24), byte(stream >> 16), byte(stream >> 8), byte(stream)}, body...)
		}
		switch r.Intn(6) {
		case 0:
		case 1:
			b = append([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"), b...)
		case 2:
			b = append(pre[:r.Intn(len(pre))], b...)
		case 3:
			b = append(pre, b...)
		default:
			x := append(append([]byte{}, pre...), frame(4, 0, 0, nil)...)
			for j := r.Intn(6); j > 0; j-- {
				t := make([]byte, r.Intn(50))
				r.Read(t)
				x = append(x, frame(byte(r.Intn(12)), byte(r.Intn(256)), uint32(r.Intn(5)), t)...)
			}
			b = x
		}
		cn.SetDeadline(time.Now().Add(time.Second))
		cn.Write(b)
		if r.Intn(2) == 0 {
			cn.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
			io := make([]byte, 100)
			cn.Read(io)
		}
		if r.Intn(3) == 0 {
			if t, ok := cn.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
		}
		cn.Close()
	}
}

// wLarge sends messages of unusual size.
func wLarge(c *Ctx, i int, r *rand.Rand) {
	w, n := wWorld(c, i)
	if w == nil {
		return
	}
	defer w.Close()
	defer n.stop()
	conn, wr, err := dial(n.addr)
	if err != nil {
		return
	}
	defer conn.Close()
	root := metadata.MD{"authorization": []string{rootToken()}}
	big := func(n int) *string { return proto.String(strings.Repeat("z", n)) }
	type lr struct {
		method string
		m      proto.Message
	}
	sz := oneOf(r, []int{200 << 10, 1 << 20, 3 << 20, 5 << 20})
	many := func(n int) []string {
		out := make([]string, n)
		for k := range out {
			out[k] = fmt.Sprintf("g%d", k)
		}
		return out
	}
	for _, b := range [][]byte{bytes.Repeat([]byte{0x7b}, sz/2), append(bytes.Repeat([]byte{0x7b}, sz/2), bytes.Repeat([]byte{0x7c}, sz/2)...), bytes.Repeat([]byte{0x0a, 0x00}, sz/2), bytes.Repeat([]byte{0x12, 0x00}, sz/2)} {
		ctx, cancel := context.WithTimeout(context.Background(), wDeadline)
		m := oneOf(r, rpcMethods)
		code, text, _ := wInvoke(conn, ctx, &wReq{method: m, body: b})
		cancel()
		c.Eval(fmt.Sprintf("large/nested/%s", code))
		if code == codes.DeadlineExceeded || code == codes.Unavailable {
			c.Violate("nested:"+m, "a large, deeply nested request: "+trunc(text, 200), hex.EncodeToString(b[:40]))
			return
		}
	}
	for _, q := range []lr{
		{"EntityCreate", &pb.EntityRequest{Entity: &types.Entity{ID: big(sz), Secret: big(10)}}},
		{"EntityCreate", &pb.EntityRequest{Entity: &types.Entity{ID: proto.String("ed"), Secret: big(sz)}}},
		{"EntityInfo", &pb.EntityRequest{Entity: &types.Entity{ID: big(sz)}}},
		{"EntitySearch", &pb.SearchRequest{Expression: big(sz / 4)}},
		{"AuthEntity", &pb.AuthRequest{Entity: &types.Entity{ID: proto.String("ea")}, Secret: big(sz)}},
		{"AuthValidateToken", &pb.AuthRequest{Token: big(sz)}},
		{"EntityUM", &pb.KVRequest{Target: proto.String("eb"), Action: pb.Action_UPSERT.Enum(), Key: big(sz), Value: big(3)}},
		{"EntityKVAdd", &pb.KV2Request{Target: proto.String("eb"), Data: &types.KVData{Key: proto.String("big"), Values: []*types.KVValue{{Value: big(sz / 2)}}}}},
		{"GroupUpdate", &pb.GroupRequest{Group: &types.Group{Name: proto.String("gp"), DisplayName: big(sz / 2)}}},
		{"GroupAddMember", &pb.EntityRequest{Entity: &types.Entity{ID: proto.String("eb"), Meta: &types.EntityMeta{Groups: many(3000)}}}},
		{"GroupDelMember", &pb.EntityRequest{Entity: &types.Entity{ID: proto.String("eb"), Meta: &types.EntityMeta{Groups: many(20000)}}}},
	} {
		b, _ := proto.Marshal(q.m)
		before, _ := w.Spy.Dump()
		ctx, cancel := context.WithTimeout(context.Background(), wDeadline)
		code, text, _ := wInvoke(conn, ctx, &wReq{method: q.method, body: b, md: root})
		cancel()
		rep := map[string]interface{}{"method": q.method, "size": len(b), "answer": code.String() + " " + trunc(text, 200), "backend": w.Backend}
		c.Eval(fmt.Sprintf("large/%s/%d/%s", q.method, sz, code))
		c.Count("large_requests", 1)
		if code == codes.DeadlineExceeded || code == codes.Unavailable {
			c.Violate("large:"+q.method, "a large request: "+trunc(text, 200), rep)
			return
		}
		after, err := w.Spy.Dump()
		if err != nil {
			c.Violate("large-unreadable:"+q.method, trunc(err.Error(), 300), rep)
			return
		}
		if code != codes.OK && rawDiff(before, after) != "" {
			c.Violate("large-changed:"+q.method, "refused, and yet stored data changed: "+rawDiff(before, after), rep)
			return
		}
		if s := wAliveFull(wr); s != "" {
			c.Violate("large-dead:"+q.method, "afterwards: "+trunc(s, 300), rep)
			return
		}
	}
}

// wSearch sends search expressions.
func wSearch(c *Ctx, i int, r *rand.Rand) {
	w, n := wWorld(c, 0)
	if w == nil {
		return
	}
	defer w.Close()
	defer n.stop()
	conn, wr, err := dial(n.addr)
	if err != nil {
		return
	}
	defer conn.Close()
	last := filepath.Join(c.Scratch, fmt.Sprintf("last-s%d", i))
	defer os.Remove(last)
	for k := 0; k < c.N(400, 2500); k++ {
		x := fuzzExpr(r)
		q := &wReq{method: oneOf(r, []string{"EntitySearch", "GroupSearch"})}
		q.body, _ = proto.Marshal(&pb.SearchRequest{Expression: proto.String(x)})
		os.WriteFile(last, q.body, 0644)
		ctx, cancel := context.WithTimeout(context.Background(), wDeadline)
		code, text, _ := wInvoke(conn, ctx, q)
		cancel()
		c.Eval(fmt.Sprintf("search/%s/%s/%d", q.method, code, len(x)/8))
		c.Count("search:"+code.String(), 1)
		if code == codes.DeadlineExceeded || code == codes.Unavailable {
			c.Violate("search:"+code.String(), fmt.Sprintf("searching %q: %s", trunc(x, 300), text), map[string]string{"expression": x})
			return
		}
	}
	if s := wAliveFull(wr); s != "" {
		c.Violate("search:dead", "afterwards: "+s, i)
	}
}

// wRepeat makes the same request very often, with and without success,
// and in between asks whether the server still does its work: nothing
// that is used up by a request may stay used up.
func wRepeat(c *Ctx, i int, r *rand.Rand) {
	k := &captured{}
	k.take(wBase1[i])
	w, n := wWorld(c, 0)
	if w == nil {
		return
	}
	defer w.Close()
	defer n.stop()
	conn, wr, err := dial(n.addr)
	if err != nil {
		c.Inconclusive("dial")
		return
	}
	defer conn.Close()
	type kind struct {
		m    proto.Message
		tok  string
		what string
	}
	kinds := []kind{{k.msg, rootToken(), "well-formed"}, {k.msg, "", "without a token"}, {k.msg, "x.y.z", "with a bad token"}}
	odd := []proto.Message{}
	variants(k.msg, func(m proto.Message, p string) {
		if b, err := proto.Marshal(m); err == nil && len(b) < 2000 {
			odd = append(odd, proto.Clone(m))
		}
	})
	r.Shuffle(len(odd), func(a, b int) { odd[a], odd[b] = odd[b], odd[a] })
	// One for each answer there is.
	seen := map[string]bool{}
	for _, m := range odd {
		code, _ := wCall(w, k.method, m, rootToken())
		if what := "odd: " + code; !seen[what] || len(seen) < 3 && len(kinds) < 6 {
			seen[what] = true
			kinds = append(kinds, kind{m, rootToken(), what})
		}
	}
	for _, q := range kinds {
		reps := c.N(1200, 20000)
		var at int64
		codes := map[string]int{}
		done := make(chan bool)
		before := runtime.NumGoroutine()
		go func() {
			defer close(done)
			for j := 0; j < reps; j++ {
				code, _ := wCall(w, k.method, q.m, q.tok)
				codes[code]++
				atomic.AddInt64(&at, 1)
			}
		}()
		last, since := int64(-1), time.Now()
		for wait := true; wait; {
			select {
			case <-done:
				wait = false
			case <-time.After(200 * time.Millisecond):
				if v := atomic.LoadInt64(&at); v != last {
					last, since = v, time.Now()
				} else if time.Since(since) > wDeadline {
					c.Violate("repeat:stuck:"+k.method, fmt.Sprintf("%s (%s) made %d times is answered no more: %s", k.method, q.what, v, trunc(fmt.Sprint(q.m), 300)), i)
					return
				}
			}
		}
		if s := wAliveFull(wr); s != "" {
			c.Violate("repeat:dead:"+k.method, fmt.Sprintf("after %d times %s (%s) the server does not do its work: %s", reps, k.method, q.what, s), fmt.Sprint(q.m))
			return
		}
		left := runtime.NumGoroutine() - before
		for wait := 0; left > reps/4 && wait < 50; wait++ {
			time.Sleep(100 * time.Millisecond)
			left = runtime.NumGoroutine() - before
		}
		if left > reps/4 {
			c.Violate("repeat:left-running:"+k.method, fmt.Sprintf("%d times %s (%s) left %d goroutines running", reps, k.method, q.what, left), fmt.Sprint(q.m))
			return
		}
		for code := range codes {
			c.Eval(fmt.Sprintf("repeat/%d/%s/%s", i, q.what, code))
		}
		c.Count("requests repeated", reps)
	}
}

// wCall calls a handler directly.
func wCall(w *World, method string, m proto.Message, tok string) (string, proto.Message) {
	ctx := context.Background()
	if tok != "" {
		ctx = metadata.NewIncomingContext(ctx, metadata.Pairs("authorization", tok))
	}
	in := newMsg(reqTypes[method])
	b, _ := protov2.MarshalOptions{AllowPartial: true}.Marshal(proto.MessageV2(m))
	if err := (protov2.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, proto.MessageV2(in)); err != nil {
		return "unmarshal", nil
	}
	out := reflect.ValueOf(w.Srv).MethodByName(method).Call([]reflect.Value{reflect.ValueOf(ctx), reflect.ValueOf(in)})
	if err, _ := out[1].Interface().(error); err != nil {
		return status.Code(err).String(), nil
	}
	res, _ := out[0].Interface().(proto.Message)
	return "OK", res
}

// Rules that fan out: each of two groups per level includes both groups
// of the level below.  The work must not double with every level.
const ladderDepth = 21

func subLadder(args []string) {
	c := &Ctx{ID: "sub", Tier: "quick", Scratch: args[0], viol: map[string]*Violation{}, counters: map[string]int64{}, distinct: map[uint64]struct{}{}}
	initCommon(c)
	w, err := NewWorld(c, WOpts{})
	if err != nil {
		fmt.Println("error", err)
		os.Exit(3)
	}
	do := func(o Op) time.Duration {
		t := time.Now()
		if r := Exec(ctxRoot(), w.Srv, o); !r.OK() {
			fmt.Println("error", o, r.Err)
			os.Exit(3)
		}
		return time.Since(t)
	}
	nm := func(l, k int) string { return fmt.Sprintf("l%d-%d", l, k) }
	for k := 0; k < 2; k++ {
		do(Op{K: "GroupCreate", G: nm(0, k), N: -1})
	}
	do(Op{K: "EntityCreate", E: "e", N: -1, S: "s"})
	do(Op{K: "GroupAddMember", E: "e", G: nm(0, 0)})
	for l := 1; l <= ladderDepth; l++ {
		var worst time.Duration
		for k := 0; k < 2; k++ {
			do(Op{K: "GroupCreate", G: nm(l, k), N: -1})
			for j := 0; j < 2; j++ {
				if t := do(Op{K: "GroupUpdateRules", G: nm(l, k), T: nm(l-1, j), Act: ruleINC}); t > worst {
					worst = t
				}
			}
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		fmt.Println("level", l, worst.Milliseconds(), ms.HeapInuse>>20)
		if worst > 10*time.Second || ms.HeapInuse > 600<<20 {
			fmt.Println("stopped", l)
			os.Exit(0)
		}
	}
	r := Exec(ctxNone(), w.Srv, Op{K: "GroupMembers", G: nm(ladderDepth, 0)})
	fmt.Println("done", len(r.Ents))
}

func wLadder(c *Ctx) {
	self, _ := os.Executable()
	d := filepath.Join(c.Scratch, "ladder")
	os.MkdirAll(d, 0755)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "sub-ladder", d)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	end := lines[len(lines)-1]
	c.Eval("ladder/" + strings.Fields(end + " x")[0])
	switch {
	case end == "done 1":
	case strings.HasPrefix(end, "stopped") || errors.Is(ctx.Err(), context.DeadlineExceeded):
		c.Violate("ladder", fmt.Sprintf("with two groups per level, each including both groups of the level below, time and memory of a request double with every level; reached: %s", strings.Join(lines, "; ")), map[string]interface{}{"levels": ladderDepth, "output": lines})
	case strings.HasPrefix(end, "done"):
		c.Violate("ladder-members", "the members of the top group of a ladder of rules: "+end, nil)
	default:
		fr := crashFrame(errb.String())
		if fr == "" {
			c.Inconclusive(fmt.Sprintf("ladder: %v %s", err, trunc(errb.String(), 300)))
			return
		}
		c.Violate("ladder-crash:"+fr, "the process running the server ended: "+firstLine(errb.String()), trunc(errb.String(), 4000))
	}
}

func init() {
	subs["sub-ladder"] = subLadder
	register(&Check{
		ID:       "P26",
		Rule:     "situations are distinct (request, shape of the message, credentials, answer, whether it had to be refused) over the network, plus search expressions, large messages, overlapping and abandoned requests",
		MinEvals: 1500,
		Assume:   []string{"an answer is expected within 30 s", "a membership request naming no group may succeed without effect", "exhausting memory by storing ever more data is not judged"},
		Run: func(c *Ctx) {
			c.Cases("grid", len(wBase1), func(i int, r *rand.Rand) { wGrid(c, i) })
			c.Cases("sequence", c.N(24, 300), func(i int, r *rand.Rand) { wSequence(c, i, r) })
			c.CasesP("overlap", c.N(6, 60), 3, func(i int, r *rand.Rand) { wOverlap(c, i, r) })
			c.CasesP("large", c.N(3, 24), 3, func(i int, r *rand.Rand) { wLarge(c, i, r) })
			c.CasesP("repeat", len(wBase1), 8, func(i int, r *rand.Rand) { wRepeat(c, i, r) })
			c.Cases("search", c.N(8, 60), func(i int, r *rand.Rand) { wSearch(c, i, r) })
			if c.only < 0 {
				c.Guard("ladder", func() { wLadder(c) })
			}
		},
	})
}
