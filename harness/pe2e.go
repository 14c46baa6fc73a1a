//go:build go1.22

package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/status"

	types "github.com/netauth/protocol"
	pb "github.com/netauth/protocol/v2"
)

// The daemon and the command line tool as programs.

var e2eSeq int64

// e2e is one installation: a configuration and a data directory, a
// client configuration, and possibly a running daemon.
type e2e struct {
	c    *Ctx
	dir  string
	be   string
	port int
	// configuration of the next start
	readonly bool
	lifetime string
	extra    string // of the configuration
	env      []string
	flags    []string
	cliEnv   []string
	tls      bool
	cert     *x509.CertPool

	cmd    *exec.Cmd
	out    *bytes.Buffer
	done   chan error
	conn   *grpc.ClientConn
	w      *wire
	starts int
}

func newE2E(c *Ctx, be string) *e2e {
	d := filepath.Join(c.Scratch, fmt.Sprintf("e%d", atomic.AddInt64(&e2eSeq, 1)))
	for _, s := range []string{"conf/keys", "data", "client/keys", "tmp", "cwd"} {
		if err := os.MkdirAll(filepath.Join(d, s), 0755); err != nil {
			c.Inconclusive(err.Error())
			return nil
		}
	}
	// Generating keys is the subject of another property; save the time.
	for _, k := range []string{"token.pem", "token.key"} {
		b, err := os.ReadFile(filepath.Join(confDir, "keys", k))
		if err != nil {
			c.Inconclusive(err.Error())
			return nil
		}
		mode := os.FileMode(0644)
		if k == "token.key" {
			mode = 0400
		}
		os.WriteFile(filepath.Join(d, "conf/keys", k), b, mode)
		if k == "token.pem" {
			os.WriteFile(filepath.Join(d, "client/keys", k), b, mode)
		}
	}
	return &e2e{c: c, dir: d, be: be}
}

func freePort() int {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 0
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// writeConf writes both configurations.
func (x *e2e) writeConf() error {
	s := fmt.Sprintf("[core]\nhome = %q\n[server]\nbind = \"127.0.0.1\"\nport = %d\nreadonly = %v\n[db]\nbackend = %q\n[crypto.bcrypt]\ncost = 4\n[token]\n", filepath.Join(x.dir, "data"), x.port, x.readonly, x.be)
	if x.lifetime != "" {
		s += fmt.Sprintf("lifetime = %q\n", x.lifetime)
	}
	s += x.extra
	if x.tls {
		s += "[tls]\ncertificate = \"keys/tls.pem\"\nkey = \"keys/tls.key\"\n"
	}
	if err := os.WriteFile(filepath.Join(x.dir, "conf/config.toml"), []byte(s), 0644); err != nil {
		return err
	}
	cl := fmt.Sprintf("[core]\nserver = \"127.0.0.1\"\nport = %d\n[tls]\npwn_me = %v\ncertificate = \"keys/tls.pem\"\n", x.port, !x.tls)
	return os.WriteFile(filepath.Join(x.dir, "client/config.toml"), []byte(cl), 0644)
}

// makeCert writes a certificate for the loopback address.
func (x *e2e) makeCert() error {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return err
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "127.0.0.1"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		return err
	}
	kd, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		return err
	}
	cp := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	kp := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd})
	os.WriteFile(filepath.Join(x.dir, "conf/keys/tls.pem"), cp, 0644)
	os.WriteFile(filepath.Join(x.dir, "conf/keys/tls.key"), kp, 0600)
	os.WriteFile(filepath.Join(x.dir, "client/keys/tls.pem"), cp, 0644)
	x.cert = x509.NewCertPool()
	x.cert.AppendCertsFromPEM(cp)
	return nil
}

// launch runs the daemon without waiting for it to serve.
func (x *e2e) launch(flags ...string) error {
	cmd := exec.Command(filepath.Join(x.c.Bin, "netauthd"), flags...)
	cmd.Dir = filepath.Join(x.dir, "conf")
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(x.dir, "cwd"), "TMPDIR=" + filepath.Join(x.dir, "tmp"), "NETAUTH_LOGLEVEL=DEBUG"}
	cmd.Env = append(cmd.Env, x.env...)
	x.out = &bytes.Buffer{}
	cmd.Stdout, cmd.Stderr = x.out, x.out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	if err := cmd.Start(); err != nil {
		return err
	}
	x.cmd = cmd
	x.done = make(chan error, 1)
	d := x.done
	go func() { d <- cmd.Wait() }()
	return nil
}

// start runs the daemon and waits until it answers.
func (x *e2e) start(boot string) error {
	for try := 0; ; try++ {
		x.port = freePort()
		if err := x.writeConf(); err != nil {
			return err
		}
		fl := append([]string{}, x.flags...)
		if !x.tls {
			fl = append(fl, "--tls.PWN_ME")
		}
		if boot != "" {
			fl = append(fl, "--server.bootstrap", boot)
		}
		if err := x.launch(fl...); err != nil {
			return err
		}
		x.starts++
		opt := grpc.WithInsecure()
		if x.tls {
			opt = grpc.WithTransportCredentials(credentials.NewClientTLSFromCert(x.cert, ""))
		}
		conn, err := grpc.Dial(fmt.Sprintf("127.0.0.1:%d", x.port), opt)
		if err != nil {
			return err
		}
		x.conn = conn
		x.w = &wire{pb.NewNetAuth2Client(conn)}
		until := time.Now().Add(60 * time.Second)
		for {
			cx, cancel := context.WithTimeout(context.Background(), time.Second)
			_, err := x.w.c.EntityInfo(cx, &pb.EntityRequest{Entity: &types.Entity{}})
			cancel()
			if r := errCode(err); r != codes.Unavailable && r != codes.DeadlineExceeded {
				return nil
			}
			select {
			case e := <-x.done:
				x.done <- e
				conn.Close()
				if strings.Contains(x.out.String(), "Could not bind") && try < 5 {
					goto again
				}
				return fmt.Errorf("the daemon ended: %v: %s", e, trunc(tail(x.out.String(), 1500), 1500))
			default:
			}
			if time.Now().After(until) {
				x.kill()
				return fmt.Errorf("the daemon does not answer: %v: %s", err, tail(x.out.String(), 1500))
			}
			time.Sleep(15 * time.Millisecond)
		}
	again:
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// stop ends the daemon by signal and waits for it.
func (x *e2e) stop(sig syscall.Signal) error {
	if x.conn != nil {
		x.conn.Close()
		x.conn = nil
	}
	if x.cmd == nil {
		return nil
	}
	x.cmd.Process.Signal(sig)
	select {
	case e := <-x.done:
		x.cmd = nil
		if sig == syscall.SIGKILL {
			return nil
		}
		return e
	case <-time.After(40 * time.Second):
		x.kill()
		return fmt.Errorf("the daemon did not stop on signal %v: %s", sig, tail(x.out.String(), 800))
	}
}

func (x *e2e) kill() {
	if x.cmd != nil {
		x.cmd.Process.Kill()
		<-x.done
		x.cmd = nil
	}
}

func (x *e2e) close() {
	if x.conn != nil {
		x.conn.Close()
	}
	x.kill()
	os.RemoveAll(x.dir)
}

// cli runs the tool.  Each run has its own token cache unless told.
func (x *e2e) cli(tmp, stdin string, args ...string) runRes {
	if tmp == "" {
		tmp = filepath.Join(x.dir, "tmp", fmt.Sprint("t", atomic.AddInt64(&e2eSeq, 1)))
		os.MkdirAll(tmp, 0755)
		defer os.RemoveAll(tmp)
	}
	cx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(cx, filepath.Join(x.c.Bin, "netauth"), append([]string{"--config", filepath.Join(x.dir, "client/config.toml")}, args...)...)
	cmd.Dir = filepath.Join(x.dir, "cwd")
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(x.dir, "cwd"), "TMPDIR=" + tmp}
	cmd.Env = append(cmd.Env, x.cliEnv...)
	cmd.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Pdeathsig: syscall.SIGKILL}
	err := cmd.Run()
	r := runRes{Out: out.String() + errb.String()}
	x.c.Count("commands run", 1)
	if cx.Err() != nil {
		r.Hung, r.Code = true, -1
		return r
	}
	if err != nil {
		r.Code = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.Code = e.ExitCode()
		}
	}
	return r
}

// cliArgs turns a request into a command line; false when the tool has
// no command for it.
func cliArgs(o Op, self string, r *rand.Rand) (flags, pos []string, ok bool) {
	low := func(s string) string {
		switch r.Intn(3) {
		case 0:
			return strings.ToLower(s)
		case 1:
			return s[:1] + strings.ToLower(s[1:])
		}
		return s
	}
	umAct := map[int32]string{actUPSERT: "UPSERT", actCLEAREXACT: "CLEAREXACT", actCLEARFUZZY: "CLEARFUZZY", actREAD: "READ"}
	um := func(sub, t string) {
		pos = []string{sub, "kv", t, low(umAct[o.Act]), o.Key}
		if o.Act == actUPSERT {
			pos = append(pos, o.Val)
		}
	}
	kv2 := func(verb, kind, t string) bool {
		pos = []string{"kv2", verb, low(kind), t, o.Key}
		if verb == "add" || verb == "replace" {
			for _, v := range o.Vals {
				pos = append(pos, v.V)
			}
			return len(o.Vals) > 0 && regular(o)
		}
		return true
	}
	switch o.K {
	case "EntityCreate":
		pos = []string{"entity", "create", o.E}
		if o.N != -1 || r.Intn(2) == 0 {
			flags = append(flags, fmt.Sprintf("--number=%d", o.N))
		}
		flags = append(flags, "--initial-secret="+o.S)
	case "EntityDestroy":
		pos = []string{"entity", "destroy", o.E}
	case "EntityInfo":
		pos = []string{"entity", "info", o.E}
	case "EntityLock":
		pos = []string{"entity", "lock", o.E}
	case "EntityUnlock":
		pos = []string{"entity", "unlock", o.E}
	case "EntityGroups":
		pos = []string{"entity", "memberships", o.E}
	case "EntityUpdate":
		pos = []string{"entity", "update", o.E}
		names := map[string]string{"PrimaryGroup": "primary-group", "GECOS": "GECOS", "LegalName": "legalName", "DisplayName": "displayName", "Home": "homedir", "Shell": "shell", "GraphicalShell": "graphicalShell", "BadgeNumber": "badgeNumber"}
		for _, f := range sortedKeys(o.M) {
			flags = append(flags, "--"+names[f]+"="+o.M[f])
		}
	case "EntityUM":
		um("entity", o.E)
	case "GroupUM":
		um("group", o.G)
	case "EntityKeys":
		if o.E != self || r.Intn(2) == 0 {
			if o.E == "" {
				return nil, nil, false
			}
			flags = append(flags, "--entityID="+o.E)
		}
		switch o.Act {
		case actADD:
			pos = []string{"entity", "key", low("ADD"), o.Key, o.Val}
		case actDROP:
			pos = []string{"entity", "key", low("DROP"), o.Val}
		case actREAD:
			pos = []string{"entity", "key", low("READ")}
			if !(o.Key == "SSH" && r.Intn(2) == 0) {
				pos = append(pos, o.Key)
			}
		}
	case "EntityKVAdd":
		ok := kv2("add", "entity", o.E)
		return flags, pos, ok
	case "EntityKVReplace":
		ok := kv2("replace", "entity", o.E)
		return flags, pos, ok
	case "EntityKVDel":
		kv2("del", "entity", o.E)
	case "EntityKVGet":
		kv2("get", "entity", o.E)
	case "GroupKVAdd":
		ok := kv2("add", "group", o.G)
		return flags, pos, ok
	case "GroupKVReplace":
		ok := kv2("replace", "group", o.G)
		return flags, pos, ok
	case "GroupKVDel":
		kv2("del", "group", o.G)
	case "GroupKVGet":
		kv2("get", "group", o.G)
	case "AuthChangeSecret":
		if o.E != self || r.Intn(2) == 0 {
			flags = append(flags, "--csEntity="+o.E)
		}
		flags = append(flags, "--csSecret="+o.S2)
		pos = []string{"auth", "change-secret"}
	case "GroupCreate":
		pos = []string{"group", "create", o.G}
		if o.N != -1 || r.Intn(2) == 0 {
			flags = append(flags, fmt.Sprintf("--number=%d", o.N))
		}
		if o.Val != "" || r.Intn(2) == 0 {
			flags = append(flags, "--display-name="+o.Val)
		}
		if o.T != "" || r.Intn(2) == 0 {
			flags = append(flags, "--managed-by="+o.T)
		}
	case "GroupDestroy":
		pos = []string{"group", "destroy", o.G}
	case "GroupInfo":
		pos = []string{"group", "info", o.G}
	case "GroupMembers":
		pos = []string{"group", "members", o.G}
	case "GroupUpdate":
		pos = []string{"group", "update", o.G}
		if v, ok := o.M["DisplayName"]; ok {
			flags = append(flags, "--display-name="+v)
		}
		if v, ok := o.M["ManagedBy"]; ok {
			flags = append(flags, "--managed-by="+v)
		}
	case "GroupUpdateRules":
		a := map[int32]string{ruleINC: "INCLUDE", ruleEXC: "EXCLUDE", ruleDEL: "DROP"}[o.Act]
		pos = []string{"group", "rule", o.G, low(a), o.T}
	case "GroupAddMember":
		pos = []string{"entity", "membership", o.E, low("ADD"), o.G}
	case "GroupDelMember":
		pos = []string{"entity", "membership", o.E, low("DROP"), o.G}
	case "SystemCapabilities":
		pos = []string{"system", "capability", o.T, low(pb.Action(o.Act).String()), low(types.Capability(o.Cap).String())}
		if o.Dir {
			flags = append(flags, "--direct")
		}
	case "AuthEntity":
		pos = []string{"auth", "check"}
	case "AuthValidateToken":
		pos = []string{"auth", "validate-token"}
	case "AuthGetToken":
		pos = []string{"auth", "get-token"}
	case "SystemPing":
		pos = []string{"system", "ping"}
	case "SystemStatus":
		pos = []string{"system", "status"}
	default:
		return nil, nil, false
	}
	for _, s := range append(append([]string{}, flags...), pos...) {
		if strings.Contains(s, "\x00") {
			return nil, nil, false
		}
	}
	return flags, pos, true
}

// cmdLine assembles the words the shell would pass.
func cmdLine(ent, sec string, flags, pos []string, r *rand.Rand) []string {
	auth := []string{"--entity=" + ent, "--secret=" + sec}
	out := append([]string{}, auth...)
	dash := r.Intn(2) == 0
	for _, p := range pos[2:] {
		dash = dash || strings.HasPrefix(p, "-")
	}
	out = append(out, pos[:2]...)
	out = append(out, flags...)
	if dash {
		out = append(out, "--")
	}
	return append(out, pos[2:]...)
}

// view reads everything over the network.
func (x *e2e) view(m *Model, names, gnames []string, auth bool) (Flat, Flat, error) {
	sec := map[string]string{}
	want := m.Flatten()
	if auth {
		for n, e := range m.E {
			sec[n] = e.Secret
		}
	} else {
		for k := range want {
			if strings.HasSuffix(k, "/auth") {
				delete(want, k)
			}
		}
	}
	got, err := audit(x.w, nil, union(sortedKeys(m.E), names), union(sortedKeys(m.G), gnames), sec)
	if err != nil {
		return nil, nil, err
	}
	all := Exec(ctxNone(), x.w, Op{K: "EntitySearch", Key: "Number:>=-2147483648"})
	got["LIST/entities"] = qlist(entityNames(all.Ents))
	all = Exec(ctxNone(), x.w, Op{K: "GroupSearch", Key: "Number:>=-2147483648"})
	got["LIST/groups"] = qlist(groupNames(all.Grps))
	return want, got, nil
}

// check compares everything over the network with the reference.
func (x *e2e) check(m *Model, names, gnames []string, auth bool, when string, log []string) bool {
	want, got, err := x.view(m, names, gnames, auth)
	if err != nil {
		x.c.Inconclusive(err.Error())
		return false
	}
	x.c.EvalN(len(want), "")
	ds := diffFlat(want, got)
	if len(ds) > 0 {
		x.c.Violate("state:"+when+":"+ds[0].Aspect(), fmt.Sprintf("after %s: %s", when, trunc(ds[0].String(), 600)), map[string]interface{}{"backend": x.be, "history": log})
		return false
	}
	return true
}

// shown tells what a reading command must have printed.
func shown(m *Model, o Op) []string {
	lines := []string{}
	add := func(f string, a ...interface{}) { lines = append(lines, fmt.Sprintf(f, a...)) }
	kvlines := func(s string) {
		for _, v := range kvVals(s) {
			add("  %s", v)
		}
	}
	switch o.K {
	case "EntityInfo":
		e := m.E[o.E]
		if e == nil {
			return nil
		}
		add("ID: %s", o.E)
		add("Number: %d", e.Num)
		lab := map[string]string{"PrimaryGroup": "Primary Group", "GECOS": "GECOS", "LegalName": "legalName", "DisplayName": "displayname", "Home": "homedir", "Shell": "shell", "GraphicalShell": "graphicalShell", "BadgeNumber": "badgeNumber"}
		for _, f := range entFields {
			if v := e.Meta[f]; v != "" {
				add("%s: %s", lab[f], v)
			}
		}
		for _, c := range sortedI32(e.Caps) {
			add("  - %s", types.Capability(c))
		}
	case "GroupInfo":
		g := m.G[o.G]
		if g == nil {
			return nil
		}
		add("Name: %s", o.G)
		add("Number: %d", g.Num)
		add("Display Name: %s", g.Disp)
		for t, mode := range g.Rules {
			add("Rule: %s:%s", ruleName(mode), t)
		}
		for _, c := range sortedI32(g.Caps) {
			add("  - %s", types.Capability(c))
		}
	case "EntityGroups":
		for _, g := range m.Effective(o.E) {
			add("Name: %s", g)
		}
	case "GroupMembers":
		for _, e := range m.Members(o.G) {
			add("ID: %s", e)
		}
	case "EntityUM", "GroupUM":
		if o.Act != actREAD {
			return nil
		}
		var um map[string]string
		if o.K == "EntityUM" {
			if m.E[o.E] == nil {
				return nil
			}
			um = m.E[o.E].UM
		} else {
			if m.G[o.G] == nil {
				return nil
			}
			um = m.G[o.G].UM
		}
		for _, s := range umRead(um, o.Key) {
			_, v, _ := strings.Cut(s, ":")
			add("  %s", v)
		}
	case "EntityKeys":
		if o.Act != actREAD || m.E[o.E] == nil {
			return nil
		}
		for k := range m.E[o.E].Keys {
			t, v, _ := strings.Cut(k, ":")
			if o.Key == "*" || strings.ToUpper(o.Key) == t {
				add("  %s", v)
			}
		}
	case "EntityKVGet":
		if m.E[o.E] != nil {
			kvlines(m.E[o.E].KV[o.Key])
		}
	case "GroupKVGet":
		if m.G[o.G] != nil {
			kvlines(m.G[o.G].KV[o.Key])
		}
	}
	return lines
}

var e2eW = merge(wBase, wLife, wMemb, wAttr, wMeta, wSec, wCap, GenW{"EntityInfo": 5, "GroupInfo": 5, "EntityGroups": 4, "GroupMembers": 4, "AuthEntity": 4, "AuthGetToken": 2, "EntityKVGet": 5, "GroupKVGet": 5, "EntityUpdate": 4, "GroupUpdate": 4})

// e2eLarge starts the daemon on much data: what it answers from its
// first answer on is complete.
func e2eLarge(c *Ctx, i int, r *rand.Rand) {
	x := newE2E(c, []string{"filesystem", "bitcask"}[i%2])
	if x == nil {
		return
	}
	defer x.close()
	nE, nG := 900+r.Intn(900), 30+r.Intn(60)
	recs := map[string]string{}
	put := func(k string, m proto.Message) bool {
		b, err := proto.Marshal(m)
		if err != nil {
			c.Inconclusive(err.Error())
			return false
		}
		recs[k] = string(b)
		return true
	}
	all := &types.Group{Name: proto.String("all"), Number: proto.Int32(int32(nG))}
	for j := 0; j < nG; j++ {
		n := fmt.Sprintf("g%d", j)
		all.Expansions = append(all.Expansions, "INCLUDE:"+n)
		if !put("/groups/"+n, &types.Group{Name: proto.String(n), Number: proto.Int32(int32(j)), DisplayName: proto.String("many")}) {
			return
		}
	}
	if !put("/groups/all", all) {
		return
	}
	in := map[string][]string{}
	for j := 0; j < nE; j++ {
		n, g := fmt.Sprintf("e%d", j), fmt.Sprintf("g%d", r.Intn(nG))
		in[g] = append(in[g], n)
		in["all"] = append(in["all"], n)
		if !put("/entities/"+n, &types.Entity{ID: proto.String(n), Number: proto.Int32(int32(j)), Meta: &types.EntityMeta{Groups: []string{g}, Shell: proto.String("many")}}) {
			return
		}
	}
	if err := kvFill(x.be, filepath.Join(x.dir, "data"), recs, nil); err != nil {
		c.Inconclusive(err.Error())
		return
	}
	if err := x.start(""); err != nil {
		c.Violate("large-start", err.Error(), map[string]interface{}{"backend": x.be, "entities": nE, "groups": nG})
		return
	}
	g := fmt.Sprintf("g%d", r.Intn(nG))
	type ask struct {
		o    Op
		want int
	}
	asks := []ask{{Op{K: "GroupMembers", G: "all"}, nE}, {Op{K: "GroupMembers", G: g}, len(in[g])}, {Op{K: "EntitySearch", Key: "meta.Shell:many"}, nE}, {Op{K: "GroupSearch", Key: "DisplayName:many"}, nG}, {Op{K: "EntityGroups", E: in["all"][nE-1]}, 2}}
	r.Shuffle(len(asks), func(a, b int) { asks[a], asks[b] = asks[b], asks[a] })
	for _, a := range asks {
		res := Exec(ctxNone(), x.w, a.o)
		if n := len(res.Ents) + len(res.Grps); !res.OK() || n != a.want {
			c.Violate("large:"+a.o.K, fmt.Sprintf("a daemon just started on %d entities and %d groups answers %s with %d instead of %d (%s)", nE, nG+1, a.o, n, a.want, resStr(res)), map[string]interface{}{"backend": x.be})
			return
		}
		c.Eval(fmt.Sprintf("large/%s/%s", x.be, a.o.K))
	}
	c.Count("records present at a start", nE+nG+1)
	if err := x.stop(syscall.SIGTERM); err != nil {
		c.Violate("large-stop", err.Error(), nil)
	}
}

// e2eWalk uses each command where it succeeds.
func e2eWalk(r *rand.Rand, es, gs []string) []Op {
	e, e2, g, g2 := es[0], es[1], gs[0], gs[1]
	num := int32(40 + r.Intn(5)) // numbers may be given twice
	val := func() string {
		return oneOf(r, []string{"v", "two words", " lead", "trail ", "a:b", "", "ünï", "{1}", "V"})
	}
	vals := func() []KVVal {
		v := []KVVal{}
		for n := 2 + r.Intn(12); len(v) < n; {
			v = append(v, KVVal{V: fmt.Sprintf("%s%d", val(), r.Intn(20))})
		}
		return v
	}
	ops := []Op{
		{K: "EntityCreate", E: e, N: num, S: "secret"}, {K: "EntityCreate", E: e2, N: oneOf(r, []int32{-1, num}), S: "Secret"}, {K: "EntityInfo", E: e}, {K: "EntityInfo", E: e2},
		{K: "GroupCreate", G: g, N: -1, Val: "first"}, {K: "GroupCreate", G: g2, N: int32(50 + r.Intn(5)), T: g}, {K: "GroupInfo", G: g}, {K: "GroupInfo", G: g2},
		{K: "GroupAddMember", E: e, G: g}, {K: "GroupAddMember", E: e2, G: g}, {K: "GroupAddMember", E: e2, G: g2}, {K: "GroupMembers", G: g}, {K: "EntityGroups", E: e2},
		{K: "EntityLock", E: e2}, {K: "GroupMembers", G: g}, {K: "AuthEntity", E: e2, S: "Secret"}, {K: "EntityUnlock", E: e2}, {K: "AuthEntity", E: e2, S: "Secret"},
		{K: "GroupUpdateRules", G: g2, T: g, Act: ruleINC}, {K: "GroupMembers", G: g2}, {K: "GroupInfo", G: g2}, {K: "GroupUpdateRules", G: g2, T: g, Act: ruleDEL}, {K: "GroupMembers", G: g2},
		{K: "GroupUpdateRules", G: g, T: g2, Act: ruleEXC}, {K: "GroupMembers", G: g}, {K: "GroupDelMember", E: e2, G: g2}, {K: "GroupMembers", G: g},
		{K: "GroupUpdate", G: g2, M: map[string]string{"DisplayName": val(), "ManagedBy": g2}}, {K: "GroupInfo", G: g2},
		{K: "EntityUpdate", E: e, M: map[string]string{"Home": val(), "Shell": val(), "GECOS": val(), "LegalName": val()}}, {K: "EntityUpdate", E: e, M: map[string]string{"PrimaryGroup": g, "DisplayName": val(), "BadgeNumber": "7", "GraphicalShell": val()}}, {K: "EntityInfo", E: e},
	}
	for _, t := range []Op{{K: "Entity", E: e}, {K: "Group", G: g}} {
		k := oneOf(r, []string{"key", "a b", "Key", "x.y"})
		add := func(what string, o Op) { o.K, o.E, o.G = t.K+what, t.E, t.G; ops = append(ops, o) }
		add("KVAdd", Op{Key: k, Vals: vals()})
		add("KVGet", Op{Key: k})
		add("KVReplace", Op{Key: k, Vals: vals()})
		add("KVGet", Op{Key: k})
		add("KVAdd", Op{Key: "more", Vals: vals()[:1]})
		add("KVDel", Op{Key: k})
		add("KVGet", Op{Key: k})
		add("KVGet", Op{Key: "more"})
		for j := 0; j < 3; j++ {
			add("UM", Op{Act: actUPSERT, Key: fmt.Sprintf("um{%d}", []int{11, 2, 130}[j]), Val: "v" + val()})
		}
		add("UM", Op{Act: actUPSERT, Key: "other", Val: "w" + val()})
		add("UM", Op{Act: actUPSERT, Key: "Other", Val: "W" + val()})
		add("UM", Op{Act: actREAD, Key: "um"})
		add("UM", Op{Act: actREAD, Key: "*"})
		add("UM", Op{Act: actUPSERT, Key: "other", Val: "x" + val()})
		add("UM", Op{Act: actCLEAREXACT, Key: "um{2}"})
		add("UM", Op{Act: actREAD, Key: "*"})
		add("UM", Op{Act: actCLEARFUZZY, Key: "um"})
		add("UM", Op{Act: actREAD, Key: "*"})
	}
	return append(ops,
		Op{K: "EntityKeys", E: e, Act: actADD, Key: "ssh", Val: "k1 " + val()}, Op{K: "EntityKeys", E: e, Act: actADD, Key: "PGP", Val: "k2"}, Op{K: "EntityKeys", E: e, Act: actREAD, Key: "ssh"}, Op{K: "EntityKeys", E: e, Act: actREAD, Key: "*"},
		Op{K: "EntityKeys", E: e, Act: actDROP, Val: "k2"}, Op{K: "EntityKeys", E: e, Act: actREAD, Key: "*"},
		Op{K: "SystemCapabilities", T: e, Dir: true, Act: actADD, Cap: allCaps[r.Intn(len(allCaps))]}, Op{K: "EntityInfo", E: e}, Op{K: "SystemCapabilities", T: g, Act: actADD, Cap: allCaps[1]}, Op{K: "SystemCapabilities", T: g, Act: actDROP, Cap: allCaps[1]}, Op{K: "GroupInfo", G: g},
		Op{K: "AuthChangeSecret", E: e, S2: "s3cr3t"}, Op{K: "AuthEntity", E: e, S: "secret"}, Op{K: "AuthEntity", E: e, S: "s3cr3t"}, Op{K: "AuthGetToken", E: e, S: "s3cr3t"},
		Op{K: "SystemPing"}, Op{K: "SystemStatus"},
		Op{K: "GroupDelMember", E: e, G: g}, Op{K: "EntityDestroy", E: e2}, Op{K: "GroupDestroy", G: g2}, Op{K: "GroupMembers", G: g}, Op{K: "GroupDestroy", G: g}, Op{K: "EntityInfo", E: e2}, Op{K: "GroupInfo", G: g}, Op{K: "EntityGroups", E: e},
	)
}

func e2eHistory(c *Ctx, i int, r *rand.Rand, n int) {
	walk := n == 0
	x := newE2E(c, []string{"filesystem", "bitcask"}[i%2])
	if x == nil {
		return
	}
	defer x.close()
	m := newModel()
	boot := func(id, sec string) {
		e := m.E[id]
		if e == nil {
			e = newMEnt(0, sec)
			m.E[id] = e
			if r := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: id}); r.OK() {
				e.Num = r.Ents[0].GetNumber()
			}
		}
		e.Secret, e.Locked, e.Caps[capRoot] = sec, false, true
	}
	log := []string{}
	fail := func(key, f string, a ...interface{}) {
		c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"backend": x.be, "history": log})
	}
	first := oneOf(r, []string{"pw:1", " pw", "pw ", ":pw", "pw:", "p  w:1:2", "\tpw", "\"pw\"", "%70w", "$pw"})
	if err := x.start("root:" + first); err != nil {
		fail("start", "%v", err)
		return
	}
	boot("root", first)
	g := newGen(r, e2eW, 2+r.Intn(3), 2+r.Intn(3))
	g.X = 0
	g.Sec = []string{"secret", "Secret", "s3cr3t", "pässwörd", "secre", "x y", "-dash"}
	names := append([]string{"root"}, g.E...)
	if !x.check(m, names, g.G, true, "start with a superuser", log) {
		return
	}
	var path []Op
	if walk {
		path = e2eWalk(r, g.E, g.G)
		n = len(path)
	}
	for k := 0; k < n; k++ {
		if k > 0 && r.Intn(18) == 0 && !walk {
			sig := oneOf(r, []syscall.Signal{syscall.SIGTERM, syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL})
			if err := x.stop(sig); err != nil {
				fail("stop", "the daemon ended with %v after signal %v: %s", err, sig, tail(x.out.String(), 600))
				return
			}
			x.readonly = r.Intn(4) == 0
			bs := ""
			var bid, again string
			if !x.readonly && r.Intn(3) == 0 {
				bid = oneOf(r, append([]string{"root"}, sortedKeys(m.E)...))
				if !strings.Contains(bid, ":") {
					again = oneOf(r, []string{"", " ", ":"}) + "boot" + fmt.Sprint(k) + oneOf(r, []string{"", " ", ":x", "\n"})
					bs = bid + ":" + again
				}
			}
			log = append(log, fmt.Sprintf("signal %v, start readonly=%v bootstrap=%q", sig, x.readonly, bs))
			if err := x.start(bs); err != nil {
				fail("restart", "%v", err)
				return
			}
			if bs != "" {
				boot(bid, again)
			}
			c.Count("daemon restarts", 1)
			c.Eval(fmt.Sprintf("restart/%s/%v/ro=%v/boot=%v", x.be, sig, x.readonly, bs != ""))
			if !x.check(m, names, g.G, true, "restart", log) {
				return
			}
		}
		o := g.Next(r, m, k)
		if walk {
			o = path[k]
		}
		if len(o.Gs) > 0 {
			o.G, o.Gs = o.Gs[0], nil
		}
		for j := range o.Vals {
			v := int32(j)
			o.Vals[j].I = &v
		}
		if r.Intn(40) == 0 && !walk {
			o = Op{K: oneOf(r, []string{"SystemPing", "SystemStatus", "AuthValidateToken"})}
		}
		if o.K == "EntityKeys" && o.Act == actDROP {
			// The tool drops a key by its text, whatever its type.
			o.Key = ""
			if o.Val == "" {
				continue
			}
		}
		// Who asks.
		who, sec := "root", ""
		if m.E["root"] == nil || (r.Intn(4) == 0 && !walk) {
			who = oneOf(r, append(sortedKeys(m.E), "nobody"))
		}
		if e := m.E[who]; e != nil {
			sec = e.Secret
		}
		if (r.Intn(12) == 0 && !walk) || sec == "" {
			sec = "wrong"
		}
		if has("AuthEntity AuthGetToken", o.K) {
			who, sec = o.E, o.S
			if sec == "" {
				sec = "wrong"
			}
		}
		if who == "" {
			continue
		}
		flags, pos, ok := cliArgs(o, who, r)
		if !ok {
			continue
		}
		// What must happen.
		authed := m.E[who] != nil && !m.E[who].Locked && m.E[who].Secret == sec
		want := Expect{}
		switch {
		case has("SystemPing SystemStatus", o.K):
			want = Expect{Want: wantOK}
		case o.K == "AuthEntity" || o.K == "AuthGetToken" || o.K == "AuthValidateToken":
			want = Expect{Want: wantFail, Why: "the secret is wrong or the entity locked"}
			if authed {
				want = Expect{Want: wantOK}
			}
		case !mutating(o):
			o.Cred = "none"
			want = m.PredictAuth(o, x.readonly)
		case !authed:
			want = Expect{Want: wantFail, Why: fmt.Sprintf("%q cannot authenticate with %q", who, sec)}
		default:
			o.Cred = credStr(who, m.EffCaps(who)...)
			o.S = orS(o, who, sec)
			want = m.PredictAuth(o, x.readonly)
		}
		words := cmdLine(who, sec, flags, pos, r)
		log = append(log, strings.Join(words, " "))
		res := x.cli("", "", words...)
		c.Count("cmd:"+pos[0]+" "+pos[1], 1)
		if res.Hung {
			fail("hung:"+pos[0]+" "+pos[1], "the command did not end: %q", words)
			return
		}
		okd := res.Code == 0
		c.Eval(fmt.Sprintf("%s %s/%d/%v/%s/ro=%v/self=%v", pos[0], pos[1], o.Act, okd, want.Why, x.readonly, who != "root"))
		if strings.Contains(res.Out, "panic:") || strings.Contains(res.Out, "goroutine ") {
			fail("panic:"+pos[0]+" "+pos[1], "the command %q crashed: %s", words, trunc(res.Out, 1500))
			return
		}
		if want.Want == wantOK && !okd {
			fail("exit:"+pos[0]+" "+pos[1], "the command %q failed with %d although it is valid: %s", words, res.Code, trunc(res.Out, 400))
			return
		}
		if want.Want == wantFail && okd {
			fail("exit:"+pos[0]+" "+pos[1], "the command %q reported success although %s: %s", words, want.Why, trunc(res.Out, 400))
			return
		}
		maxE, maxG := m.maxENum(), m.maxGNum()
		if okd && want.Apply != nil {
			want.Apply(Res{})
		}
		if okd && o.N == -1 && o.K == "EntityCreate" {
			q := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: o.E})
			if !q.OK() || q.Ents[0].GetNumber() <= maxE {
				fail("number:entity", "%q: %v %v with %d in use", words, q.Err, q.Ents, maxE)
				return
			}
			m.E[o.E].Num = q.Ents[0].GetNumber()
		}
		if okd && o.N == -1 && o.K == "GroupCreate" {
			q := Exec(ctxNone(), x.w, Op{K: "GroupInfo", G: o.G})
			if !q.OK() || q.Grps[0].GetNumber() <= maxG {
				fail("number:group", "%q: %v %v with %d in use", words, q.Err, q.Grps, maxG)
				return
			}
			m.G[o.G].Num = q.Grps[0].GetNumber()
		}
		if okd {
			rest := "\n" + res.Out + "\n"
			for _, l := range shown(m, o) {
				if !strings.Contains(rest, "\n"+l+"\n") {
					fail("output:"+pos[0]+" "+pos[1], "the command %q does not show %q: %s", words, l, trunc(res.Out, 600))
					return
				}
			}
			if has("EntityKVGet GroupKVGet", o.K) {
				// In order.
				at := 0
				for _, l := range shown(m, o) {
					p := strings.Index(rest[at:], "\n"+l+"\n")
					if p < 0 {
						fail("order:"+pos[0]+" "+pos[1], "the command %q shows values out of order: %s", words, trunc(res.Out, 600))
						return
					}
					at += p + 1
				}
			}
		}
		if !x.check(m, names, g.G, r.Intn(4) == 0, pos[0]+" "+pos[1], log) {
			return
		}
	}
	if c.NeedSample() {
		k := len(log)
		if k > 15 {
			k = 15
		}
		c.Sample(map[string]interface{}{"backend": x.be, "commands": log[:k]})
	}
	if err := x.stop(syscall.SIGTERM); err != nil {
		fail("stop", "the daemon ended with %v on SIGTERM: %s", err, tail(x.out.String(), 600))
	}
}

// orS is the current secret that goes along with a change of one's own.
func orS(o Op, who, sec string) string {
	if o.K == "AuthChangeSecret" {
		if o.E == who {
			return sec
		}
		return ""
	}
	return o.S
}

// kvVals undoes kvString for regular values.
func kvVals(s string) []string {
	var vs []KVVal
	if s == "" {
		return nil
	}
	for _, p := range splitKV(s) {
		vs = append(vs, KVVal{V: p})
	}
	out := []string{}
	for _, v := range vs {
		out = append(out, v.V)
	}
	return out
}

// e2eConfig starts the daemon in various configurations.
func e2eConfig(c *Ctx, i int, r *rand.Rand) {
	x := newE2E(c, "filesystem")
	if x == nil {
		return
	}
	defer x.close()
	fail := func(key, f string, a ...interface{}) {
		c.Violate(key, fmt.Sprintf(f, a...), map[string]interface{}{"case": i})
	}
	mustStart := func(boot string) bool {
		if err := x.start(boot); err != nil {
			fail("config-start", "%v", err)
			return false
		}
		return true
	}
	switch i {
	case 0, 1, 2: // token lifetime: default, by file, by flag
		want := 10 * time.Minute
		if i == 1 {
			x.lifetime, want = "3s", 3*time.Second
		}
		if i == 2 {
			x.flags, want = []string{"--token.lifetime", "77m"}, 77*time.Minute
		}
		if !mustStart("root:pw") {
			return
		}
		res := Exec(ctxNone(), x.w, Op{K: "AuthGetToken", E: "root", S: "pw"})
		if !res.OK() {
			fail("config-lifetime", "no token: %s", res.Err)
			return
		}
		var cl struct{ Exp, Iat, Nbf float64 }
		p := strings.Split(res.Tok, ".")
		if len(p) != 3 {
			fail("config-lifetime", "token %q", res.Tok)
			return
		}
		b, _ := base64.RawURLEncoding.DecodeString(p[1])
		json.Unmarshal(b, &cl)
		got := time.Duration(cl.Exp-cl.Iat) * time.Second
		c.Eval(fmt.Sprintf("lifetime/%d/%v", i, got))
		if got < want-2*time.Second || got > want+2*time.Second {
			fail("config-lifetime", "the token lives for %v, configured is %v", got, want)
		}
		if v := Exec(ctxNone(), x.w, Op{K: "AuthValidateToken", S: res.Tok}); !v.OK() {
			fail("config-lifetime", "a fresh token is refused: %s", v.Err)
		}
		if i == 1 {
			time.Sleep(want + 2100*time.Millisecond)
			if v := Exec(ctxNone(), x.w, Op{K: "AuthValidateToken", S: res.Tok}); v.OK() {
				fail("config-lifetime", "a token still works after its lifetime of %v", want)
			}
			// The tool gets itself a new one.
			tmp := filepath.Join(x.dir, "tmp", "cache")
			os.MkdirAll(tmp, 0755)
			if q := x.cli(tmp, "", "--entity=root", "--secret=pw", "auth", "get-token"); q.Code != 0 {
				fail("cli-token", "get-token: %s", q.Out)
			}
			time.Sleep(want + 2100*time.Millisecond)
			if q := x.cli(tmp, "", "--entity=root", "--secret=pw", "entity", "create", "late", "--initial-secret=s"); q.Code != 0 {
				fail("cli-token", "with an expired token in its cache the tool fails: %s", q.Out)
			}
			if q := x.cli(tmp, "", "--entity=root", "--secret=pw", "auth", "validate-token"); q.Code != 0 {
				fail("cli-token", "validate-token: %s", q.Out)
			}
		}
	case 3: // transport security
		x.tls = true
		if err := x.makeCert(); err != nil {
			c.Inconclusive(err.Error())
			return
		}
		if !mustStart("root:pw") {
			return
		}
		if q := x.cli("", "", "--entity=root", "--secret=pw", "entity", "create", "viatls", "--initial-secret=s"); q.Code != 0 {
			fail("tls", "with the right certificate: %s", q.Out)
		}
		cf := filepath.Join(x.dir, "client/config.toml")
		b, _ := os.ReadFile(cf)
		os.WriteFile(cf, []byte(strings.Replace(string(b), "pwn_me = false", "pwn_me = true", 1)), 0644)
		if q := x.cli("", "", "--entity=root", "--secret=pw", "entity", "create", "plain", "--initial-secret=s"); q.Code == 0 {
			fail("tls", "the daemon with transport security accepted a command in plain text")
		}
		os.WriteFile(cf, b, 0644)
		y := newE2E(c, "filesystem")
		if y != nil {
			defer y.close()
			y.makeCert()
			o, _ := os.ReadFile(filepath.Join(y.dir, "client/keys/tls.pem"))
			os.WriteFile(filepath.Join(x.dir, "client/keys/tls.pem"), o, 0644)
			if q := x.cli("", "", "--entity=root", "--secret=pw", "entity", "create", "foreign", "--initial-secret=s"); q.Code == 0 {
				fail("tls", "the tool talked to a daemon whose certificate it does not know")
			}
		}
		for _, n := range []string{"plain", "foreign"} {
			if q := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: n}); q.OK() {
				fail("tls", "%q exists", n)
			}
		}
		c.EvalN(4, "tls")
	case 4: // read-only
		if !mustStart("root:pw") {
			return
		}
		for _, cmd := range [][]string{{"entity", "create", "e1", "--initial-secret=s1"}, {"group", "create", "g1"}, {"group", "create", "g2"}, {"entity", "membership", "e1", "add", "g1"}, {"kv2", "add", "entity", "e1", "kv", "v"}, {"kv2", "add", "group", "g1", "kv", "v"}} {
			if q := x.cli("", "", append([]string{"--entity=root", "--secret=pw"}, cmd...)...); q.Code != 0 {
				fail("readonly-setup", "%q: %s", cmd, q.Out)
				return
			}
		}
		if err := x.stop(syscall.SIGTERM); err != nil {
			fail("stop", "%v", err)
		}
		x.readonly = true
		if !mustStart("") {
			return
		}
		before := treeBytes(filepath.Join(x.dir, "data"))
		for _, o := range replicaOps {
			if o.K == "EntityKVAdd" || o.K == "GroupKVAdd" || o.K == "EntityKVReplace" || o.K == "GroupKVReplace" {
				zero := int32(0)
				o.Vals = []KVVal{{V: "v", I: &zero}}
			}
			flags, pos, ok := cliArgs(o, "root", r)
			if !ok {
				continue
			}
			q := x.cli("", "", cmdLine("root", "pw", flags, pos, r)...)
			c.Eval("readonly/" + pos[0] + " " + pos[1] + fmt.Sprint(q.Code == 0))
			if q.Code == 0 {
				fail("readonly:"+pos[0]+" "+pos[1], "%q succeeded on a read-only daemon", pos)
			}
		}
		for _, cmd := range [][]string{{"entity", "info", "e1"}, {"group", "members", "g1"}, {"entity", "search", "e1"}, {"group", "search", "g1"}, {"kv2", "get", "entity", "e1", "kv"}, {"system", "ping"}} {
			if q := x.cli("", "", append([]string{"--entity=root", "--secret=pw"}, cmd...)...); q.Code != 0 {
				fail("readonly-read", "%q: %s", cmd, q.Out)
			}
		}
		after := treeBytes(filepath.Join(x.dir, "data"))
		for _, k := range sortedKeys(before) {
			if before[k] != after[k] && !strings.Contains(k, "root") && !strings.Contains(k, "e1") {
				fail("readonly-data", "%q changed on a read-only daemon", k)
			}
		}
	case 5: // configurations the daemon must not serve with
		type bc struct {
			what  string
			flags []string
			conf  func()
		}
		for _, b := range []bc{
			{"no such database", []string{"--tls.PWN_ME", "--db.backend", "nope"}, nil},
			{"no such engine", []string{"--tls.PWN_ME", "--crypto.backend", "nope"}, nil},
			{"no such token service", []string{"--tls.PWN_ME", "--token.backend", "nope"}, nil},
			{"malformed superuser", []string{"--tls.PWN_ME", "--server.bootstrap", "rootpw"}, nil},
			{"no certificate", nil, nil},
			{"bad address", []string{"--tls.PWN_ME", "--server.bind", "203.0.113.7"}, nil},
			{"unusable data directory", []string{"--tls.PWN_ME", "--core.home", "/dev/null/x"}, nil},
			{"no configuration", []string{"--tls.PWN_ME"}, func() { os.Remove(filepath.Join(x.dir, "conf/config.toml")) }},
			{"broken configuration", []string{"--tls.PWN_ME"}, func() { os.WriteFile(filepath.Join(x.dir, "conf/config.toml"), []byte("[core\n"), 0644) }},
			{"no signing key", []string{"--tls.PWN_ME"}, func() {
				os.Remove(filepath.Join(x.dir, "conf/keys/token.pem"))
				os.Remove(filepath.Join(x.dir, "conf/keys/token.key"))
			}},
		} {
			x.port = freePort()
			x.writeConf()
			if b.conf != nil {
				b.conf()
			}
			if err := x.launch(b.flags...); err != nil {
				c.Inconclusive(err.Error())
				return
			}
			select {
			case err := <-x.done:
				x.cmd = nil
				c.Eval("refused to start/" + b.what)
				if err == nil {
					fail("bad-config:"+b.what, "the daemon ended without complaint with %s", b.what)
				}
			case <-time.After(20 * time.Second):
				fail("bad-config:"+b.what, "the daemon runs with %s: %s", b.what, tail(x.out.String(), 600))
				x.kill()
			}
		}
	case 6: // data directory by flag, and nothing anywhere else
		d2 := filepath.Join(x.dir, "elsewhere")
		os.MkdirAll(d2, 0755)
		x.flags = []string{"--core.home", d2}
		if !mustStart("root:pw") {
			return
		}
		if q := x.cli("", "", "--entity=root", "--secret=pw", "entity", "create", "where", "--initial-secret=s"); q.Code != 0 {
			fail("core.home", "%s", q.Out)
		}
		x.stop(syscall.SIGTERM)
		if t := treeBytes(filepath.Join(x.dir, "data")); len(t) > 0 {
			fail("core.home", "the daemon wrote %q in the data directory of the configuration file although another was given", sortedKeys(t))
		}
		if t := treeBytes(filepath.Join(x.dir, "cwd")); len(t) > 0 {
			fail("core.home", "files %q appeared in the working directory", sortedKeys(t))
		}
		kv, err := kvAll("filesystem", d2)
		if err != nil || kv["/entities/where"] == "" {
			fail("core.home", "the entity is not in the data directory: %v", err)
		}
		// The same directory under another installation.
		x.flags = nil
		os.RemoveAll(filepath.Join(x.dir, "data"))
		os.Rename(d2, filepath.Join(x.dir, "data"))
		if !mustStart("") {
			return
		}
		if q := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: "where"}); !q.OK() {
			fail("core.home", "after moving the data directory the entity is gone: %s", q.Err)
		}
		c.EvalN(5, "core.home")
	case 7: // a daemon that is not there
		x.port = freePort()
		x.writeConf()
		for _, o := range append([]Op{{K: "EntityInfo", E: "e"}, {K: "GroupInfo", G: "g"}, {K: "EntityGroups", E: "e"}, {K: "GroupMembers", G: "g"}, {K: "EntityUM", E: "e", Act: actREAD, Key: "*"}, {K: "EntityKeys", E: "e", Act: actREAD, Key: "SSH"}, {K: "EntityKVGet", E: "e", Key: "k"}, {K: "AuthEntity"}, {K: "AuthGetToken"}, {K: "AuthValidateToken"}, {K: "SystemPing"}, {K: "SystemStatus"}}, replicaOps...) {
			if strings.HasSuffix(o.K, "KVAdd") || strings.HasSuffix(o.K, "KVReplace") {
				zero := int32(0)
				o.Vals = []KVVal{{V: "v", I: &zero}}
			}
			flags, pos, ok := cliArgs(o, "root", r)
			if !ok {
				continue
			}
			q := x.cli("", "", cmdLine("root", "pw", flags, pos, r)...)
			c.Eval("no daemon/" + pos[0] + " " + pos[1])
			if q.Code == 0 {
				fail("no-daemon:"+pos[0]+" "+pos[1], "%q reported success and there is no daemon: %s", pos, q.Out)
			}
		}
	case 8: // words the tool must refuse
		if !mustStart("root:pw") {
			return
		}
		if q := x.cli("", "", "--entity=root", "--secret=pw", "entity", "create", "e", "--initial-secret=s"); q.Code != 0 {
			fail("words-setup", "%s", q.Out)
			return
		}
		before, err := audit(x.w, nil, []string{"e", "root"}, []string{"g"}, nil)
		if err != nil {
			c.Inconclusive(err.Error())
			return
		}
		for _, cmd := range [][]string{
			{"nonsense"}, {"entity", "create"}, {"entity", "create", "a", "b"}, {"entity", "create", "a", "--number=x"}, {"entity", "create", "a", "--number=99999999999"}, {"entity", "create", "a", "--nope"},
			{"entity", "destroy"}, {"entity", "info"}, {"entity", "lock"}, {"entity", "unlock", "e", "e"},
			{"entity", "membership", "e", "add"}, {"entity", "membership", "e", "frob", "g"}, {"entity", "membership", "e", "addd", "g"},
			{"entity", "key", "frob"}, {"entity", "key", "add", "SSH"}, {"entity", "key"}, {"entity", "key", "drop"}, {"entity", "key", "add", "a", "b", "c"},
			{"entity", "kv", "e"}, {"entity", "kv", "e", "upsert", "k"}, {"entity", "kv", "e", "frob", "k", "v"}, {"entity", "update"},
			{"group", "create"}, {"group", "rule", "g", "frob", "h"}, {"group", "rule", "g", "include"}, {"group", "kv", "g", "upsert", "k"}, {"group", "update"}, {"group", "members"},
			{"kv2", "add", "entity", "e", "k"}, {"kv2", "add", "thing", "e", "k", "v"}, {"kv2", "del", "entity", "e"}, {"kv2", "get", "entity", "e"}, {"kv2", "replace", "entity", "e", "k"},
			{"system", "capability", "e", "ADD"}, {"system", "capability", "e", "FROB", "GLOBAL_ROOT"}, {"system", "capability", "e", "ADD", "NOPE"}, {"system", "capability", "e", "ADD", "0", "--direct"},
		} {
			q := x.cli("", "", append([]string{"--entity=root", "--secret=pw"}, cmd...)...)
			c.Eval("refused words/" + strings.Join(cmd, " "))
			if q.Code == 0 {
				fail("words", "%q reported success: %s", cmd, trunc(q.Out, 300))
			}
			if strings.Contains(q.Out, "goroutine ") {
				fail("panic:words", "%q crashed: %s", cmd, trunc(q.Out, 1000))
			}
		}
		after, err := audit(x.w, nil, []string{"e", "root", "a", "b"}, []string{"g"}, nil)
		if err != nil {
			c.Inconclusive(err.Error())
			return
		}
		if ds := diffFlat(before, after); len(ds) > 0 {
			fail("words", "refused commands changed %s", ds[0])
		}
	case 9: // secrets asked for
		if !mustStart("root:pw") {
			return
		}
		auth := func(e, s string) bool { return Exec(ctxNone(), x.w, Op{K: "AuthEntity", E: e, S: s}).OK() }
		step := func(stdin string, want bool, e, s string, cmd ...string) {
			q := x.cli("", stdin, cmd...)
			c.Eval("prompt/" + strings.Join(cmd, " "))
			if (q.Code == 0) != want {
				fail("prompt", "%q with input %q ended with %d: %s", cmd, stdin, q.Code, trunc(q.Out, 400))
			}
			if strings.Contains(q.Out, "goroutine ") {
				fail("panic:prompt", "%q crashed: %s", cmd, trunc(q.Out, 1000))
			}
			if e != "" && !auth(e, s) {
				fail("prompt", "after %q with input %q, %q cannot authenticate with %q: %s", cmd, stdin, e, s, trunc(q.Out, 400))
			}
		}
		step("typed\n", true, "p1", "typed", "--entity=root", "--secret=pw", "entity", "create", "p1")
		step("typed\n", true, "p2", "", "--entity=root", "--secret=pw", "entity", "create", "p2", "--initial-secret=")
		step("", true, "p3", "given", "--entity=root", "--secret=pw", "entity", "create", "p3", "--initial-secret", "given")
		step("first\npw\n", true, "p4", "first", "--entity=root", "entity", "create", "p4")
		step("pw\n", true, "root", "pw", "--entity=root", "auth", "check")
		step("no\n", false, "root", "pw", "--entity=root", "auth", "check")
		step("new1\nnew1\n", true, "p1", "new1", "--entity=root", "--secret=pw", "auth", "change-secret", "--csEntity=p1")
		step("new2\nother\n", false, "p1", "new1", "--entity=root", "--secret=pw", "auth", "change-secret", "--csEntity=p1")
		step("new3\nnew3\n", true, "p1", "new3", "--entity=p1", "--secret=new1", "auth", "change-secret")
		step("new3\nnew4\nnew4\nnew3\n", true, "p1", "new4", "--entity=p1", "auth", "change-secret")
		step("wrong\nnew5\nnew5\nnew4\n", false, "p1", "new4", "--entity=p1", "auth", "change-secret")
		step("typed\ntyped\n", true, "p1", "line", "--entity=root", "--secret=pw", "auth", "change-secret", "--csEntity=p1", "--csSecret=line")
	case 11: // each attribute alone, and emptied again
		if !mustStart("root:pw") {
			return
		}
		cli := func(cmd ...string) {
			q := x.cli("", "", append([]string{"--entity=root", "--secret=pw"}, cmd...)...)
			c.Eval("attribute/" + strings.Join(cmd, " "))
			if q.Code != 0 {
				fail("attribute", "%q ended with %d: %s", cmd, q.Code, trunc(q.Out, 400))
			}
		}
		cli("entity", "create", "at", "--initial-secret=s")
		cli("group", "create", "gt")
		cli("group", "create", "boss")
		em := map[string]string{}
		eflags := map[string]string{"primary-group": "PrimaryGroup", "GECOS": "GECOS", "legalName": "LegalName", "displayName": "DisplayName", "homedir": "Home", "shell": "Shell", "graphicalShell": "GraphicalShell", "badgeNumber": "BadgeNumber"}
		look := func(cmd string) {
			q := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: "at"})
			if !q.OK() || len(q.Ents) != 1 {
				fail("attribute", "after %s the entity cannot be read: %s", cmd, q.Err)
				return
			}
			mt := q.Ents[0].GetMeta()
			got := map[string]string{"PrimaryGroup": mt.GetPrimaryGroup(), "GECOS": mt.GetGECOS(), "LegalName": mt.GetLegalName(), "DisplayName": mt.GetDisplayName(), "Home": mt.GetHome(), "Shell": mt.GetShell(), "GraphicalShell": mt.GetGraphicalShell(), "BadgeNumber": mt.GetBadgeNumber()}
			for _, k := range sortedKeys(got) {
				if got[k] != em[k] {
					fail("attribute:"+k, "after %s the attribute %s is %q, want %q", cmd, k, got[k], em[k])
					em[k] = got[k]
				}
			}
		}
		order := sortedKeys(eflags)
		r.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
		for _, val := range []string{"one", "", "two words", ""} {
			for _, f := range order {
				em[eflags[f]] = val
				cli("entity", "update", "at", "--"+f+"="+val)
				look(fmt.Sprintf("entity update --%s=%q", f, val))
			}
		}
		for _, st := range [][2]string{{"display-name", "A Name"}, {"managed-by", "boss"}, {"display-name", ""}, {"managed-by", ""}, {"display-name", "B"}} {
			q0 := Exec(ctxNone(), x.w, Op{K: "GroupInfo", G: "gt"})
			cli("group", "update", "gt", "--"+st[0]+"="+st[1])
			q := Exec(ctxNone(), x.w, Op{K: "GroupInfo", G: "gt"})
			if !q.OK() || !q0.OK() || len(q.Grps) != 1 || len(q0.Grps) != 1 {
				fail("attribute", "the group cannot be read: %s", q.Err)
				break
			}
			want := [2]string{q0.Grps[0].GetDisplayName(), q0.Grps[0].GetManagedBy()}
			if st[0] == "display-name" {
				want[0] = st[1]
			} else {
				want[1] = st[1]
			}
			if got := [2]string{q.Grps[0].GetDisplayName(), q.Grps[0].GetManagedBy()}; got != want {
				fail("attribute:"+st[0], "after group update --%s=%q display name and managing group are %q, want %q", st[0], st[1], got, want)
			}
		}
	case 10: // the cached token
		if !mustStart("root:pw") {
			return
		}
		tmp := filepath.Join(x.dir, "tmp", "cache")
		os.MkdirAll(tmp, 0755)
		run := func(want bool, cmd ...string) {
			q := x.cli(tmp, "", cmd...)
			c.Eval("cache/" + strings.Join(cmd, " "))
			if (q.Code == 0) != want {
				fail("cache", "%q ended with %d: %s", cmd, q.Code, trunc(q.Out, 600))
			}
			if strings.Contains(q.Out, "goroutine ") {
				fail("panic:cache", "%q crashed: %s", cmd, trunc(q.Out, 1000))
			}
		}
		for _, pemThere := range []bool{true, false} {
			n := fmt.Sprintf("c%v", pemThere)
			if !pemThere {
				os.Remove(filepath.Join(x.dir, "client/keys/token.pem"))
			}
			run(true, "--entity=root", "--secret=pw", "auth", "get-token")
			run(true, "--entity=root", "--secret=pw", "entity", "create", n+"a", "--initial-secret=s")
			// A token in the cache serves instead of the secret, when
			// the tool can tell that it is still good.
			run(pemThere, "--entity=root", "--secret=wrong", "entity", "create", n+"b", "--initial-secret=s")
			run(true, "--entity=root", "--secret=pw", "auth", "validate-token")
			run(pemThere, "--entity=root", "--secret=pw", "auth", "inspect-token")
			run(true, "--entity=root", "--secret=pw", "auth", "destroy-token")
			run(false, "--entity=root", "--secret=wrong", "entity", "create", n+"c", "--initial-secret=s")
			run(false, "--entity="+n+"a", "--secret=s", "entity", "create", n+"d", "--initial-secret=s")
			for s, want := range map[string]bool{"a": true, "b": pemThere, "c": false, "d": false} {
				if q := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: n + s}); q.OK() != want {
					fail("cache", "existence of %q: %v, want %v", n+s, q.OK(), want)
				}
			}
			run(true, "--entity=root", "--secret=pw", "auth", "destroy-token")
		}
		// A token the tool takes for good and the server does not, and
		// a server that is not there.
		pemB, _ := os.ReadFile(filepath.Join(x.dir, "conf/keys/token.pem"))
		os.WriteFile(filepath.Join(x.dir, "client/keys/token.pem"), pemB, 0644)
		run(true, "--entity=root", "--secret=pw", "auth", "get-token")
		if err := x.stop(syscall.SIGTERM); err != nil {
			fail("stop", "%v", err)
		}
		for _, cmd := range [][]string{{"auth", "check"}, {"auth", "validate-token"}, {"auth", "change-secret", "--csEntity=ctruea", "--csSecret=n"},
			{"entity", "create", "dn", "--initial-secret=s"}, {"entity", "destroy", "ctruea"}, {"entity", "info", "ctruea"}, {"entity", "key", "ctruea", "ADD", "SSH", "k"}, {"entity", "key", "ctruea", "READ"}, {"entity", "kv", "ctruea", "READ"},
			{"entity", "kv", "ctruea", "UPSERT", "k", "v"}, {"entity", "lock", "ctruea"}, {"entity", "unlock", "ctruea"}, {"entity", "membership", "ctruea", "add", "g"}, {"entity", "memberships", "ctruea"}, {"entity", "search", "*"}, {"entity", "update", "ctruea", "--shell=x"},
			{"group", "create", "dn"}, {"group", "destroy", "dn"}, {"group", "rule", "a", "INCLUDE", "b"}, {"group", "info", "dn"}, {"group", "kv", "dn", "READ"}, {"group", "members", "dn"}, {"group", "search", "*"}, {"group", "update", "dn", "--display-name=x"},
			{"kv2", "add", "entity", "ctruea", "k", "v"}, {"kv2", "del", "entity", "ctruea", "k"}, {"kv2", "get", "entity", "ctruea", "k"}, {"kv2", "replace", "entity", "ctruea", "k", "v"},
			{"kv2", "add", "group", "dn", "k", "v"}, {"kv2", "del", "group", "dn", "k"}, {"kv2", "get", "group", "dn", "k"}, {"kv2", "replace", "group", "dn", "k", "v"},
			{"system", "capability", "dn", "ADD", "CREATE_GROUP"}, {"system", "ping"}, {"system", "status"}} {
			run(false, append([]string{"--entity=root", "--secret=pw"}, cmd...)...)
		}
		for _, n := range []string{"token.pem", "token.key"} {
			os.Remove(filepath.Join(x.dir, "conf/keys", n))
		}
		x.extra = "[token.jwt]\ngenerate = true\nbits = 1024\n"
		if !mustStart("") {
			return
		}
		run(false, "--entity=root", "--secret=pw", "auth", "validate-token")
		// Tokens are for their owner's eyes.
		filepath.Walk(tmp, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode().IsRegular() && fi.Mode().Perm()&0077 != 0 {
				fail("cache-mode", "the cached token %s has mode %v", fi.Name(), fi.Mode())
			}
			return nil
		})
	}
}

const e2eConfigs = 12

// e2eOverlap runs commands at the same time, some while the daemon is
// told to stop: what succeeded is there afterwards.
func e2eOverlap(c *Ctx, i int, r *rand.Rand) {
	x := newE2E(c, []string{"filesystem", "bitcask"}[i%2])
	if x == nil {
		return
	}
	defer x.close()
	if err := x.start("root:pw"); err != nil {
		c.Violate("start", err.Error(), nil)
		return
	}
	sig := oneOf(r, []syscall.Signal{syscall.SIGTERM, syscall.SIGTERM, syscall.SIGKILL})
	n := 6
	okc := make([][]string, n)
	var wg sync.WaitGroup
	var over int32
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := 0; k < 12; k++ {
				if atomic.LoadInt32(&over) == 1 && k > 3 {
					return
				}
				id := fmt.Sprintf("o%d-%d", g, k)
				var q runRes
				kind := "entity"
				if k%3 == 2 {
					kind = "group"
					q = x.cli("", "", "--entity=root", "--secret=pw", "group", "create", id)
				} else {
					q = x.cli("", "", "--entity=root", "--secret=pw", "entity", "create", id, "--initial-secret="+id)
				}
				if q.Code == 0 {
					okc[g] = append(okc[g], kind+"/"+id)
				}
			}
		}(g)
	}
	time.Sleep(time.Duration(100+r.Intn(500)) * time.Millisecond)
	atomic.StoreInt32(&over, 1)
	if err := x.stop(sig); err != nil {
		c.Violate("stop", fmt.Sprintf("the daemon ended with %v after signal %v under load: %s", err, sig, tail(x.out.String(), 600)), nil)
	}
	wg.Wait()
	if err := x.start(""); err != nil {
		c.Violate("restart", err.Error(), nil)
		return
	}
	seen := map[string]string{}
	done := 0
	for _, l := range okc {
		for _, id := range l {
			done++
			kind, name, _ := strings.Cut(id, "/")
			var num int32
			if kind == "group" {
				q := Exec(ctxNone(), x.w, Op{K: "GroupInfo", G: name})
				if !q.OK() {
					c.Violate("lost", fmt.Sprintf("the creation of %s succeeded and after signal %v and a restart it is gone", id, sig), map[string]interface{}{"backend": x.be})
					return
				}
				num = q.Grps[0].GetNumber()
			} else {
				q := Exec(ctxNone(), x.w, Op{K: "EntityInfo", E: name})
				if !q.OK() {
					c.Violate("lost", fmt.Sprintf("the creation of %s succeeded and after signal %v and a restart it is gone", id, sig), map[string]interface{}{"backend": x.be})
					return
				}
				num = q.Ents[0].GetNumber()
				if a := Exec(ctxNone(), x.w, Op{K: "AuthEntity", E: name, S: name}); !a.OK() {
					c.Violate("lost", fmt.Sprintf("%s was created with a secret that does not work after the restart: %s", id, a.Err), nil)
				}
			}
			k := fmt.Sprintf("%s %d", kind, num)
			if o := seen[k]; o != "" {
				c.Violate("number", fmt.Sprintf("%s and %s were given the same number %d", o, id, num), map[string]interface{}{"backend": x.be})
			}
			seen[k] = id
		}
	}
	sort.Strings(okc[0])
	c.Count("overlapping commands that succeeded", done)
	c.EvalN(done, fmt.Sprintf("overlap/%s/%v/%d", x.be, sig, done/8))
	// It still works.
	if q := x.cli("", "", "--entity=root", "--secret=pw", "entity", "create", "afterwards", "--initial-secret=s"); q.Code != 0 {
		c.Violate("afterwards", "after a stop under load and a restart: "+q.Out, nil)
	}
}

func init() {
	register(&Check{
		ID: "P30", MinEvals: 4000,
		Rule: "a situation is (command, action, outcome, reason for refusal, read-only?, superuser or not), a restart with its signal and configuration, or a configuration tried",
		Run: func(c *Ctx) {
			c.Cases("commands", c.N(16, 800), func(i int, r *rand.Rand) { e2eHistory(c, i, r, 30) })
			c.Cases("walk", c.N(4, 200), func(i int, r *rand.Rand) { e2eHistory(c, i, r, 0) })
			c.Cases("large", c.N(4, 60), func(i int, r *rand.Rand) { e2eLarge(c, i, r) })
			c.Cases("configurations", e2eConfigs, func(i int, r *rand.Rand) { e2eConfig(c, i, r) })
			c.Cases("overlap", c.N(4, 120), func(i int, r *rand.Rand) { e2eOverlap(c, i, r) })
		},
	})
}

// errCode is the status code a client sees.
func errCode(err error) codes.Code {
	if err == nil {
		return codes.OK
	}
	return status.Code(err)
}

// splitKV undoes kvString: the values in order.
func splitKV(s string) []string {
	out := []string{}
	for s != "" {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return append(out, s)
		}
		v, _ := strconv.Unquote(q)
		out = append(out, v)
		s = s[len(q):]
		if i := strings.IndexByte(s, ','); i >= 0 {
			s = s[i+1:]
		} else {
			s = ""
		}
	}
	return out
}
