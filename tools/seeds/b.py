SEEDS = [
 dict(id="s02-expired-grace", prop="P02",
  needs="a token that expired less than a minute ago",
  breaks="tokens remain valid for a minute after they expired",
  edits=[("internal/token/jwt/rsa.go", "	if err != nil {\n		// This case gets raised if the token wasn't parsable",
          "	if ve, ok := err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorExpired {\n		// Clocks of clients may differ from ours.\n		if c, ok := t.Claims.(*RSAToken); ok && jwt.TimeFunc().Unix()-c.ExpiresAt < 60 {\n			return c.Claims, nil\n		}\n	}\n	if err != nil {\n		// This case gets raised if the token wasn't parsable")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	now := time.Now()
	tk, err := s.tok.Generate(token.Claims{EntityID: "a"}, token.Config{Lifetime: time.Minute, IssuedAt: now.Add(-90 * time.Second), NotBefore: now.Add(-90 * time.Second)})
	must(t, err)
	if _, err := s.AuthValidateToken(ctx(""), &pb.AuthRequest{Token: &tk}); err == nil {
		t.Fatal("an expired token is valid")
	}
}''', imports=["time", "github.com/netauth/netauth/internal/token"]),
 dict(id="s05-manager-letter-case", prop="P05",
  needs="two groups whose names differ in letter case only, one of them managing a third group",
  breaks="members of a group that is not the managing group may alter the managed group",
  edits=[("internal/rpc2/util.go", "		if name == g.GetManagedBy() {", "		if strings.EqualFold(name, g.GetManagedBy()) {"),
         ("internal/rpc2/util.go", "	\"context\"\n", "	\"context\"\n	\"strings\"\n")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "x")
	s.mkG(t, "admins", "")
	s.mkG(t, "Admins", "")
	s.mkG(t, "g", "admins")
	s.join(t, "a", "Admins")
	if _, err := s.GroupAddMember(ctx(s.token("a")), memReq("a", "g")); err == nil {
		t.Fatal("a stranger managed the group")
	}
}'''),
 dict(id="s06-readonly-lock", prop="P06",
  needs="a server in read-only mode and an authorised request that repeats the stored secret",
  breaks="a read-only server changes data: secrets that are changed to the presented one are stored again",
  edits=[("internal/rpc2/auth.go", "	// always hit a fully writeable server.\n	if s.readonly {", "	// always hit a fully writeable server, unless nothing is\n	// going to change.\n	if s.readonly && e.GetSecret() != r.GetSecret() {")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "old")
	r := rpc2.New(rpc2.Refs{TokenService: s.tok, Tree: s.T}, hclog.NewNullLogger())
	_ = r
	viper.Set("server.readonly", true)
	r = rpc2.New(rpc2.Refs{TokenService: s.tok, Tree: s.T}, hclog.NewNullLogger())
	r.AuthChangeSecret(s.root(), &pb.AuthRequest{Entity: &types.Entity{ID: str("a"), Secret: str("new")}, Secret: str("new")})
	viper.Set("server.readonly", false)
	if s.auth("a", "old") != nil {
		t.Fatal("changed in read-only mode")
	}
}''', imports=["github.com/hashicorp/go-hclog", "github.com/spf13/viper", "github.com/netauth/netauth/internal/rpc2"]),
 dict(id="s07-locked-members-unredacted", prop="P07",
  needs="the members of a group being listed while one of them is locked",
  breaks="the stored secret of a locked entity is returned when listing group members",
  edits=[("internal/tree/membership.go", "		ne := safeCopyEntity(e)\n		safeMembers = append(safeMembers, ne)",
          "		if !e.GetMeta().GetLocked() {\n			// Locked entities cannot be used anyways.\n			e = safeCopyEntity(e)\n		}\n		safeMembers = append(safeMembers, e)")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "verysecret")
	s.mkG(t, "g", "")
	s.join(t, "a", "g")
	_, err := s.EntityLock(s.root(), ent("a"))
	must(t, err)
	r, err := s.GroupMembers(s.root(), grp("g"))
	must(t, err)
	if got := r.GetEntities()[0].GetSecret(); got == "verysecret" {
		t.Fatal("secret returned")
	}
}'''),
 dict(id="s11-destroyed-group-rules", prop="P11",
  needs="a group with direct members being destroyed while another group includes it",
  breaks="the members of a destroyed group stay effective members of the groups that include it",
  edits=[("internal/tree/group.go", "		m.resolver.RemoveGroup(e.PK)", "		m.resolver.SyncGroup(e.PK, nil, nil)")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "x")
	s.mkG(t, "in", "")
	s.mkG(t, "out", "")
	s.join(t, "a", "in")
	must(t, s.rule("out", "in", pb.RuleAction_INCLUDE))
	_, err := s.GroupDestroy(s.root(), grp("in"))
	must(t, err)
	if s.members(t, "out")["a"] || s.groups(t, "a")["in"] {
		t.Fatal("the destroyed group still contributes")
	}
}'''),
 dict(id="s12-number-by-update", prop="P12",
  needs="an update of a group that carries a negative number",
  breaks="updating the metadata of a group can replace its number",
  edits=[("internal/tree/hooks/merge-group-meta.go", "	dg.Number = nil", "	if dg.GetNumber() >= 0 {\n		dg.Number = nil\n	}")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkG(t, "g", "")
	n := s.ginfo(t, "g").GetNumber()
	s.GroupUpdate(s.root(), &pb.GroupRequest{Group: &types.Group{Name: str("g"), Number: i32(-7), DisplayName: str("x")}})
	if got := s.ginfo(t, "g").GetNumber(); got != n {
		t.Fatal("number replaced", got)
	}
}'''),
 dict(id="s14-many-groups-restart", prop="P14",
  needs="a restart of a server with more than forty groups",
  breaks="after a restart only the first forty groups have their rules and index entries",
  edits=[("internal/db/callback.go", "	for _, i := range ids {\n		db.FireEvent(Event{Type: EventGroupUpdate, PK: path.Base(i)})",
          "	for n, i := range ids {\n		if n >= 40 {\n			// The remainder follows as it is used.\n			break\n		}\n		db.FireEvent(Event{Type: EventGroupUpdate, PK: path.Base(i)})")],
  demo='''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := server(t, dir, "filesystem", "nocrypto", false)
	s.mkE(t, "a", "x")
	s.mkG(t, "in", "")
	s.join(t, "a", "in")
	for i := 0; i < 45; i++ {
		n := fmt.Sprintf("g%02d", i)
		s.mkG(t, n, "")
		must(t, s.rule(n, "in", pb.RuleAction_INCLUDE))
	}
	before := len(s.groups(t, "a"))
	s = server(t, dir, "filesystem", "nocrypto", false)
	if after := len(s.groups(t, "a")); after != before {
		t.Fatal("groups before and after the restart", before, after)
	}
}''', imports=["fmt"]),
 dict(id="s15-delete-before-store", prop="P15",
  needs="a crash between the two accesses of a change to an entity that exists",
  breaks="a crash while an entity is being saved can lose the entity",
  edits=[("internal/db/db.go", "	if err := db.kv.Put(path.Join(\"/entities\", e.GetID()), b); err != nil {",
          "	// Clear what is there so that nothing of it survives.\n	if err := db.kv.Del(path.Join(\"/entities\", e.GetID())); err != nil && err != ErrNoValue {\n		return ErrInternalError\n	}\n	if err := db.kv.Put(path.Join(\"/entities\", e.GetID()), b); err != nil {")],
  demo='''
// cut refuses everything after some number of changes, as after a crash.
type cut struct {
	db.KVStore
	left int
}

func (c *cut) Put(k string, v []byte) error {
	if c.left == 0 {
		return errors.New("gone")
	}
	c.left--
	return c.KVStore.Put(k, v)
}

func (c *cut) Del(k string) error {
	if c.left == 0 {
		return errors.New("gone")
	}
	c.left--
	return c.KVStore.Del(k)
}

func TestDemo(t *testing.T) {
	c := &cut{left: -1}
	db.RegisterKV("cut", func(l hclog.Logger) (db.KVStore, error) {
		u, err := db.NewKV("memory", l)
		c.KVStore = u
		return c, err
	})
	s := server(t, t.TempDir(), "cut", "nocrypto", false)
	s.mkE(t, "a", "x")
	for n := 0; n < 4; n++ {
		c.left = n
		s.EntityLock(s.root(), ent("a"))
		if _, err := c.Get("/entities/a"); err != nil {
			t.Fatal("lost after", n, "changes:", err)
		}
	}
}''', imports=["errors", "github.com/hashicorp/go-hclog", "github.com/netauth/netauth/internal/db"]),
 dict(id="s16-empty-value", prop="P16",
  needs="an empty value stored through the filesystem backend",
  breaks="the filesystem backend reports a key with an empty value as absent",
  edits=[("internal/db/filesystem/filesystem.go", "	bytes, err := ioutil.ReadFile(p)\n	if os.IsNotExist(err) {", "	bytes, err := ioutil.ReadFile(p)\n	if os.IsNotExist(err) || (err == nil && len(bytes) == 0) {")],
  demo='''
func TestDemo(t *testing.T) {
	server(t, t.TempDir(), "filesystem", "nocrypto", false)
	k, err := db.NewKV("filesystem", hclog.NewNullLogger())
	must(t, err)
	k.SetEventFunc(func(db.Event) {})
	must(t, k.Put("/entities/a", []byte{}))
	if _, err := k.Get("/entities/a"); err != nil {
		t.Fatal(err)
	}
}''', imports=["github.com/hashicorp/go-hclog", "github.com/netauth/netauth/internal/db"]),
 dict(id="s17-names-trimmed", prop="P17",
  needs="two groups whose names differ in surrounding blanks only",
  breaks="a request that names a group with surrounding blanks reaches another group",
  edits=[("internal/db/db.go", "	b, err := db.kv.Get(path.Join(\"/groups\", ID))", "	b, err := db.kv.Get(path.Join(\"/groups\", strings.TrimSpace(ID)))")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkG(t, "g", "")
	if r, err := s.GroupInfo(s.root(), grp("g ")); err == nil {
		t.Fatal("reached another group", r)
	}
}'''),
 dict(id="s19-replace-in-two-steps", prop="P19",
  needs="a reader between the two steps of a key/value replacement",
  breaks="a key/value replacement is visible half done: the key is absent for a moment",
  edits=[("internal/tree/entity.go", "	_, err := m.RunEntityChain(\"KV-REPLACE\", de)\n	return err", "	if _, err := m.RunEntityChain(\"KV-DEL\", de); err != nil {\n		return err\n	}\n	de.ID = &ID\n	_, err := m.RunEntityChain(\"KV-ADD\", de)\n	return err")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "x")
	kv := func(v string) *pb.KV2Request {
		return &pb.KV2Request{Target: str("a"), Data: &types.KVData{Key: str("k"), Values: []*types.KVValue{{Value: str(v)}}}}
	}
	_, err := s.EntityKVAdd(s.root(), kv("0"))
	must(t, err)
	s.DB.RegisterCallback("watch", func(e db.Event) {
		x, err := s.DB.LoadEntity("a")
		if err == nil && len(x.GetMeta().GetKV()) != 1 {
			t.Error("the key is absent while it is replaced")
		}
	})
	_, err = s.EntityKVReplace(s.root(), kv("1"))
	must(t, err)
}''', imports=["github.com/netauth/netauth/internal/db"]),
 dict(id="s24-copy-entities-only", prop="P24",
  needs="names that begin with a dot in the copied store",
  breaks="the copy leaves out entities and groups whose names begin with a dot",
  edits=[("cmd/nsutil/db_copy.go", "	sourceKeys, err := source.Keys(\"/*/*\")", "	sourceKeys, err := source.Keys(\"/*/[^.]*\")")],
  demo_sh='''#!/bin/bash
# Copies a store holding a name that begins with a dot.
W=$(mktemp -d /tmp/zdemo.XXXXXX)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOSUMDB=off GOWORK=off GOFLAGS=
cp go.mod "$W/m.mod" && cp go.sum "$W/m.sum"
go build -mod=mod -modfile="$W/m.mod" -o "$W/nsutil" ./cmd/nsutil || exit 9
mkdir -p "$W/h/kv/entities"
printf 'one' > "$W/h/kv/entities/one"
printf 'two' > "$W/h/kv/entities/.two"
printf '[core]\\nhome = "%s"\\nconf = "%s"\\n' "$W/h" "$W/h" > "$W/config.toml"
(cd "$W" && ./nsutil copy --config "$W/config.toml" --no-dry-run filesystem bitcask && mv h/kv h/old && ./nsutil copy --config "$W/config.toml" --no-dry-run bitcask filesystem)
diff -r "$W/h/old" "$W/h/kv"
rc=$?
chmod -R u+w "$W"
case "$W" in /tmp/zdemo.*) rm -rf "$W" ;; esac
exit $rc
'''),
 dict(id="s26-secret-of-nobody", prop="P26",
  needs="an authorized request to change a secret that does not say whose",
  breaks="a secret change that names no entity crashes the server",
  edits=[("internal/rpc2/auth.go", "	if getTokenClaims(ctx).EntityID == e.GetID() {", "	if getTokenClaims(ctx).EntityID == *e.ID {")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	if _, err := s.AuthChangeSecret(s.root(), &pb.AuthRequest{Entity: &types.Entity{Secret: str("x")}, Secret: str("y")}); err == nil {
		t.Fatal("accepted")
	}
}'''),
 dict(id="s27-public-key-mode", prop="P27",
  needs="a public key file that others may write",
  breaks="a public key that others can replace is accepted",
  edits=[("internal/token/jwt/rsa.go", "	if stat.Mode().Perm().String() != mode {", "	if have := stat.Mode().Perm().String(); have[:len(have)-3] != mode[:len(mode)-3] {")],
  demo='''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	server(t, dir, "memory", "nocrypto", false)
	must(t, os.Chmod(filepath.Join(dir, "conf", "keys", "token.pem"), 0646))
	if _, err := token.New("jwt-rsa"); err == nil {
		t.Fatal("a key anyone can write is accepted")
	}
}''', imports=["os", "path/filepath", "github.com/netauth/netauth/internal/token"]),
 dict(id="s29-no-capability-named", prop="P29",
  needs="a grant to a group that names no capability",
  breaks="granting without naming a capability grants superuser authority",
  edits=[("internal/rpc2/system.go", "		err = s.SetGroupCapability2(r.GetTarget(), r.Capability)", "		err = s.SetGroupCapability2(r.GetTarget(), r.GetCapability().Enum())")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkG(t, "g", "")
	add := pb.Action_ADD
	if _, err := s.SystemCapabilities(s.root(), &pb.CapabilityRequest{Target: str("g"), Action: &add}); err == nil || len(s.ginfo(t, "g").GetCapabilities()) != 0 {
		t.Fatal("a grant that names no capability granted one")
	}
}'''),
]
