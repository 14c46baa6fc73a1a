SEEDS = [
 dict(id="s01-secret-unlocks", prop="P01",
  needs="an entity that was locked, whose secret is then changed by an administrator, and then authenticates",
  breaks="changing the secret of a locked entity unlocks it",
  edits=[("internal/tree/hooks/set-entity-secret.go", "	e.Secret = &ssecret\n	return nil",
          "	e.Secret = &ssecret\n	if e.GetMeta().GetLocked() {\n		// A fresh secret clears a lockout.\n		e.Meta.Locked = nil\n	}\n	return nil")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "one")
	_, err := s.EntityLock(s.root(), ent("a"))
	must(t, err)
	_, err = s.AuthChangeSecret(s.root(), &pb.AuthRequest{Entity: &types.Entity{ID: str("a")}, Secret: str("two")})
	must(t, err)
	if s.auth("a", "two") == nil {
		t.Fatal("a locked entity authenticated")
	}
}'''),
 dict(id="s03-direct-groups-only", prop="P03",
  needs="an entity with a direct membership in one group and an effective membership, through a rule, in another that holds a capability",
  breaks="tokens omit the capabilities of groups the entity is a member of by rule when it also has direct groups",
  edits=[("internal/rpc2/util.go", "	groupNames := s.GetMemberships(e)\n",
          "	groupNames := e.GetMeta().GetGroups()\n	if len(groupNames) == 0 {\n		groupNames = s.GetMemberships(e)\n	}\n")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "x")
	s.mkG(t, "in", "")
	s.mkG(t, "out", "")
	s.join(t, "a", "in")
	must(t, s.rule("out", "in", pb.RuleAction_INCLUDE))
	must(t, s.setCap("out", false, types.Capability_CREATE_GROUP, pb.Action_ADD))
	if !s.caps(t, "a", "x")[types.Capability_CREATE_GROUP] {
		t.Fatal("capability of an including group is missing")
	}
}'''),
 dict(id="s04-kvreplace-wrong-capability", prop="P04",
  needs="a token holding only MODIFY_GROUP_META used for a key/value replacement on an entity",
  breaks="replacing key/value data of an entity is authorised by the capability for groups",
  edits=[("internal/rpc2/entity.go", "	if err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_ENTITY_META); err != nil {\n		return &pb.Empty{}, err\n	}\n\n	err := s.Manager.EntityKVReplace(",
          "	if err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META); err != nil {\n		return &pb.Empty{}, err\n	}\n\n	err := s.Manager.EntityKVReplace(")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "x")
	kv := func(v string) *pb.KV2Request {
		return &pb.KV2Request{Target: str("a"), Data: &types.KVData{Key: str("k"), Values: []*types.KVValue{{Value: str(v)}}}}
	}
	_, err := s.EntityKVAdd(s.root(), kv("old"))
	must(t, err)
	s.EntityKVReplace(ctx(s.token("x", types.Capability_MODIFY_GROUP_META)), kv("new"))
	if v := s.info(t, "a").GetMeta().GetKV()[0].GetValues()[0].GetValue(); v != "old" {
		t.Fatal("changed without authority", v)
	}
}'''),
 dict(id="s08-last-group-stays", prop="P08",
  needs="an entity leaving the last of its groups, followed by a membership query before any restart",
  breaks="an entity that left its only group keeps being reported as its member",
  edits=[("internal/mresolver/memberships.go", "	list := make(map[string]struct{}, len(groups))\n	for i := range groups {",
          "	if len(groups) == 0 {\n		// Nothing to sync.\n		return\n	}\n	list := make(map[string]struct{}, len(groups))\n	for i := range groups {")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "x")
	s.mkG(t, "g", "")
	s.join(t, "a", "g")
	s.leave(t, "a", "g")
	if s.members(t, "g")["a"] {
		t.Fatal("still a member")
	}
}'''),
 dict(id="s09-exclude-edges-ignored", prop="P09",
  needs="a rule that closes a cycle whose other edge is an exclusion two steps away",
  breaks="cycles running through an EXCLUDE rule below the first level are not noticed",
  edits=[("internal/tree/hooks/check-expansion-cycle.go", "		if parts[1] == candidate {\n			return true\n		}\n",
          "		if parts[1] == candidate {\n			return true\n		}\n		if parts[0] == \"EXCLUDE\" {\n			// Members of an excluded group are not inherited.\n			continue\n		}\n")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	for _, g := range []string{"a", "b", "c"} {
		s.mkG(t, g, "")
	}
	must(t, s.rule("a", "b", pb.RuleAction_EXCLUDE))
	must(t, s.rule("b", "c", pb.RuleAction_INCLUDE))
	done := make(chan error, 1)
	go func() { done <- s.rule("c", "a", pb.RuleAction_INCLUDE) }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("a cycle was accepted")
		}
	case <-time.After(30 * time.Second):
		t.Fatal("stuck")
	}
}''', imports=["time"]),
 dict(id="s10-number-of-locked", prop="P10",
  needs="the entity with the highest number is locked when another is created with an automatic number",
  breaks="the numbers of locked entities are handed out again",
  edits=[("internal/db/db.go", "		if e.GetNumber() > largest {", "		if e.GetNumber() > largest && !e.GetMeta().GetLocked() {")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "x")
	s.mkE(t, "b", "x")
	_, err := s.EntityLock(s.root(), ent("b"))
	must(t, err)
	s.mkE(t, "c", "x")
	if s.info(t, "c").GetNumber() <= s.info(t, "b").GetNumber() {
		t.Fatal("number handed out twice")
	}
}'''),
 dict(id="s13-clear-prefix", prop="P13",
  needs="two untyped metadata keys of which one is a prefix of the other, and an exact clear of the shorter",
  breaks="clearing a key exactly also clears longer keys that begin with it",
  edits=[("internal/tree/util/util.go", "			parts := strings.Split(kv, \":\")\n			if parts[0] != key {",
          "			if !strings.HasPrefix(kv, key) {")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.mkE(t, "a", "x")
	_, err := s.um("a", "phone", "1", pb.Action_UPSERT)
	must(t, err)
	_, err = s.um("a", "phone2", "2", pb.Action_UPSERT)
	must(t, err)
	_, err = s.um("a", "phone", "", pb.Action_CLEAREXACT)
	must(t, err)
	r, err := s.um("a", "phone2", "", pb.Action_READ)
	must(t, err)
	if len(r) != 1 {
		t.Fatal("another key was cleared", r)
	}
}'''),
 dict(id="s18-search-limit", prop="P18",
  needs="a search matching more than a thousand objects",
  breaks="searches silently return only the first thousand results",
  edits=[("internal/db/search.go", "NewSearchRequestOptions(q, 16000, 0, false)", "NewSearchRequestOptions(q, 1000, 0, false)")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	for i := 0; i < 1100; i++ {
		must(t, s.DB.SaveEntity(&types.Entity{ID: str(fmt.Sprintf("e%d", i)), Number: i32(int32(i)), Meta: &types.EntityMeta{DisplayName: str("zebra")}}))
	}
	r, err := s.EntitySearch(s.root(), &pb.SearchRequest{Expression: str("meta.DisplayName:zebra")})
	must(t, err)
	if len(r.GetEntities()) != 1100 {
		t.Fatal("results missing", len(r.GetEntities()))
	}
}''', imports=["fmt"]),
 dict(id="s20-resolver-rlock", prop="P20",
  needs="two overlapping requests that destroy entities, or a destruction overlapping a membership query",
  breaks="the membership map is changed under a read lock only",
  flags="-race",
  edits=[("internal/mresolver/memberships.go", "	mr.uMutex.Lock()\n	delete(mr.atom.dm, entity)\n	mr.uMutex.Unlock()",
          "	mr.uMutex.RLock()\n	delete(mr.atom.dm, entity)\n	mr.uMutex.RUnlock()")],
  demo='''
func TestDemo(t *testing.T) {
	r := mresolver.New()
	var wg sync.WaitGroup
	for i := 0; i < 400; i++ {
		r.SyncDirectGroups(fmt.Sprint(i), []string{"g"})
	}
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				r.RemoveEntity(fmt.Sprint(w*100 + i))
				r.GroupsForEntity("0")
			}
		}(w)
	}
	wg.Wait()
}''', imports=["fmt", "sync", "github.com/netauth/netauth/internal/mresolver"]),
 dict(id="s21-bootstrap-read-error", prop="P21",
  needs="the record of the superuser cannot be read at the moment the server bootstraps",
  breaks="a read failure while bootstrapping is taken for absence and the existing entity is replaced",
  edits=[("internal/tree/hooks/create-entity-if-missing.go", "		break\n	default:\n		return err\n	}\n", "		break\n	default:\n		// Bootstrapping has to leave a usable superuser.\n		break\n	}\n")],
  demo='''
type flaky struct {
	db.KVStore
	bad int
}

func (f *flaky) Get(k string) ([]byte, error) {
	if f.bad > 0 && k == "/entities/admin" {
		f.bad--
		return nil, errors.New("input/output error")
	}
	return f.KVStore.Get(k)
}

func TestDemo(t *testing.T) {
	f := &flaky{}
	db.RegisterKV("flaky", func(l hclog.Logger) (db.KVStore, error) {
		u, err := db.NewKV("memory", l)
		f.KVStore = u
		return f, err
	})
	s := server(t, t.TempDir(), "flaky", "nocrypto", false)
	s.mkE(t, "other", "x")
	s.mkE(t, "admin", "x")
	s.mkG(t, "g", "")
	s.join(t, "admin", "g")
	f.bad = 1
	s.T.Bootstrap("admin", "new")
	if g := s.info(t, "admin").GetMeta().GetGroups(); len(g) != 1 {
		t.Fatal("the record was replaced", g)
	}
}''', imports=["errors", "github.com/hashicorp/go-hclog", "github.com/netauth/netauth/internal/db"]),
 dict(id="s22-bootstrap-again", prop="P22",
  needs="a first bootstrap attempt that fails (for instance because the secret cannot be secured), followed by another in the same server lifetime",
  breaks="a failed bootstrap attempt leaves bootstrapping enabled",
  edits=[("internal/tree/entity.go", "	m.DisableBootstrap()\n\n	if err != nil {\n		m.log.Error(\"Bootstrap Failed\", \"error\", err)\n	}",
          "	if err != nil {\n		m.log.Error(\"Bootstrap Failed\", \"error\", err)\n		return\n	}\n	m.DisableBootstrap()")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	s.T.Bootstrap("bad/name", "x")
	s.T.Bootstrap("admin", "x")
	if _, err := s.EntityInfo(s.root(), ent("admin")); err == nil {
		t.Fatal("bootstrapping took effect on the second attempt")
	}
}'''),
 dict(id="s28-silent-failure", prop="P28",
  needs="a subsystem check that fails without a message",
  breaks="a subsystem that fails without giving a message does not make the server unhealthy",
  edits=[("internal/health/health.go", "		if !s.Subsystems[i].OK && stat.FirstFailure == nil {", "		if !s.Subsystems[i].OK && s.Subsystems[i].Status != \"\" && stat.FirstFailure == nil {")],
  demo='''
func TestDemo(t *testing.T) {
	s := mem(t)
	health.RegisterCheck("quiet", func() health.SubsystemStatus { return health.SubsystemStatus{Name: "quiet"} })
	r, err := s.SystemStatus(ctx(""), &pb.Empty{})
	must(t, err)
	if r.GetSystemOK() {
		t.Fatal("reported healthy")
	}
}''', imports=["github.com/netauth/netauth/internal/health"]),
]
