From 003c85c07ffcb8b414de642659741ed8002d9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 01/63] fix: group metadata update no longer changes
 capabilities, rules or attributes

MERGE-METADATA merged the whole supplied group, so a request that only
needs MODIFY_GROUP_META (or delegated management) could grant
capabilities and add unchecked expansion rules.
---
 internal/tree/hooks/merge-group-meta.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/tree/hooks/merge-group-meta.go b/internal/tree/hooks/merge-group-meta.go
index 6c8ac9f..78ff841 100644
--- a/internal/tree/hooks/merge-group-meta.go
+++ b/internal/tree/hooks/merge-group-meta.go
@@ -23,6 +23,10 @@ func (*MergeGroupMeta) Run(g, dg *pb.Group) error {
 	// metadata this way, so we null those out here.
 	dg.Name = nil
 	dg.Number = nil
+	dg.Capabilities = nil
+	dg.Expansions = nil
+	dg.UntypedMeta = nil
+	dg.KV = nil
 
 	proto.Merge(g, dg)
 	return nil
-- 
2.43.0


From 94debc19be418040e49d9420cd367e4f42c08dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:50 +0000
Subject: [PATCH 02/63] fix: entity metadata update no longer changes the lock
 state or key/value data

MERGE-METADATA let a holder of MODIFY_ENTITY_META unlock entities and
append duplicate key/value entries, and panicked on an update that
carried no metadata at all.
---
 internal/tree/hooks/merge-entity-meta.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/tree/hooks/merge-entity-meta.go b/internal/tree/hooks/merge-entity-meta.go
index e5024f1..4acc636 100644
--- a/internal/tree/hooks/merge-entity-meta.go
+++ b/internal/tree/hooks/merge-entity-meta.go
@@ -19,12 +19,18 @@ type MergeEntityMeta struct {
 // Select fields are nil-ed out beforehand since they either require a
 // specialized mechanism to edit, or a specialized capability.
 func (*MergeEntityMeta) Run(e, de *pb.Entity) error {
+	if de.Meta == nil {
+		return tree.ErrFailedPrecondition
+	}
+
 	// There's a few fields that can't be set by merging the
 	// metadata this way, so we null those out here.
 	de.Meta.Capabilities = nil
 	de.Meta.Groups = nil
 	de.Meta.Keys = nil
 	de.Meta.UntypedMeta = nil
+	de.Meta.KV = nil
+	de.Meta.Locked = nil
 
 	proto.Merge(e, de)
 	return nil
-- 
2.43.0


From 12e6a363b236af1181d2bb084156e5c6ce01f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 03/63] fix: a group rule conflicts only with a rule for the
 same target

Comparing by substring refused rules for any target whose name is
contained in the name of an already named target.
---
 internal/tree/hooks/check-immediate-expansions.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/tree/hooks/check-immediate-expansions.go b/internal/tree/hooks/check-immediate-expansions.go
index 82060a6..3ee77b9 100644
--- a/internal/tree/hooks/check-immediate-expansions.go
+++ b/internal/tree/hooks/check-immediate-expansions.go
@@ -29,7 +29,8 @@ func (cie *CheckImmediateExpansions) Run(g, dg *pb.Group) error {
 			continue
 		}
 		for k := range existing {
-			if strings.Contains(existing[k], parts[1]) {
+			eparts := strings.SplitN(existing[k], ":", 2)
+			if eparts[1] == parts[1] {
 				return tree.ErrExistingExpansion
 			}
 		}
-- 
2.43.0


From 23eabdae2926a25f350797a22690c0763e327ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 04/63] fix: a group rule may not name the group itself

A self reference was accepted and sent the membership resolver into
unbounded recursion.
---
 internal/tree/hooks/check-expansion-cycle.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/tree/hooks/check-expansion-cycle.go b/internal/tree/hooks/check-expansion-cycle.go
index f19d07f..2c136fc 100644
--- a/internal/tree/hooks/check-expansion-cycle.go
+++ b/internal/tree/hooks/check-expansion-cycle.go
@@ -34,6 +34,11 @@ func (cec *CheckExpansionCycles) Run(g, dg *pb.Group) error {
 		if err != nil {
 			return err
 		}
+		if parts[1] == g.GetName() {
+			// A group that names itself is the smallest
+			// possible cycle.
+			return tree.ErrExistingExpansion
+		}
 		if cec.checkGroupCycles(child, g.GetName()) {
 			return tree.ErrExistingExpansion
 		}
-- 
2.43.0


From 1cf79df89837bdf443b0fabe1a8653be7ed9f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 05/63] fix: dropping a group rule removes only the rule for
 the named group

Dropping by substring also removed the rules for every group whose name
contains the given name.
---
 internal/tree/hooks/patch-group-expansions.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/tree/hooks/patch-group-expansions.go b/internal/tree/hooks/patch-group-expansions.go
index e7611b5..3181d4f 100644
--- a/internal/tree/hooks/patch-group-expansions.go
+++ b/internal/tree/hooks/patch-group-expansions.go
@@ -19,7 +19,8 @@ type PatchGroupExpansions struct {
 }
 
 // Run iterates through the expansions in dg and applies them to g.
-// DROP expansions are processed with fuzzy group name matching.
+// DROP expansions remove the rule for exactly the named group, of
+// either kind.
 func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 	exps := dg.GetExpansions()
 	for i := range exps {
@@ -27,11 +28,8 @@ func (*PatchGroupExpansions) Run(g, dg *pb.Group) error {
 		if parts[0] == "INCLUDE" || parts[0] == "EXCLUDE" {
 			g.Expansions = util.PatchStringSlice(g.Expansions, exps[i], true, true)
 		} else if parts[0] == "DROP" {
-			// Patch out with fuzzy matching, this will
-			// innevitably come back to bite someone, but
-			// until then its much faster than doing
-			// strict checking on the group name.
-			g.Expansions = util.PatchStringSlice(g.Expansions, parts[1], false, false)
+			g.Expansions = util.PatchStringSlice(g.Expansions, "INCLUDE:"+parts[1], false, true)
+			g.Expansions = util.PatchStringSlice(g.Expansions, "EXCLUDE:"+parts[1], false, true)
 		}
 	}
 	sort.Strings(g.Expansions)
-- 
2.43.0


From 46ace2622acc352e9afd571dbd8835f2e0b63db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 06/63] fix: public keys are added and dropped by exact match

Substring matching made adding a key that is part of a stored key do
nothing, and made dropping one key drop every key that contains it.
---
 internal/tree/hooks/entity-keys.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/tree/hooks/entity-keys.go b/internal/tree/hooks/entity-keys.go
index 7f70d71..849fa2d 100644
--- a/internal/tree/hooks/entity-keys.go
+++ b/internal/tree/hooks/entity-keys.go
@@ -1,6 +1,8 @@
 package hooks
 
 import (
+	"strings"
+
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 	"github.com/netauth/netauth/internal/tree/util"
@@ -18,7 +20,23 @@ type ManageEntityKeys struct {
 // from the entity's keystore.
 func (mek *ManageEntityKeys) Run(e, de *pb.Entity) error {
 	for _, k := range de.Meta.Keys {
-		e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, mek.mode, false)
+		if mek.mode {
+			e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, k, true, true)
+			continue
+		}
+		// When dropping, a type or key that is not given matches
+		// all of them; what is given is matched exactly.
+		want := strings.SplitN(k, ":", 2)
+		for _, have := range e.Meta.Keys {
+			parts := strings.SplitN(have, ":", 2)
+			if len(want) != 2 || len(parts) != 2 {
+				continue
+			}
+			if (want[0] == "" || parts[0] == want[0]) &&
+				(want[1] == "" || parts[1] == want[1]) {
+				e.Meta.Keys = util.PatchStringSlice(e.Meta.Keys, have, false, true)
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From dec8000a1c80af3f847ac84ebf52c24437c9f3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 07/63] fix: only a trailing index is ignored in untyped
 metadata keys

Index-insensitive reads and clears also matched keys that differ in the
middle of their names.
---
 internal/tree/util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tree/util/util.go b/internal/tree/util/util.go
index 6c0a39a..b987fdf 100644
--- a/internal/tree/util/util.go
+++ b/internal/tree/util/util.go
@@ -10,7 +10,7 @@ import (
 )
 
 var (
-	kvIndexRegexp = regexp.MustCompile(`{\d+}`)
+	kvIndexRegexp = regexp.MustCompile(`{\d+}$`)
 )
 
 // PatchStringSlice patches a string into or out of a slice of other
-- 
2.43.0


From bb8eccd066547bed14f207db73e2d922b9ff731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 08/63] fix: the membership resolver forgets dependencies whose
 rule was removed

Dependencies were only ever added, so reversing a rule between two
groups made the resolver recurse until the process died.
---
 internal/mresolver/memberships.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 6ca6517..242020d 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -55,6 +55,12 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
 	mr.gMutex.Lock()
+	// Rules that are no longer on the group must not be followed any
+	// more; a group may legitimately end up depending on one that
+	// used to depend on it.
+	for _, affectors := range mr.atom.ga {
+		delete(affectors, group)
+	}
 	for _, g := range include {
 		addAffector(g, group)
 	}
-- 
2.43.0


From 5b3d7ccba0fab52457f16587dba6b8be4d7fc589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 09/63] fix: destroyed groups stop contributing to membership
 of their dependents

Dependents kept the members of the destroyed group until restart, and
never picked up a group created again under the same name.
---
 internal/mresolver/memberships.go | 44 +++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 242020d..10c65bc 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -76,10 +76,19 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 // Recursively propagate resolutions all the way down.
 func (mr *MResolver) resolveChanges(group string) {
 	mr.Resolve(group)
+	mr.resolveCascade(group)
+}
+
+// resolveCascade propagates to all groups that depend on the given
+// one.
+func (mr *MResolver) resolveCascade(group string) {
 	mr.gMutex.RLock()
-	cascade := mr.atom.ga[group]
+	cascade := make([]string, 0, len(mr.atom.ga[group]))
+	for g := range mr.atom.ga[group] {
+		cascade = append(cascade, g)
+	}
 	mr.gMutex.RUnlock()
-	for g := range cascade {
+	for _, g := range cascade {
 		mr.resolveChanges(g)
 	}
 }
@@ -93,7 +102,6 @@ func (mr *MResolver) RemoveGroup(group string) {
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
 	delete(mr.atom.gt, group)
-	delete(mr.atom.ga, group)
 
 	mr.atom.gs.Del(group)
 
@@ -101,6 +109,11 @@ func (mr *MResolver) RemoveGroup(group string) {
 		delete(ga, group)
 	}
 	mr.gMutex.Unlock()
+
+	// Groups that still have a rule for the one that was removed
+	// keep depending on it, should it be created again, but no
+	// longer contain its members.
+	mr.resolveCascade(group)
 }
 
 // Resolve flattens out the membership tree and associated subtrees
@@ -118,6 +131,7 @@ func (mr *MResolver) Resolve(group string) error {
 
 	mr.l.Trace("Resolving Group", "group", group)
 
+	missing := false
 	res := []bsfilter.Symbol{}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolIdent, Ident: g.self})
@@ -126,6 +140,14 @@ func (mr *MResolver) Resolve(group string) error {
 	// the higher level and swapping between a logical operator
 	// between loop iterations.
 	for _, gn := range g.include {
+		mr.gMutex.RLock()
+		_, known := mr.atom.gc[gn]
+		mr.gMutex.RUnlock()
+		if !known {
+			// A group that doesn't exist has no members.
+			missing = true
+			continue
+		}
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
 		mr.gMutex.RLock()
@@ -141,7 +163,7 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				missing = true
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
@@ -154,6 +176,14 @@ func (mr *MResolver) Resolve(group string) error {
 	}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	for _, gn := range g.exclude {
+		mr.gMutex.RLock()
+		_, known := mr.atom.gc[gn]
+		mr.gMutex.RUnlock()
+		if !known {
+			// A group that doesn't exist has no members.
+			missing = true
+			continue
+		}
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
@@ -170,7 +200,7 @@ func (mr *MResolver) Resolve(group string) error {
 			// potentially deadlock if another thread is
 			// reading and trying to resolve.
 			if err := mr.Resolve(gn); err != nil {
-				return err
+				missing = true
 			}
 			mr.gMutex.RLock()
 			// At this point this is populated from the
@@ -188,6 +218,10 @@ func (mr *MResolver) Resolve(group string) error {
 	mr.atom.gs.Add(group, expr)
 	mr.gMutex.Unlock()
 	mr.l.Debug("Group Resolved", "group", group, "expression", expr)
+	if missing {
+		mr.l.Warn("Group has rules for unknown groups", "group", group)
+		return ErrInsufficientKnowledge
+	}
 	return nil
 }
 
-- 
2.43.0


From 13474a0698b0bd9cd4631760db766ac2718311cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:57 +0000
Subject: [PATCH 10/63] fix: the membership resolver synchronises queries and
 group changes

Queries iterated over the memberships while they were being changed, and
overlapping group changes could leave an outdated resolution behind.
---
 internal/mresolver/memberships.go | 8 ++++++++
 internal/mresolver/type.go        | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 10c65bc..889871e 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -30,6 +30,9 @@ func (mr *MResolver) RemoveEntity(entity string) {
 // information in the system, and may trigger a cascading membership
 // recalculation.
 func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
+	mr.sMutex.Lock()
+	defer mr.sMutex.Unlock()
+
 	g := resolvableGroup{
 		self:    group,
 		include: include,
@@ -98,6 +101,9 @@ func (mr *MResolver) resolveCascade(group string) {
 // memberships as this is assumed to have been done prior to deleting
 // the group.
 func (mr *MResolver) RemoveGroup(group string) {
+	mr.sMutex.Lock()
+	defer mr.sMutex.Unlock()
+
 	mr.gMutex.Lock()
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
@@ -234,6 +240,8 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 	if !ok {
 		return []string{}
 	}
+	mr.uMutex.RLock()
+	defer mr.uMutex.RUnlock()
 	return exp.FilterValues(mr.atom.dm)
 }
 
diff --git a/internal/mresolver/type.go b/internal/mresolver/type.go
index 2f56c6e..33814c4 100644
--- a/internal/mresolver/type.go
+++ b/internal/mresolver/type.go
@@ -14,6 +14,10 @@ import (
 type MResolver struct {
 	l hclog.Logger
 
+	// Changes to the groups are applied one at a time, as each may
+	// re-resolve any number of other groups.
+	sMutex sync.Mutex
+
 	uMutex sync.RWMutex
 	gMutex sync.RWMutex
 
-- 
2.43.0


From 8e1887d2fb060cb170aeac9128520bbc875df5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 11/63] fix: members of a managing group can manage the group

The claims of the token never reached the membership check, so delegated
management was always refused.
---
 internal/rpc2/group.go | 10 +++++-----
 internal/rpc2/util.go  | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index bb90957..10f0e89 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -56,7 +56,7 @@ func (s *Server) GroupCreate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty
 func (s *Server) GroupUpdate(ctx context.Context, r *pb.GroupRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err != nil && !s.delegated(ctx, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -136,7 +136,7 @@ func (s *Server) GroupUM(ctx context.Context, r *pb.KVRequest) (*pb.ListOfString
 	if r.GetAction() != pb.Action_READ {
 		err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 		g := types.Group{Name: proto.String(r.GetTarget())}
-		if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &g) {
+		if err != nil && !s.delegated(ctx, &g) {
 			return &pb.ListOfStrings{}, err
 		}
 	}
@@ -331,7 +331,7 @@ func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest)
 	g := r.GetGroup()
 
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
-	if err != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, g) {
+	if err != nil && !s.delegated(ctx, g) {
 		return &pb.Empty{}, err
 	}
 
@@ -372,7 +372,7 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.delegated(ctx, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
@@ -402,7 +402,7 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
 	for _, g := range e.GetMeta().GetGroups() {
 		grp := types.Group{Name: proto.String(g)}
-		if preErr != nil && !s.manageByMembership(getTokenClaims(ctx).EntityID, &grp) {
+		if preErr != nil && !s.delegated(ctx, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
 				"entity", e.GetID(),
 				"group", g,
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index f1517d9..95df3f1 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -189,6 +189,20 @@ func (s *Server) manageByMembership(entityID string, g *types.Group) bool {
 	return false
 }
 
+// delegated checks if the holder of the token in the context may
+// manage the group g by membership.  As for any other mutable request
+// the server must be writeable and the token valid.
+func (s *Server) delegated(ctx context.Context, g *types.Group) bool {
+	if s.readonly {
+		return false
+	}
+	ctx, err := s.checkToken(ctx)
+	if err != nil {
+		return false
+	}
+	return s.manageByMembership(getTokenClaims(ctx).EntityID, g)
+}
+
 // mutablePrequisitesAreMet checks for common mutable prerequisites
 // such as the server being in a writeable mode, and the correct
 // capability being present in a valid token.
-- 
2.43.0


From 63e6c937d0b28ff5c11f8165124f45c62c1e2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 12/63] fix: a membership request naming several groups is
 applied whole or not at all

The groups were authorised and changed one by one, so a refused request
could already have changed some memberships, and a request naming no
group was not authorised at all.
---
 internal/rpc2/group.go      | 56 +++++++++++++++++++++----------------
 internal/rpc2/type.go       |  4 +--
 internal/tree/membership.go |  8 +++---
 3 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index 10f0e89..a41ad1d 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -370,7 +370,8 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	e := r.GetEntity()
 
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
-	for _, g := range e.GetMeta().GetGroups() {
+	groups := e.GetMeta().GetGroups()
+	for _, g := range groups {
 		grp := types.Group{Name: proto.String(g)}
 		if preErr != nil && !s.delegated(ctx, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
@@ -380,17 +381,20 @@ func (s *Server) GroupAddMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 			)
 			return &pb.Empty{}, preErr
 		}
-		if err := s.AddEntityToGroup(e.GetID(), g); err != nil {
-			s.log.Warn("Error adding entity to group",
-				"entity", e.GetID(),
-				"group", g,
-				"authority", getTokenClaims(ctx).EntityID,
-				"service", getServiceName(ctx),
-				"client", getClientName(ctx),
-				"error", err,
-			)
-			return &pb.Empty{}, ErrInternal
-		}
+	}
+	if len(groups) == 0 {
+		return &pb.Empty{}, preErr
+	}
+	if err := s.AddEntityToGroup(e.GetID(), groups...); err != nil {
+		s.log.Warn("Error adding entity to groups",
+			"entity", e.GetID(),
+			"groups", groups,
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrInternal
 	}
 	return &pb.Empty{}, nil
 }
@@ -400,7 +404,8 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 	e := r.GetEntity()
 
 	preErr := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_MEMBERS)
-	for _, g := range e.GetMeta().GetGroups() {
+	groups := e.GetMeta().GetGroups()
+	for _, g := range groups {
 		grp := types.Group{Name: proto.String(g)}
 		if preErr != nil && !s.delegated(ctx, &grp) {
 			s.log.Warn("Insufficient authority to add entity to group",
@@ -410,17 +415,20 @@ func (s *Server) GroupDelMember(ctx context.Context, r *pb.EntityRequest) (*pb.E
 			)
 			return &pb.Empty{}, preErr
 		}
-		if err := s.RemoveEntityFromGroup(e.GetID(), g); err != nil {
-			s.log.Warn("Error adding entity to group",
-				"entity", e.GetID(),
-				"group", g,
-				"authority", getTokenClaims(ctx).EntityID,
-				"service", getServiceName(ctx),
-				"client", getClientName(ctx),
-				"error", err,
-			)
-			return &pb.Empty{}, ErrInternal
-		}
+	}
+	if len(groups) == 0 {
+		return &pb.Empty{}, preErr
+	}
+	if err := s.RemoveEntityFromGroup(e.GetID(), groups...); err != nil {
+		s.log.Warn("Error removing entity from groups",
+			"entity", e.GetID(),
+			"groups", groups,
+			"authority", getTokenClaims(ctx).EntityID,
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.Empty{}, ErrInternal
 	}
 	return &pb.Empty{}, nil
 }
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 1a43d2e..5a98b37 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -62,8 +62,8 @@ type Manager interface {
 	GroupKVReplace(string, []*pb.KVData) error
 	DestroyGroup(string) error
 
-	AddEntityToGroup(string, string) error
-	RemoveEntityFromGroup(string, string) error
+	AddEntityToGroup(string, ...string) error
+	RemoveEntityFromGroup(string, ...string) error
 	ListMembers(string) ([]*pb.Entity, error)
 	GetMemberships(*pb.Entity) []string
 	ModifyGroupRule(string, string, rpc.RuleAction) error
diff --git a/internal/tree/membership.go b/internal/tree/membership.go
index 06243e5..233ed8b 100644
--- a/internal/tree/membership.go
+++ b/internal/tree/membership.go
@@ -9,11 +9,11 @@ import (
 
 // AddEntityToGroup is the same as the internal function, but takes an
 // entity ID rather than a pointer
-func (m *Manager) AddEntityToGroup(entityID, groupName string) error {
+func (m *Manager) AddEntityToGroup(entityID string, groupNames ...string) error {
 	de := &pb.Entity{
 		ID: &entityID,
 		Meta: &pb.EntityMeta{
-			Groups: []string{groupName},
+			Groups: groupNames,
 		},
 	}
 
@@ -23,11 +23,11 @@ func (m *Manager) AddEntityToGroup(entityID, groupName string) error {
 
 // RemoveEntityFromGroup performs the same function as the internal
 // variant, but does so by name rather than by entity pointer.
-func (m *Manager) RemoveEntityFromGroup(entityID, groupName string) error {
+func (m *Manager) RemoveEntityFromGroup(entityID string, groupNames ...string) error {
 	de := &pb.Entity{
 		ID: &entityID,
 		Meta: &pb.EntityMeta{
-			Groups: []string{groupName},
+			Groups: groupNames,
 		},
 	}
 
-- 
2.43.0


From 2f288c3a1972c5cbc1a932c0c2b2e299e8b28947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 13/63] fix: requests without an entity or group message do not
 crash the server

---
 internal/rpc2/auth.go  | 2 +-
 internal/tree/group.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index b0f8cb4..873677c 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -37,7 +37,7 @@ func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthR
 		return &pb.AuthResult{}, err
 	}
 
-	caps := s.getCapabilitiesForEntity(*r.Entity.ID)
+	caps := s.getCapabilitiesForEntity(r.GetEntity().GetID())
 
 	// Generate Token
 	tkn, err := s.Generate(
diff --git a/internal/tree/group.go b/internal/tree/group.go
index 48933b3..589d4a4 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -52,6 +52,9 @@ func (m *Manager) DestroyGroup(name string) error {
 // information is not mutable and so that information is not merged
 // in.
 func (m *Manager) UpdateGroupMeta(name string, update *pb.Group) error {
+	if update == nil {
+		update = &pb.Group{}
+	}
 	update.Name = &name
 	_, err := m.RunGroupChain("MERGE-METADATA", update)
 	return err
-- 
2.43.0


From a7dce5f01d3546bbc572dc9a1d7ee24070c497b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:33 +0000
Subject: [PATCH 14/63] fix: creating over a record that could not be read is
 refused

A storage failure while checking for an existing entity or group was
taken to mean that it does not exist, replacing the stored record.
---
 internal/tree/hooks/fail-on-existing-entity.go |  9 +++++++--
 internal/tree/hooks/fail-on-existing-group.go  | 12 +++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/internal/tree/hooks/fail-on-existing-entity.go b/internal/tree/hooks/fail-on-existing-entity.go
index 45a57c1..b8a3cf8 100644
--- a/internal/tree/hooks/fail-on-existing-entity.go
+++ b/internal/tree/hooks/fail-on-existing-entity.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -20,10 +21,14 @@ type FailOnExistingEntity struct {
 // from the storage backend will be returned to the caller).
 func (l *FailOnExistingEntity) Run(e, de *pb.Entity) error {
 	_, err := l.LoadEntity(de.GetID())
-	if err == nil {
+	switch err {
+	case nil:
 		return tree.ErrDuplicateEntityID
+	case db.ErrUnknownEntity:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
diff --git a/internal/tree/hooks/fail-on-existing-group.go b/internal/tree/hooks/fail-on-existing-group.go
index 94e8563..68c1ac9 100644
--- a/internal/tree/hooks/fail-on-existing-group.go
+++ b/internal/tree/hooks/fail-on-existing-group.go
@@ -1,6 +1,7 @@
 package hooks
 
 import (
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/startup"
 	"github.com/netauth/netauth/internal/tree"
 
@@ -16,12 +17,17 @@ type FailOnExistingGroup struct {
 
 // Run contacts the datastore and attempts to load the group specified
 // by dg.  If the group loads successfully then an error is returned,
-// in other cases nil is returned.
+// if it is known not to exist nil is returned.
 func (f *FailOnExistingGroup) Run(g, dg *pb.Group) error {
-	if _, err := f.LoadGroup(dg.GetName()); err == nil {
+	_, err := f.LoadGroup(dg.GetName())
+	switch err {
+	case nil:
 		return tree.ErrDuplicateGroupName
+	case db.ErrUnknownGroup:
+		return nil
+	default:
+		return err
 	}
-	return nil
 }
 
 func init() {
-- 
2.43.0


From 05d5b2a2cfc934c3303428421e3d2434a872f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 15/63] fix: writes after a clean close of a bitcask store
 survive an unclean stop

The index saved by the last clean close was trusted on open, hiding
everything written since.
---
 internal/db/bitcask/bitcask.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index daf0483..0c1ff2c 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,6 +3,7 @@
 package bitcask
 
 import (
+	"os"
 	"path"
 	"path/filepath"
 	"strings"
@@ -52,6 +53,13 @@ func New(l hclog.Logger) (db.KVStore, error) {
 		bitcask.WithMaxValueSize(1024 * 1000 * 5), // 5MiB
 		bitcask.WithSync(true),
 	}
+	// The index is only a cache which is written on a clean close,
+	// but which is then trusted even if the store was written to
+	// again and not closed.  Without it, the contents are always
+	// recovered from the data itself.
+	if err := os.Remove(filepath.Join(p, "index")); err != nil && !os.IsNotExist(err) {
+		return nil, err
+	}
 	b, err := bitcask.Open(p, opts...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From afa78fdeb6661ca7fde66d2f557a8c7d696f4bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 16/63] fix: storage backends report missing keys and read
 failures distinctly

bitcask reported any read failure as a missing key and ignored failed
deletes; bitcask and memory reported deletion of a missing key as a
change.
---
 internal/db/bitcask/bitcask.go | 15 +++++++++------
 internal/db/memory/memory.go   |  4 ++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 0c1ff2c..bd7fa20 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -85,19 +85,22 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	switch err {
 	case nil:
 		return v, nil
-	default:
+	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
+	default:
+		return nil, err
 	}
 }
 
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	// I can come up with nothing that causes this delete call to
-	// fail, up to and including nuking the entire data directory.
-	// If you can write a way to check this error and its
-	// associated test, open a PR.
-	bcs.s.Delete([]byte(k))
+	if !bcs.s.Has([]byte(k)) {
+		return db.ErrNoValue
+	}
+	if err := bcs.s.Delete([]byte(k)); err != nil {
+		return err
+	}
 	bcs.fireEventForKey(k, eventDelete)
 	return nil
 }
diff --git a/internal/db/memory/memory.go b/internal/db/memory/memory.go
index 7287afa..e33877e 100644
--- a/internal/db/memory/memory.go
+++ b/internal/db/memory/memory.go
@@ -89,8 +89,12 @@ func (kv *KV) Get(k string) ([]byte, error) {
 // Del removes a value for a given key
 func (kv *KV) Del(k string) error {
 	kv.Lock()
+	_, ok := kv.m[k]
 	delete(kv.m, k)
 	kv.Unlock()
+	if !ok {
+		return db.ErrNoValue
+	}
 	kv.l.Trace("DEL", "key", k)
 
 	switch {
-- 
2.43.0


From d08b4f1e230988ec35afe84aa6de9e5566a880a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 17/63] fix: names that cannot be stored are refused instead of
 reaching another key

Names such as ../groups/x were joined into a path and resolved to some
other record, or to a record that can never be listed.
---
 internal/db/db.go     | 26 ++++++++++++++++++++++++++
 internal/db/errors.go |  4 ++++
 2 files changed, 30 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index 51053d4..c968c99 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -5,6 +5,7 @@ package db
 
 import (
 	"path"
+	"strings"
 
 	"github.com/golang/protobuf/proto"
 	"github.com/hashicorp/go-hclog"
@@ -37,6 +38,13 @@ func New(backend string) (*DB, error) {
 	return x, nil
 }
 
+// validName checks that a name can be used as the last element of a
+// key.  Anything else would refer to some other key, or to none at
+// all.
+func validName(name string) bool {
+	return name != "" && name != "." && name != ".." && !strings.Contains(name, "/")
+}
+
 // DiscoverEntityIDs searches the keyspace for all entity IDs.  All
 // returned strings are loadable entities.
 func (db *DB) DiscoverEntityIDs() ([]string, error) {
@@ -45,6 +53,9 @@ func (db *DB) DiscoverEntityIDs() ([]string, error) {
 
 // LoadEntity retrieves a single entity from the kv store.
 func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownEntity
+	}
 	b, err := db.kv.Get(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownEntity
@@ -64,6 +75,9 @@ func (db *DB) LoadEntity(ID string) (*types.Entity, error) {
 
 // SaveEntity writes an entity to the kv store.
 func (db *DB) SaveEntity(e *types.Entity) error {
+	if !validName(e.GetID()) {
+		return ErrInvalidName
+	}
 	b, err := proto.Marshal(e)
 	if err != nil {
 		db.log.Warn("Error marshaling entity", "error", err)
@@ -79,6 +93,9 @@ func (db *DB) SaveEntity(e *types.Entity) error {
 
 // DeleteEntity tries to delete an entity that already exists.
 func (db *DB) DeleteEntity(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownEntity
+	}
 	err := db.kv.Del(path.Join("/entities", ID))
 	if err == ErrNoValue {
 		return ErrUnknownEntity
@@ -94,6 +111,9 @@ func (db *DB) DiscoverGroupNames() ([]string, error) {
 
 // LoadGroup retrieves a single group from the kv store.
 func (db *DB) LoadGroup(ID string) (*types.Group, error) {
+	if !validName(ID) {
+		return nil, ErrUnknownGroup
+	}
 	b, err := db.kv.Get(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return nil, ErrUnknownGroup
@@ -113,6 +133,9 @@ func (db *DB) LoadGroup(ID string) (*types.Group, error) {
 
 // SaveGroup writes an group to the kv store.
 func (db *DB) SaveGroup(g *types.Group) error {
+	if !validName(g.GetName()) {
+		return ErrInvalidName
+	}
 	b, err := proto.Marshal(g)
 	if err != nil {
 		db.log.Warn("Error marshaling group", "error", err)
@@ -128,6 +151,9 @@ func (db *DB) SaveGroup(g *types.Group) error {
 
 // DeleteGroup tries to delete an group that already exists.
 func (db *DB) DeleteGroup(ID string) error {
+	if !validName(ID) {
+		return ErrUnknownGroup
+	}
 	err := db.kv.Del(path.Join("/groups", ID))
 	if err == ErrNoValue {
 		return ErrUnknownGroup
diff --git a/internal/db/errors.go b/internal/db/errors.go
index b4bed2d..94d9203 100644
--- a/internal/db/errors.go
+++ b/internal/db/errors.go
@@ -13,6 +13,10 @@ var (
 	// that does not exist.
 	ErrUnknownGroup = errors.New("the specified group does not exist")
 
+	// ErrInvalidName is returned for requests to save an entity
+	// or group with a name that cannot be stored.
+	ErrInvalidName = errors.New("the specified name is not valid")
+
 	// ErrUnknownDatabase is returned for an attempt to create a
 	// new database that hasn't been registered.
 	ErrUnknownDatabase = errors.New("the specified database does not exist")
-- 
2.43.0


From ff643ea34efe692b29f2ac13882cdf6925c76a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:56 +0000
Subject: [PATCH 18/63] fix: a write interrupted in the filesystem store leaves
 no stray record

Temporary files were created next to the records, and were taken for
records themselves after a crash.
---
 internal/db/filesystem/filesystem.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index c2cb2fe..78b7be3 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -87,7 +87,7 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 		return err
 	}
 
-	if err := atomic.WriteFile(p, v, 0640); err != nil {
+	if err := fs.replaceFile(p, v); err != nil {
 		return err
 	}
 
@@ -95,6 +95,25 @@ func (fs *Filesystem) Put(k string, v []byte) error {
 	return nil
 }
 
+// replaceFile atomically replaces the contents of the file p.  The
+// pending contents are kept directly in the basePath, where a file
+// left behind by a crash is never mistaken for a key.
+func (fs *Filesystem) replaceFile(p string, v []byte) error {
+	t, err := atomic.TempFile(fs.basePath, p)
+	if err != nil {
+		return err
+	}
+	defer t.Cleanup()
+
+	if err := t.Chmod(0640); err != nil {
+		return err
+	}
+	if _, err := t.Write(v); err != nil {
+		return err
+	}
+	return t.CloseAtomicallyReplace()
+}
+
 // Get returns a series of bytes from the filesystem, checking to make
 // sure that the bytes come from inside the base path.
 func (fs *Filesystem) Get(k string) ([]byte, error) {
-- 
2.43.0


From db3218ef67a887aff884fe0fdb17c847ecaca4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:10 +0000
Subject: [PATCH 19/63] fix: records are listed whatever characters the data
 directory contains

---
 internal/db/filesystem/filesystem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index 78b7be3..bc9a083 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -14,6 +14,7 @@ package filesystem
 
 import (
 	"errors"
+	iofs "io/fs"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -161,12 +162,11 @@ func (fs *Filesystem) Del(k string) error {
 func (fs *Filesystem) Keys(f string) ([]string, error) {
 	// Discard error because the hard coded pattern cannot return
 	// an os.PathError
-	keys, _ := filepath.Glob(filepath.Join(fs.basePath, "*", "*"))
+	keys, _ := iofs.Glob(os.DirFS(fs.basePath), "*/*")
 
 	out := make([]string, len(keys))
 	i := 0
 	for _, k := range keys {
-		k, _ = filepath.Rel(fs.basePath, k)
 		k = "/" + k
 		if m, _ := filepath.Match(f, k); m {
 			out[i] = k
-- 
2.43.0


From 5679d30a46da22d725074e35fa0f080ba3780d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 20/63] fix: objects removed by an overlapping request do not
 fail queries, and numbers never wrap

Also report an error when no automatic number is left instead of handing
out a negative one.
---
 internal/db/db.go           | 23 +++++++++++++++++++++++
 internal/db/errors.go       |  4 ++++
 internal/tree/membership.go |  6 ++++++
 3 files changed, 33 insertions(+)

diff --git a/internal/db/db.go b/internal/db/db.go
index c968c99..115b3e9 100644
--- a/internal/db/db.go
+++ b/internal/db/db.go
@@ -4,6 +4,7 @@
 package db
 
 import (
+	"math"
 	"path"
 	"strings"
 
@@ -186,6 +187,10 @@ func (db *DB) NextEntityNumber() (int32, error) {
 
 	for _, en := range el {
 		e, err := db.LoadEntity(path.Base(en))
+		if err == ErrUnknownEntity {
+			// Removed since the keys were listed.
+			continue
+		}
 		if err != nil {
 			return 0, err
 		}
@@ -194,6 +199,9 @@ func (db *DB) NextEntityNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		return 0, ErrNoMoreNumbers
+	}
 	return largest + 1, nil
 }
 
@@ -208,6 +216,10 @@ func (db *DB) NextGroupNumber() (int32, error) {
 	}
 	for _, i := range l {
 		g, err := db.LoadGroup(path.Base(i))
+		if err == ErrUnknownGroup {
+			// Removed since the keys were listed.
+			continue
+		}
 		if err != nil {
 			return 0, err
 		}
@@ -216,6 +228,9 @@ func (db *DB) NextGroupNumber() (int32, error) {
 		}
 	}
 
+	if largest == math.MaxInt32 {
+		return 0, ErrNoMoreNumbers
+	}
 	return largest + 1, nil
 }
 
@@ -254,6 +269,10 @@ func (db *DB) loadEntityBatch(ids []string) ([]*types.Entity, error) {
 
 	for i := range ids {
 		e, err := db.LoadEntity(ids[i])
+		if err == ErrUnknownEntity {
+			// Removed since the index was searched.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -267,6 +286,10 @@ func (db *DB) loadGroupBatch(ids []string) ([]*types.Group, error) {
 
 	for i := range ids {
 		g, err := db.LoadGroup(ids[i])
+		if err == ErrUnknownGroup {
+			// Removed since the index was searched.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
diff --git a/internal/db/errors.go b/internal/db/errors.go
index 94d9203..b82393e 100644
--- a/internal/db/errors.go
+++ b/internal/db/errors.go
@@ -17,6 +17,10 @@ var (
 	// or group with a name that cannot be stored.
 	ErrInvalidName = errors.New("the specified name is not valid")
 
+	// ErrNoMoreNumbers is returned when the largest possible
+	// number is already in use.
+	ErrNoMoreNumbers = errors.New("no more numbers are available")
+
 	// ErrUnknownDatabase is returned for an attempt to create a
 	// new database that hasn't been registered.
 	ErrUnknownDatabase = errors.New("the specified database does not exist")
diff --git a/internal/tree/membership.go b/internal/tree/membership.go
index 233ed8b..7b76360 100644
--- a/internal/tree/membership.go
+++ b/internal/tree/membership.go
@@ -3,6 +3,8 @@ package tree
 import (
 	"fmt"
 
+	"github.com/netauth/netauth/internal/db"
+
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
 )
@@ -51,6 +53,10 @@ func (m *Manager) ListMembers(groupID string) ([]*pb.Entity, error) {
 	entities := []*pb.Entity{}
 	for i := range eIDs {
 		e, err := m.db.LoadEntity(eIDs[i])
+		if err == db.ErrUnknownEntity {
+			// Removed since the members were resolved.
+			continue
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From f17b6467af7eb9186d36be0933f4e5cbada683a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 21/63] fix: the groups of an entity never contain an empty
 entry

A group that could not be loaded left a nil in the answer, which cannot
be sent to the client.
---
 internal/rpc2/entity.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index 736d037..eaf8a8b 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -585,13 +585,26 @@ func (s *Server) EntityGroups(ctx context.Context, r *pb.EntityRequest) (*pb.Lis
 
 	groups := s.GetMemberships(ent)
 
-	out := make([]*types.Group, len(groups))
+	out := []*types.Group{}
 	for i := range groups {
-		// We throw this error out here, as its logged at a
-		// lower level, and the side effect here is that only
-		// a partial result gets returned.
-		tmp, _ := s.FetchGroup(groups[i])
-		out[i] = tmp
+		tmp, err := s.FetchGroup(groups[i])
+		switch err {
+		case nil:
+			out = append(out, tmp)
+		case db.ErrUnknownGroup:
+			// Removed since the memberships were
+			// resolved.
+			continue
+		default:
+			s.log.Warn("Error getting groups for entity",
+				"entity", e.GetID(),
+				"group", groups[i],
+				"service", getServiceName(ctx),
+				"client", getClientName(ctx),
+				"error", err,
+			)
+			return &pb.ListOfGroups{}, ErrInternal
+		}
 	}
 
 	return &pb.ListOfGroups{Groups: out}, nil
-- 
2.43.0


From ac17c3cef935f7428f5e73c45d942d404138d795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 22/63] fix: overlapping changes to the same object are applied
 one after another

Each change loads, modifies and saves a whole object, so overlapping
changes lost updates, handed out a number twice, created a name twice,
and authenticating could undo a change.
---
 internal/tree/entity-chains.go | 16 ++++++++++++++++
 internal/tree/group-chains.go  |  5 +++++
 internal/tree/type.go          | 12 ++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/internal/tree/entity-chains.go b/internal/tree/entity-chains.go
index ea675e3..9b4c497 100644
--- a/internal/tree/entity-chains.go
+++ b/internal/tree/entity-chains.go
@@ -1,6 +1,7 @@
 package tree
 
 import (
+	"hash/fnv"
 	"sort"
 
 	pb "github.com/netauth/protocol"
@@ -108,6 +109,21 @@ func (m *Manager) CheckRequiredEntityChains() error {
 // RunEntityChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunEntityChain(chain string, de *pb.Entity) (*pb.Entity, error) {
+	switch chain {
+	case "FETCH":
+	case "CREATE", "BOOTSTRAP-SERVER":
+		// These may need to select an unused number.
+		m.createLock.Lock()
+		defer m.createLock.Unlock()
+		fallthrough
+	default:
+		h := fnv.New32a()
+		h.Write([]byte(de.GetID()))
+		l := &m.entityLocks[h.Sum32()%uint32(len(m.entityLocks))]
+		l.Lock()
+		defer l.Unlock()
+	}
+
 	e := new(pb.Entity)
 	hookChain := m.entityProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/group-chains.go b/internal/tree/group-chains.go
index 0176fb5..5dfd016 100644
--- a/internal/tree/group-chains.go
+++ b/internal/tree/group-chains.go
@@ -108,6 +108,11 @@ func (m *Manager) CheckRequiredGroupChains() error {
 // RunGroupChain runs the specified chain with de specifying values
 // to be consumed by the chain.
 func (m *Manager) RunGroupChain(chain string, de *pb.Group) (*pb.Group, error) {
+	if chain != "FETCH" {
+		m.groupLock.Lock()
+		defer m.groupLock.Unlock()
+	}
+
 	e := new(pb.Group)
 	hookChain := m.groupProcesses[chain]
 	for _, h := range hookChain {
diff --git a/internal/tree/type.go b/internal/tree/type.go
index 783e007..e8c98ed 100644
--- a/internal/tree/type.go
+++ b/internal/tree/type.go
@@ -1,6 +1,8 @@
 package tree
 
 import (
+	"sync"
+
 	"github.com/hashicorp/go-hclog"
 
 	"github.com/netauth/netauth/internal/crypto"
@@ -41,6 +43,16 @@ type Manager struct {
 
 	resolver *mresolver.MResolver
 
+	// Chains that change something load, change and save an
+	// object, and so only one of them may work on it at a time.
+	// Entities share a fixed number of locks by the hash of the
+	// ID, since checking a secret is slow and must not hold up
+	// all other entities.  Creation and the changing of groups
+	// depend on other objects and happen strictly one at a time.
+	createLock  sync.Mutex
+	entityLocks [64]sync.Mutex
+	groupLock   sync.Mutex
+
 	log hclog.Logger
 }
 
-- 
2.43.0


From 50da570d4f0d35a20e167a1829218294e2ecb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 23/63] fix: changing one's own secret checks and replaces the
 same old secret

Two overlapping changes could both succeed with the same old secret.
---
 internal/rpc2/auth.go | 3 +++
 internal/rpc2/type.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index 873677c..5253b9f 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -112,6 +112,9 @@ func (s *Server) AuthChangeSecret(ctx context.Context, r *pb.AuthRequest) (*pb.E
 		return &pb.Empty{}, err
 	}
 
+	s.secretLock.Lock()
+	defer s.secretLock.Unlock()
+
 	// Changing for self, must have the original secret
 	if getTokenClaims(ctx).EntityID == e.GetID() {
 		if err := s.ValidateSecret(e.GetID(), e.GetSecret()); err != nil {
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 5a98b37..166bd8e 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -1,6 +1,8 @@
 package rpc2
 
 import (
+	"sync"
+
 	"github.com/hashicorp/go-hclog"
 
 	"github.com/netauth/netauth/internal/db"
@@ -18,6 +20,10 @@ type Server struct {
 
 	readonly bool
 	log      hclog.Logger
+
+	// Changing a secret first checks the old one, which must then
+	// not be changed by another request in between.
+	secretLock sync.Mutex
 }
 
 // Refs is the container that is used to provide references to the RPC
-- 
2.43.0


From 4976dedcf7aa9fead20ea3aeee4ddef6e8a14f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 24/63] fix: the whole of a secret takes part in checking it

bcrypt disregards everything past 72 bytes and treats a secret and its
repetition after a NUL byte alike, so other secrets were accepted too.
---
 internal/crypto/bcrypt/bcrypt.go | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/internal/crypto/bcrypt/bcrypt.go b/internal/crypto/bcrypt/bcrypt.go
index 37ee50b..3b92742 100644
--- a/internal/crypto/bcrypt/bcrypt.go
+++ b/internal/crypto/bcrypt/bcrypt.go
@@ -1,6 +1,10 @@
 package bcrypt
 
 import (
+	"crypto/sha256"
+	"encoding/base64"
+	"strings"
+
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/pflag"
 	"github.com/spf13/viper"
@@ -10,6 +14,15 @@ import (
 	"github.com/netauth/netauth/internal/startup"
 )
 
+const (
+	// bcrypt disregards everything past this many bytes, and
+	// repeats what is shorter with a NUL in between.  Secrets for
+	// which this would make a difference are condensed first, and
+	// their hash marked with the prefix.
+	maxSecret    = 72
+	digestPrefix = "sha256:"
+)
+
 func init() {
 	startup.RegisterCallback(cb)
 	pflag.Int("crypto.bcrypt.cost", 15, "Cost for bcrypt")
@@ -37,21 +50,40 @@ func New(l hclog.Logger) (crypto.EMCrypto, error) {
 	return x, nil
 }
 
+// digest condenses a secret to a string that bcrypt takes into account
+// in full.
+func digest(secret string) string {
+	sum := sha256.Sum256([]byte(secret))
+	return base64.StdEncoding.EncodeToString(sum[:])
+}
+
 // SecureSecret takes in a secret and generates a bcrypt hash from it.
 // This is then returned for storage in the database.
 func (b *Engine) SecureSecret(secret string) (string, error) {
+	prefix := ""
+	if len(secret) >= maxSecret || strings.Contains(secret, "\x00") {
+		prefix = digestPrefix
+		secret = digest(secret)
+	}
 	hash, err := bcrypt.GenerateFromPassword([]byte(secret), b.cost)
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
 		return "", crypto.ErrInternalError
 	}
-	return string(hash[:]), nil
+	return prefix + string(hash[:]), nil
 }
 
 // VerifySecret verifies a given secret against a given hash and
 // returns either nil for a match or a crypto.ErrAuthorizationFailure
 // in the case that the secret did not match the stored one.
 func (b *Engine) VerifySecret(secret, hash string) error {
+	if strings.HasPrefix(hash, digestPrefix) {
+		hash = strings.TrimPrefix(hash, digestPrefix)
+		secret = digest(secret)
+	} else if strings.Contains(secret, "\x00") {
+		b.l.Debug("Secret cannot match a plain bcrypt hash")
+		return crypto.ErrAuthorizationFailure
+	}
 	err := bcrypt.CompareHashAndPassword([]byte(hash), []byte(secret))
 	if err != nil {
 		b.l.Debug("Bcrypt Error has occurred", "error", err)
-- 
2.43.0


From b391faa79a93cb92df94b426d9e604824f5919e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 25/63] fix: overlapping requests for a token do not race on
 the default lifetime

---
 internal/token/token.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/token/token.go b/internal/token/token.go
index c65beec..8c5b7c8 100644
--- a/internal/token/token.go
+++ b/internal/token/token.go
@@ -60,12 +60,14 @@ func Register(name string, impl Factory) {
 // GetConfig returns a struct containing the configuration for the
 // token service to use while issuing tokens.
 func GetConfig() Config {
-	if lifetime == time.Duration(0) {
-		lifetime = time.Minute * 5
+	// Requests overlap, so the default must not be written back.
+	l := lifetime
+	if l == time.Duration(0) {
+		l = time.Minute * 5
 	}
 
 	return Config{
-		Lifetime:  lifetime,
+		Lifetime:  l,
 		IssuedAt:  time.Now(),
 		NotBefore: time.Now(),
 	}
-- 
2.43.0


From 691f9ba0aea26e9a3cfdd2b738237fa4fe32c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:28 +0000
Subject: [PATCH 26/63] fix: generating signing keys never overwrites an
 existing key

---
 internal/token/jwt/rsa.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 193ef19..60499f9 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -303,13 +303,26 @@ func marshalPrivateKey(key *rsa.PrivateKey, path string) error {
 			Bytes: x509.MarshalPKCS1PrivateKey(key),
 		},
 	)
-	if err := ioutil.WriteFile(path, pridata, 0400); err != nil {
+	if err := writeKey(path, pridata, 0400); err != nil {
 		return token.ErrInternalError
 	}
 
 	return nil
 }
 
+// writeKey writes a key to a file that must not exist yet.
+func writeKey(path string, data []byte, perm os.FileMode) error {
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_EXCL, perm)
+	if err != nil {
+		return err
+	}
+	if _, err := f.Write(data); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
+}
+
 func marshalPublicKey(key *rsa.PublicKey, path string) error {
 	// This error is discarded as there is no case where a
 	// meaningful error can be returned from this function that
@@ -323,7 +336,7 @@ func marshalPublicKey(key *rsa.PublicKey, path string) error {
 			Bytes: pubASN1,
 		},
 	)
-	if err := ioutil.WriteFile(path, pubdata, 0644); err != nil {
+	if err := writeKey(path, pubdata, 0644); err != nil {
 		return token.ErrInternalError
 	}
 	return nil
-- 
2.43.0


From 77b0a1890dd0ac41da5ac118552a18557f0a9f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:33 +0000
Subject: [PATCH 27/63] fix: a private key that does not belong to the public
 key does not sign tokens

---
 internal/token/jwt/rsa.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 60499f9..015cc29 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -209,6 +209,13 @@ func (s *RSATokenService) GetKeys() error {
 		// needed if all you want to do is verify a signature.
 		s.privateKey = nil
 		s.log.Warn("Error unmarshaling private key", "file", s.privateKeyFile, "error", err)
+		return nil
+	}
+	if !s.privateKey.PublicKey.Equal(s.publicKey) {
+		// Tokens signed with this key could not be verified.
+		s.privateKey = nil
+		s.log.Warn("Private key does not belong to the public key", "file", s.privateKeyFile)
+		s.log.Warn("Signing will be unavailable")
 	}
 
 	// Keys loaded and ready to sign with
-- 
2.43.0


From 8f2d96ba2db8a12ebe4da5b4a52896ca21096b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 28/63] fix: copying a database onto itself is refused and copy
 errors are reported

---
 cmd/nsutil/db_copy.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cmd/nsutil/db_copy.go b/cmd/nsutil/db_copy.go
index ffb5ece..245eba3 100644
--- a/cmd/nsutil/db_copy.go
+++ b/cmd/nsutil/db_copy.go
@@ -43,6 +43,11 @@ func init() {
 func dbCopyCmdRun(c *cobra.Command, args []string) {
 	startup.DoCallbacks()
 
+	if args[0] == args[1] {
+		fmt.Fprintln(os.Stderr, "Source and target are the same.")
+		os.Exit(1)
+	}
+
 	source, err := db.NewKV(args[0], nil)
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error initializing source: %s\n", err)
@@ -52,6 +57,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	sourceKeys, err := source.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from source: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Source initialized, contains %d objects.\n", len(sourceKeys))
 
@@ -64,6 +70,7 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 	targetKeys, err := target.Keys("/*/*")
 	if err != nil {
 		fmt.Fprintf(os.Stderr, "Error retrieving keys from target: %s\n", err)
+		os.Exit(1)
 	}
 	fmt.Printf("Target initialized, contains %d objects.\n", len(targetKeys))
 
@@ -77,11 +84,14 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		os.Exit(0)
 	}
 
+	failed := false
+
 	// If we're truncating then go ahead and do that.
 	if dbCopyCmdTruncate {
 		for _, k := range targetKeys {
 			if err := target.Del(k); err != nil {
 				fmt.Fprintf(os.Stderr, "Error truncating target: %s\n", err)
+				failed = true
 			}
 		}
 	}
@@ -93,13 +103,22 @@ func dbCopyCmdRun(c *cobra.Command, args []string) {
 		v, err := source.Get(k)
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "Error copying object (%s): %s\n", k, err)
+			failed = true
 			continue
 		}
 		if err := target.Put(k, v); err != nil {
 			fmt.Fprintf(os.Stderr, "Error putting object (%s): %s\n", k, err)
+			failed = true
 			continue
 		}
 		count++
 	}
-	fmt.Println("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!", count)
+	if err := target.Close(); err != nil {
+		fmt.Fprintf(os.Stderr, "Error closing target: %s\n", err)
+		failed = true
+	}
+	fmt.Printf("Copy complete; %d objects were copied.  If this number does not match the number of source objects you have encountered copy errors and should review them above!\n", count)
+	if failed {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From f59f2daf755db75e716443f1d19d17bbd80fa49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:19 +0000
Subject: [PATCH 29/63] fix: generated keys can be loaded again whatever the
 umask

---
 internal/token/jwt/rsa.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 015cc29..2b6de7a 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -327,6 +327,11 @@ func writeKey(path string, data []byte, perm os.FileMode) error {
 		f.Close()
 		return err
 	}
+	// The process umask must not leave a mode that is later refused.
+	if err := f.Chmod(perm); err != nil {
+		f.Close()
+		return err
+	}
 	return f.Close()
 }
 
-- 
2.43.0


From 60f1304ab7f8e2e10eecb163a64bf760308d0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 30/63] fix: bitcask stores are not opened where their data
 could not be found again

---
 internal/db/bitcask/bitcask.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index bd7fa20..bfa8975 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,6 +3,7 @@
 package bitcask
 
 import (
+	"errors"
 	"os"
 	"path"
 	"path/filepath"
@@ -48,6 +49,14 @@ func New(l hclog.Logger) (db.KVStore, error) {
 
 	x := &BCStore{}
 	x.l = l.Named("bitcask")
+
+	// The path is used as a pattern when the data files are looked
+	// for, so with these characters in it existing data would not be
+	// found and the store would appear to be empty.
+	if strings.ContainsAny(p, `*?[\`) {
+		return nil, errors.New("bitcask cannot be used in a directory with any of * ? [ \\ in its path")
+	}
+
 	opts := []bitcask.Option{
 		bitcask.WithMaxKeySize(1024),
 		bitcask.WithMaxValueSize(1024 * 1000 * 5), // 5MiB
-- 
2.43.0


From 7434bb5eb1cda723df8a917fad00f3e8663c21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:26 +0000
Subject: [PATCH 31/63] fix: records that cannot be listed are an error, not an
 empty store

---
 internal/db/filesystem/filesystem.go | 38 ++++++++++++++++++----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index bc9a083..e94ad23 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -14,7 +14,6 @@ package filesystem
 
 import (
 	"errors"
-	iofs "io/fs"
 	"io/ioutil"
 	"os"
 	"path/filepath"
@@ -160,21 +159,32 @@ func (fs *Filesystem) Del(k string) error {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (fs *Filesystem) Keys(f string) ([]string, error) {
-	// Discard error because the hard coded pattern cannot return
-	// an os.PathError
-	keys, _ := iofs.Glob(os.DirFS(fs.basePath), "*/*")
-
-	out := make([]string, len(keys))
-	i := 0
-	for _, k := range keys {
-		k = "/" + k
-		if m, _ := filepath.Match(f, k); m {
-			out[i] = k
-			fs.l.Trace("Matched filter", "key", k)
-			i++
+	dirs, err := ioutil.ReadDir(fs.basePath)
+	if err != nil && !os.IsNotExist(err) {
+		return nil, err
+	}
+
+	out := []string{}
+	for _, d := range dirs {
+		p := filepath.Join(fs.basePath, d.Name())
+		if fi, err := os.Stat(p); err != nil || !fi.IsDir() {
+			continue
+		}
+		keys, err := ioutil.ReadDir(p)
+		if err != nil {
+			return nil, err
+		}
+		for _, key := range keys {
+			k := "/" + d.Name() + "/" + key.Name()
+			// Discard error because the hard coded patterns
+			// are all well formed.
+			if m, _ := filepath.Match(f, k); m {
+				out = append(out, k)
+				fs.l.Trace("Matched filter", "key", k)
+			}
 		}
 	}
-	return out[:i], nil
+	return out, nil
 }
 
 // Close is required by the interface, but all operations on the
-- 
2.43.0


From 30add5f4a7deab37dae94cf1cfe36c5113f7b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:44 +0000
Subject: [PATCH 32/63] fix: a bitcask store interrupted while opening, writing
 or closing can be opened again

---
 internal/db/bitcask/bitcask.go | 105 ++++++++++++++++++++++++++++++---
 1 file changed, 98 insertions(+), 7 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index bfa8975..b7d1412 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,14 +3,19 @@
 package bitcask
 
 import (
+	"encoding/binary"
+	"encoding/json"
 	"errors"
+	"io/ioutil"
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/prologic/bitcask"
+	"github.com/prologic/bitcask/flock"
 	"github.com/spf13/viper"
 
 	"github.com/netauth/netauth/internal/db"
@@ -43,6 +48,11 @@ const (
 	eventDelete
 )
 
+const (
+	maxKeySize   = 1024
+	maxValueSize = 1024 * 1000 * 5 // 5MiB
+)
+
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
 	p := filepath.Join(viper.GetString("core.home"), "bc")
@@ -58,15 +68,11 @@ func New(l hclog.Logger) (db.KVStore, error) {
 	}
 
 	opts := []bitcask.Option{
-		bitcask.WithMaxKeySize(1024),
-		bitcask.WithMaxValueSize(1024 * 1000 * 5), // 5MiB
+		bitcask.WithMaxKeySize(maxKeySize),
+		bitcask.WithMaxValueSize(maxValueSize),
 		bitcask.WithSync(true),
 	}
-	// The index is only a cache which is written on a clean close,
-	// but which is then trusted even if the store was written to
-	// again and not closed.  Without it, the contents are always
-	// recovered from the data itself.
-	if err := os.Remove(filepath.Join(p, "index")); err != nil && !os.IsNotExist(err) {
+	if err := x.recover(p); err != nil {
 		return nil, err
 	}
 	b, err := bitcask.Open(p, opts...)
@@ -77,6 +83,91 @@ func New(l hclog.Logger) (db.KVStore, error) {
 	return x, nil
 }
 
+// recover prepares an existing store to be opened, which may have
+// been interrupted at any point when it was last used.
+func (bcs *BCStore) recover(p string) error {
+	if _, err := os.Stat(p); os.IsNotExist(err) {
+		return nil
+	}
+	lock := flock.New(filepath.Join(p, "lock"))
+	if _, err := lock.TryLock(); err != nil {
+		return err
+	}
+	defer lock.Unlock()
+
+	// The index is only a cache which is written on a clean close,
+	// but which is then trusted even if the store was written to
+	// again and not closed.  Without it, the contents are always
+	// recovered from the data itself.
+	if err := os.Remove(filepath.Join(p, "index")); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+
+	// These are rewritten in place when the store is opened and when
+	// it is closed.  Neither holds anything that isn't set when
+	// opening or recovered from the data.
+	for _, f := range []string{"config.json", "meta.json"} {
+		f = filepath.Join(p, f)
+		b, err := ioutil.ReadFile(f)
+		if err != nil || json.Valid(b) {
+			continue
+		}
+		bcs.l.Warn("Removing partially written file", "file", f)
+		if err := os.Remove(f); err != nil {
+			return err
+		}
+	}
+
+	// Only the last data file is ever written to.
+	files, err := filepath.Glob(filepath.Join(p, "*.data"))
+	if err != nil || len(files) == 0 {
+		return err
+	}
+	sort.Strings(files)
+	return bcs.dropPartialRecord(files[len(files)-1])
+}
+
+// dropPartialRecord removes the last record of a data file if it was
+// not completely written, and was thus never acknowledged.
+func (bcs *BCStore) dropPartialRecord(file string) error {
+	f, err := os.OpenFile(file, os.O_RDWR, 0)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	fi, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	// A record is the size of the key, the size of the value, the
+	// key, the value, and a checksum.
+	var off int64
+	head := make([]byte, 4+8)
+	for off < fi.Size() {
+		end := off + int64(len(head))
+		if end <= fi.Size() {
+			if _, err := f.ReadAt(head, off); err != nil {
+				return err
+			}
+			ks := binary.BigEndian.Uint32(head)
+			vs := binary.BigEndian.Uint64(head[4:])
+			if ks == 0 || ks > maxKeySize || vs > maxValueSize {
+				// Not a partial write, and not something
+				// that can be recovered from.
+				return nil
+			}
+			end += int64(ks) + int64(vs) + 4
+		}
+		if end > fi.Size() {
+			bcs.l.Warn("Removing partially written record", "file", file)
+			return f.Truncate(off)
+		}
+		off = end
+	}
+	return nil
+}
+
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-- 
2.43.0


From 1ca446dd5c52d96eee1980edea3e19fc7dcaee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:25 +0000
Subject: [PATCH 33/63] fix: membership answers never mix groups resolved
 before and after a change

---
 internal/mresolver/memberships.go | 67 ++++++++++---------------------
 internal/mresolver/type.go        |  4 --
 2 files changed, 21 insertions(+), 50 deletions(-)

diff --git a/internal/mresolver/memberships.go b/internal/mresolver/memberships.go
index 889871e..cab11a0 100644
--- a/internal/mresolver/memberships.go
+++ b/internal/mresolver/memberships.go
@@ -30,8 +30,10 @@ func (mr *MResolver) RemoveEntity(entity string) {
 // information in the system, and may trigger a cascading membership
 // recalculation.
 func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
-	mr.sMutex.Lock()
-	defer mr.sMutex.Unlock()
+	// Queries must not see some of the affected groups resolved anew
+	// and others not, so they wait until all of them are.
+	mr.gMutex.Lock()
+	defer mr.gMutex.Unlock()
 
 	g := resolvableGroup{
 		self:    group,
@@ -39,14 +41,12 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		exclude: exclude,
 	}
 
-	mr.gMutex.Lock()
 	mr.atom.gc[group] = &g
-	mr.gMutex.Unlock()
 
 	// Need to resolve the group here, and re-resolve any
 	// dependant groups that this one would have affected.
 	mr.l.Trace("Syncing group", "group", group)
-	mr.Resolve(group)
+	mr.resolve(group)
 
 	// Log all groups that affect this one to the group affectors
 	// set.  This is a map to all groups that if changed need to
@@ -57,7 +57,6 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 		}
 		mr.atom.ga[affectee][affector] = struct{}{}
 	}
-	mr.gMutex.Lock()
 	// Rules that are no longer on the group must not be followed any
 	// more; a group may legitimately end up depending on one that
 	// used to depend on it.
@@ -70,7 +69,6 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 	for _, g := range exclude {
 		addAffector(g, group)
 	}
-	mr.gMutex.Unlock()
 
 	// Propagate changes to all groups affected by this group
 	mr.resolveChanges(group)
@@ -78,20 +76,14 @@ func (mr *MResolver) SyncGroup(group string, include, exclude []string) {
 
 // Recursively propagate resolutions all the way down.
 func (mr *MResolver) resolveChanges(group string) {
-	mr.Resolve(group)
+	mr.resolve(group)
 	mr.resolveCascade(group)
 }
 
 // resolveCascade propagates to all groups that depend on the given
 // one.
 func (mr *MResolver) resolveCascade(group string) {
-	mr.gMutex.RLock()
-	cascade := make([]string, 0, len(mr.atom.ga[group]))
 	for g := range mr.atom.ga[group] {
-		cascade = append(cascade, g)
-	}
-	mr.gMutex.RUnlock()
-	for _, g := range cascade {
 		mr.resolveChanges(g)
 	}
 }
@@ -101,10 +93,9 @@ func (mr *MResolver) resolveCascade(group string) {
 // memberships as this is assumed to have been done prior to deleting
 // the group.
 func (mr *MResolver) RemoveGroup(group string) {
-	mr.sMutex.Lock()
-	defer mr.sMutex.Unlock()
-
 	mr.gMutex.Lock()
+	defer mr.gMutex.Unlock()
+
 	delete(mr.atom.gc, group)
 	delete(mr.atom.gr, group)
 	delete(mr.atom.gt, group)
@@ -114,7 +105,6 @@ func (mr *MResolver) RemoveGroup(group string) {
 	for _, ga := range mr.atom.ga {
 		delete(ga, group)
 	}
-	mr.gMutex.Unlock()
 
 	// Groups that still have a rule for the one that was removed
 	// keep depending on it, should it be created again, but no
@@ -127,9 +117,14 @@ func (mr *MResolver) RemoveGroup(group string) {
 // This expression can later be used to determine if an entity
 // contains a group, or if a group contains a given set of entities.
 func (mr *MResolver) Resolve(group string) error {
-	mr.gMutex.RLock()
+	mr.gMutex.Lock()
+	defer mr.gMutex.Unlock()
+	return mr.resolve(group)
+}
+
+// resolve does the work of Resolve, the caller must hold the lock.
+func (mr *MResolver) resolve(group string) error {
 	g, ok := mr.atom.gc[group]
-	mr.gMutex.RUnlock()
 	if !ok {
 		mr.l.Error("Insufficient knowledge to resolve group", "group", group)
 		return ErrInsufficientKnowledge
@@ -146,9 +141,7 @@ func (mr *MResolver) Resolve(group string) error {
 	// the higher level and swapping between a logical operator
 	// between loop iterations.
 	for _, gn := range g.include {
-		mr.gMutex.RLock()
 		_, known := mr.atom.gc[gn]
-		mr.gMutex.RUnlock()
 		if !known {
 			// A group that doesn't exist has no members.
 			missing = true
@@ -156,35 +149,25 @@ func (mr *MResolver) Resolve(group string) error {
 		}
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryOr})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
-		mr.gMutex.RLock()
 		// Check if an existing resolution is known for this
 		// group name.  If not, resolve that group and then
 		// fetch the expansion back out.
 		r, ok := mr.atom.gt[gn]
-		mr.gMutex.RUnlock()
 		if !ok {
 			mr.l.Trace("Resolution not cached; recursing", "group", gn)
-			// We have to unlock the mutex to allow the
-			// lower invocation to re-aquire.  This can in
-			// potentially deadlock if another thread is
-			// reading and trying to resolve.
-			if err := mr.Resolve(gn); err != nil {
+			if err := mr.resolve(gn); err != nil {
 				missing = true
 			}
-			mr.gMutex.RLock()
 			// At this point this is populated from the
 			// above call and can be retreived
 			r = mr.atom.gt[gn]
-			mr.gMutex.RUnlock()
 		}
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
 	res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	for _, gn := range g.exclude {
-		mr.gMutex.RLock()
 		_, known := mr.atom.gc[gn]
-		mr.gMutex.RUnlock()
 		if !known {
 			// A group that doesn't exist has no members.
 			missing = true
@@ -193,36 +176,26 @@ func (mr *MResolver) Resolve(group string) error {
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolBinaryAnd})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolUnaryNot})
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolLParen})
-		mr.gMutex.RLock()
 		// Check if an existing resolution is known for this
 		// group name.  If not, resolve that group and then
 		// fetch the expansion back out.
 		r, ok := mr.atom.gt[gn]
-		mr.gMutex.RUnlock()
 		if !ok {
 			mr.l.Trace("Resolution not cached; recursing", "group", gn)
-			// We have to unlock the mutex to allow the
-			// lower invocation to re-aquire.  This can in
-			// potentially deadlock if another thread is
-			// reading and trying to resolve.
-			if err := mr.Resolve(gn); err != nil {
+			if err := mr.resolve(gn); err != nil {
 				missing = true
 			}
-			mr.gMutex.RLock()
 			// At this point this is populated from the
 			// above call and can be retreived
 			r = mr.atom.gt[gn]
-			mr.gMutex.RUnlock()
 		}
 		res = append(res, r...)
 		res = append(res, bsfilter.Symbol{T: bsfilter.SymbolRParen})
 	}
 	expr := bsfilter.NewFromTokens(res)
-	mr.gMutex.Lock()
 	mr.atom.gt[group] = res
 	mr.atom.gr[group] = expr
 	mr.atom.gs.Add(group, expr)
-	mr.gMutex.Unlock()
 	mr.l.Debug("Group Resolved", "group", group, "expression", expr)
 	if missing {
 		mr.l.Warn("Group has rules for unknown groups", "group", group)
@@ -235,8 +208,8 @@ func (mr *MResolver) Resolve(group string) error {
 // the specified group.
 func (mr *MResolver) MembersOfGroup(group string) []string {
 	mr.gMutex.RLock()
+	defer mr.gMutex.RUnlock()
 	exp, ok := mr.atom.gr[group]
-	mr.gMutex.RUnlock()
 	if !ok {
 		return []string{}
 	}
@@ -248,9 +221,11 @@ func (mr *MResolver) MembersOfGroup(group string) []string {
 // GroupsForEntity returns a string slice of groups that include a
 // given entity.
 func (mr *MResolver) GroupsForEntity(entity string) []string {
+	mr.gMutex.RLock()
+	defer mr.gMutex.RUnlock()
 	mr.uMutex.RLock()
+	defer mr.uMutex.RUnlock()
 	vset, ok := mr.atom.dm[entity]
-	mr.uMutex.RUnlock()
 	if !ok {
 		return []string{}
 	}
diff --git a/internal/mresolver/type.go b/internal/mresolver/type.go
index 33814c4..2f56c6e 100644
--- a/internal/mresolver/type.go
+++ b/internal/mresolver/type.go
@@ -14,10 +14,6 @@ import (
 type MResolver struct {
 	l hclog.Logger
 
-	// Changes to the groups are applied one at a time, as each may
-	// re-resolve any number of other groups.
-	sMutex sync.Mutex
-
 	uMutex sync.RWMutex
 	gMutex sync.RWMutex
 
-- 
2.43.0


From 0fb6db451e13986625a4121646782eb6a51ca92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:19 +0000
Subject: [PATCH 34/63] fix: an entity is not replaced by another of its name
 while it authenticates

---
 internal/rpc2/auth.go   | 5 +++++
 internal/rpc2/entity.go | 3 +++
 internal/rpc2/type.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index 5253b9f..9044b5c 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -31,6 +31,9 @@ func (s *Server) AuthEntity(ctx context.Context, r *pb.AuthRequest) (*pb.Empty,
 // AuthGetToken performs entity authentication and issues a token if
 // this authentication is successful.
 func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthResult, error) {
+	s.destroyLock.RLock()
+	defer s.destroyLock.RUnlock()
+
 	// Check Authentication using the same flow as above.
 	_, err := s.AuthEntity(ctx, r)
 	if err != nil {
@@ -114,6 +117,8 @@ func (s *Server) AuthChangeSecret(ctx context.Context, r *pb.AuthRequest) (*pb.E
 
 	s.secretLock.Lock()
 	defer s.secretLock.Unlock()
+	s.destroyLock.RLock()
+	defer s.destroyLock.RUnlock()
 
 	// Changing for self, must have the original secret
 	if getTokenClaims(ctx).EntityID == e.GetID() {
diff --git a/internal/rpc2/entity.go b/internal/rpc2/entity.go
index eaf8a8b..ccf2d40 100644
--- a/internal/rpc2/entity.go
+++ b/internal/rpc2/entity.go
@@ -452,6 +452,9 @@ func (s *Server) EntityDestroy(ctx context.Context, r *pb.EntityRequest) (*pb.Em
 		return &pb.Empty{}, err
 	}
 
+	s.destroyLock.Lock()
+	defer s.destroyLock.Unlock()
+
 	e := r.GetEntity()
 	switch err := s.DestroyEntity(e.GetID()); err {
 	case db.ErrUnknownEntity:
diff --git a/internal/rpc2/type.go b/internal/rpc2/type.go
index 166bd8e..6484883 100644
--- a/internal/rpc2/type.go
+++ b/internal/rpc2/type.go
@@ -24,6 +24,10 @@ type Server struct {
 	// Changing a secret first checks the old one, which must then
 	// not be changed by another request in between.
 	secretLock sync.Mutex
+
+	// An entity that has proven its identity must not be replaced by
+	// another of the same name before the request is done.
+	destroyLock sync.RWMutex
 }
 
 // Refs is the container that is used to provide references to the RPC
-- 
2.43.0


From 4121e298f13f4d701ca2e3c19005f29c5daf84e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:30 +0000
Subject: [PATCH 35/63] fix: overlapping deletions of a record report it as
 missing

---
 internal/db/filesystem/filesystem.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/db/filesystem/filesystem.go b/internal/db/filesystem/filesystem.go
index e94ad23..5b86f8b 100644
--- a/internal/db/filesystem/filesystem.go
+++ b/internal/db/filesystem/filesystem.go
@@ -143,7 +143,12 @@ func (fs *Filesystem) Del(k string) error {
 		return db.ErrNoValue
 	}
 
-	if err := os.Remove(p); err != nil {
+	err = os.Remove(p)
+	if os.IsNotExist(err) {
+		// Removed by somebody else since.
+		return db.ErrNoValue
+	}
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From 3a0c658a80560fa85036999bce3764db43950264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:30 +0000
Subject: [PATCH 36/63] fix: deleting records from a bitcask store does not
 crash on related names

---
 internal/db/bitcask/bitcask.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index b7d1412..386ee4e 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -3,6 +3,7 @@
 package bitcask
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/json"
 	"errors"
@@ -53,6 +54,12 @@ const (
 	maxValueSize = 1024 * 1000 * 5 // 5MiB
 )
 
+// deleted is stored in place of a value that has been removed.  The
+// keys themselves are not removed from the bitcask because its index
+// doesn't support this: removing keys where some are the beginning of
+// others panics, both then and when the store is next opened.
+var deleted = []byte("\x00deleted")
+
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
 	p := filepath.Join(viper.GetString("core.home"), "bc")
@@ -184,6 +191,9 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 	v, err := bcs.s.Get([]byte(k))
 	switch err {
 	case nil:
+		if bytes.Equal(v, deleted) {
+			return nil, db.ErrNoValue
+		}
 		return v, nil
 	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
@@ -195,10 +205,10 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 // Del removes any existing value at the location specified by the
 // provided key.
 func (bcs *BCStore) Del(k string) error {
-	if !bcs.s.Has([]byte(k)) {
-		return db.ErrNoValue
+	if _, err := bcs.Get(k); err == db.ErrNoValue {
+		return err
 	}
-	if err := bcs.s.Delete([]byte(k)); err != nil {
+	if err := bcs.s.Put([]byte(k), deleted); err != nil {
 		return err
 	}
 	bcs.fireEventForKey(k, eventDelete)
@@ -213,10 +223,16 @@ func (bcs *BCStore) Del(k string) error {
 // includes a path seperator, but this should be filtered out at a
 // higher level.
 func (bcs *BCStore) Keys(f string) ([]string, error) {
-	out := []string{}
+	match := []string{}
 	for bk := range bcs.s.Keys() {
 		k := string(bk)
 		if m, _ := path.Match(f, k); m {
+			match = append(match, k)
+		}
+	}
+	out := []string{}
+	for _, k := range match {
+		if _, err := bcs.Get(k); err != db.ErrNoValue {
 			out = append(out, k)
 		}
 	}
-- 
2.43.0


From 3d963e54540ceadba9f29fdc392e69ff613ec2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:47 +0000
Subject: [PATCH 37/63] fix: no token is issued when the capabilities for it
 cannot be determined

---
 internal/rpc2/auth.go | 11 ++++++++++-
 internal/rpc2/util.go | 40 ++++++++++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/internal/rpc2/auth.go b/internal/rpc2/auth.go
index 9044b5c..bab2927 100644
--- a/internal/rpc2/auth.go
+++ b/internal/rpc2/auth.go
@@ -40,7 +40,16 @@ func (s *Server) AuthGetToken(ctx context.Context, r *pb.AuthRequest) (*pb.AuthR
 		return &pb.AuthResult{}, err
 	}
 
-	caps := s.getCapabilitiesForEntity(r.GetEntity().GetID())
+	caps, err := s.loadCapabilities(r.GetEntity().GetID())
+	if err != nil {
+		s.log.Warn("Error Loading Capabilities",
+			"entity", r.GetEntity().GetID(),
+			"service", getServiceName(ctx),
+			"client", getClientName(ctx),
+			"error", err,
+		)
+		return &pb.AuthResult{}, ErrInternal
+	}
 
 	// Generate Token
 	tkn, err := s.Generate(
diff --git a/internal/rpc2/util.go b/internal/rpc2/util.go
index 95df3f1..7ea31b6 100644
--- a/internal/rpc2/util.go
+++ b/internal/rpc2/util.go
@@ -6,6 +6,7 @@ import (
 	"google.golang.org/grpc"
 	"google.golang.org/grpc/metadata"
 
+	"github.com/netauth/netauth/internal/db"
 	"github.com/netauth/netauth/internal/token"
 
 	types "github.com/netauth/protocol"
@@ -13,15 +14,23 @@ import (
 
 type claimsContextKey struct{}
 
+// getCapabilitiesForEntity returns the capabilities an entity holds,
+// or none if these cannot be determined.
 func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
-	// Get the full fledged entity; we can assert no error here
-	// since the entity was just loaded to perform an
-	// authentication check prior to calling this function.
-	// There's a minimal risk that the entity has vanished, but if
-	// that's the case then this will return empty since the
-	// FetchEntity function will return an empty entity, thus no
-	// authorization attack can be performed via this vector.
-	e, _ := s.FetchEntity(id)
+	caps, err := s.loadCapabilities(id)
+	if err != nil {
+		return nil
+	}
+	return caps
+}
+
+// loadCapabilities determines the capabilities an entity holds, both
+// directly and by way of its groups.
+func (s *Server) loadCapabilities(id string) ([]types.Capability, error) {
+	e, err := s.FetchEntity(id)
+	if err != nil {
+		return nil, err
+	}
 
 	// First get the capabilities that are provided by the entity
 	// itself.
@@ -34,13 +43,16 @@ func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
 
 	// Next get the capabilities that are provided by any groups
 	// the entity may be in; include indirects for authentication
-	// queries.  We can assert no error here because the worst
-	// case is a group is returned that is completely empty.  In
-	// this case there will simply be no additional capabilities
-	// granted, and this function can continue without incident.
+	// queries.  A group that has vanished provides none.
 	groupNames := s.GetMemberships(e)
 	for _, name := range groupNames {
-		g, _ := s.FetchGroup(name)
+		g, err := s.FetchGroup(name)
+		if err == db.ErrUnknownGroup {
+			continue
+		}
+		if err != nil {
+			return nil, err
+		}
 		for _, c := range g.GetCapabilities() {
 			caps[c]++
 		}
@@ -53,7 +65,7 @@ func (s *Server) getCapabilitiesForEntity(id string) []types.Capability {
 		capabilities[i] = c
 		i++
 	}
-	return capabilities
+	return capabilities, nil
 }
 
 // checkToken is used to validate authorization from the context.
-- 
2.43.0


From 04e149cc95a48c3f3729bf55af4372ef59350b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:50 +0000
Subject: [PATCH 38/63] fix: a rule change with an undefined action is refused
 instead of removing the rule

---
 internal/rpc2/group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rpc2/group.go b/internal/rpc2/group.go
index a41ad1d..db32db2 100644
--- a/internal/rpc2/group.go
+++ b/internal/rpc2/group.go
@@ -330,6 +330,10 @@ func (s *Server) GroupKVReplace(ctx context.Context, r *pb.KV2Request) (*pb.Empt
 func (s *Server) GroupUpdateRules(ctx context.Context, r *pb.GroupRulesRequest) (*pb.Empty, error) {
 	g := r.GetGroup()
 
+	if _, ok := pb.RuleAction_name[int32(r.GetRuleAction())]; !ok {
+		return &pb.Empty{}, ErrMalformedRequest
+	}
+
 	err := s.mutablePrequisitesMet(ctx, types.Capability_MODIFY_GROUP_META)
 	if err != nil && !s.delegated(ctx, g) {
 		return &pb.Empty{}, err
-- 
2.43.0


From 8b9101bfbc539ac28881356f5e6ff0aee969eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:50 +0000
Subject: [PATCH 39/63] fix: capabilities that are not defined are not granted

---
 internal/tree/entity.go | 3 +++
 internal/tree/group.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/tree/entity.go b/internal/tree/entity.go
index 5810139..cd20696 100644
--- a/internal/tree/entity.go
+++ b/internal/tree/entity.go
@@ -94,6 +94,9 @@ func (m *Manager) SetEntityCapability2(ID string, c *pb.Capability) error {
 	if c == nil {
 		return ErrUnknownCapability
 	}
+	if _, ok := pb.Capability_name[int32(*c)]; !ok {
+		return ErrUnknownCapability
+	}
 
 	de := &pb.Entity{
 		ID: &ID,
diff --git a/internal/tree/group.go b/internal/tree/group.go
index 589d4a4..94c07ce 100644
--- a/internal/tree/group.go
+++ b/internal/tree/group.go
@@ -178,6 +178,9 @@ func (m *Manager) SetGroupCapability2(name string, c *pb.Capability) error {
 	if c == nil {
 		return ErrUnknownCapability
 	}
+	if _, ok := pb.Capability_name[int32(*c)]; !ok {
+		return ErrUnknownCapability
+	}
 
 	rg := &pb.Group{
 		Name:         &name,
-- 
2.43.0


From 74f0bc6b37ec6e00abd8a7e4a31d277a6399d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 40/63] fix: the client returns the values of an indexed key

---
 pkg/netauth/entity.go | 6 ++++--
 pkg/netauth/group.go  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 1878d7d..0e20ea6 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -117,8 +117,10 @@ func (c *Client) EntityUM(ctx context.Context, target, action, key, value string
 		kv := parseKV(res.GetStrings())
 		if key != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			// return a much sparser map.  The server
+			// disregards the index of the key it was
+			// asked for, and parseKV removes it.
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 153a978..d0a2e1f 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -111,8 +111,10 @@ func (c *Client) GroupUM(ctx context.Context, target, action, key, value string)
 		kv := parseKV(res.GetStrings())
 		if key != "*" {
 			// Asked for a specific key, fish it out and
-			// return a much sparser map.
-			return map[string][]string{key: kv[key]}, nil
+			// return a much sparser map.  The server
+			// disregards the index of the key it was
+			// asked for, and parseKV removes it.
+			return map[string][]string{key: kv[kvIndexRegexp.ReplaceAllString(key, "")]}, nil
 		}
 		// Key was *, return everything
 		return kv, nil
-- 
2.43.0


From a802f4ce204f7f6f5cb1aa56680b516490c6016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:38 +0000
Subject: [PATCH 41/63] fix: the client returns keys whatever the case of the
 type asked for

---
 pkg/netauth/entity.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 0e20ea6..5abe791 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -267,7 +267,7 @@ func (c *Client) EntityKeys(ctx context.Context, id, action, ktype, key string)
 		if ktype != "*" {
 			// Asked for a specific key, fish it out and
 			// return a much sparser map.
-			return map[string][]string{ktype: kv[ktype]}, nil
+			return map[string][]string{ktype: kv[strings.ToUpper(ktype)]}, nil
 		}
 		return kv, nil
 	}
-- 
2.43.0


From f3786cbd053a27e43b4dd8ee6a645d0d67a5c47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:40 +0000
Subject: [PATCH 42/63] fix: the client keeps the order of values of equal
 index

---
 pkg/netauth/entity.go | 2 +-
 pkg/netauth/group.go  | 2 +-
 pkg/netauth/util.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 5abe791..117776c 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -147,7 +147,7 @@ func (c *Client) EntityKVGet(ctx context.Context, id, key string) (map[string][]
 
 	out := make(map[string][]string, len(res.GetKVData()))
 	for _, kvd := range res.GetKVData() {
-		sort.Slice(kvd.Values, func(i, j int) bool {
+		sort.SliceStable(kvd.Values, func(i, j int) bool {
 			return kvd.Values[i].GetIndex() < kvd.Values[j].GetIndex()
 		})
 		for _, v := range kvd.GetValues() {
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index d0a2e1f..cc0150e 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -141,7 +141,7 @@ func (c *Client) GroupKVGet(ctx context.Context, id, key string) (map[string][]s
 
 	out := make(map[string][]string, len(res.GetKVData()))
 	for _, kvd := range res.GetKVData() {
-		sort.Slice(kvd.Values, func(i, j int) bool {
+		sort.SliceStable(kvd.Values, func(i, j int) bool {
 			return kvd.Values[i].GetIndex() < kvd.Values[j].GetIndex()
 		})
 		for _, v := range kvd.GetValues() {
diff --git a/pkg/netauth/util.go b/pkg/netauth/util.go
index 9dfaf07..8fa05a8 100644
--- a/pkg/netauth/util.go
+++ b/pkg/netauth/util.go
@@ -48,7 +48,7 @@ func parseKV(in []string) map[string][]string {
 
 	// Sort the values in each key based on the index value.
 	for keyset := range typedKV {
-		sort.Slice(typedKV[keyset], func(i, j int) bool {
+		sort.SliceStable(typedKV[keyset], func(i, j int) bool {
 			return typedKV[keyset][i].index < typedKV[keyset][j].index
 		})
 	}
-- 
2.43.0


From 9d9899804fc7c82de39648739235ff8a5a393a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 43/63] fix: the client accepts the actions and capabilities in
 any case

---
 pkg/netauth/system.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/system.go b/pkg/netauth/system.go
index 0ea91f8..393bb42 100644
--- a/pkg/netauth/system.go
+++ b/pkg/netauth/system.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 
 	pb "github.com/netauth/protocol"
 	rpc "github.com/netauth/protocol/v2"
@@ -21,12 +22,12 @@ func (c *Client) SystemCapabilities(ctx context.Context, target, action, capabil
 	}
 
 	ctx = c.appendMetadata(ctx)
-	cap, ok := pb.Capability_value[capability]
+	cap, ok := pb.Capability_value[strings.ToUpper(capability)]
 	if !ok {
 		return fmt.Errorf("%s is not a recognized capability", capability)
 	}
 
-	a, ok := rpc.Action_value[action]
+	a, ok := rpc.Action_value[strings.ToUpper(action)]
 	if !ok {
 		return errors.New("action must be one of ADD, DROP")
 	}
-- 
2.43.0


From 90c9727dba84f2c285f0629bdd2a202f3d2db5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:44 +0000
Subject: [PATCH 44/63] fix: the client refuses numbers that the wire format
 cannot carry

---
 pkg/netauth/entity.go |  3 +++
 pkg/netauth/group.go  |  3 +++
 pkg/netauth/util.go   | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index 117776c..d18b954 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -17,6 +17,9 @@ import (
 // Passing a -1 for the number will select the next valid number and
 // assign it to this entity.
 func (c *Client) EntityCreate(ctx context.Context, id, secret string, number int) error {
+	if err := checkNumber(number); err != nil {
+		return err
+	}
 	if err := c.makeWritable(); err != nil {
 		return err
 	}
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index cc0150e..dee67e4 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -19,6 +19,9 @@ import (
 // another group from the start, pass the name of another group here
 // as the managed-by value in order to enable delegated management.
 func (c *Client) GroupCreate(ctx context.Context, name, displayName, managedBy string, number int) error {
+	if err := checkNumber(number); err != nil {
+		return err
+	}
 	if err := c.makeWritable(); err != nil {
 		return err
 	}
diff --git a/pkg/netauth/util.go b/pkg/netauth/util.go
index 8fa05a8..2174a8a 100644
--- a/pkg/netauth/util.go
+++ b/pkg/netauth/util.go
@@ -2,6 +2,7 @@ package netauth
 
 import (
 	"context"
+	"fmt"
 	"regexp"
 	"sort"
 	"strconv"
@@ -63,6 +64,15 @@ func parseKV(in []string) map[string][]string {
 	return out
 }
 
+// checkNumber makes sure that a number survives the conversion to the
+// type that is used on the wire.
+func checkNumber(n int) error {
+	if int(int32(n)) != n {
+		return fmt.Errorf("number %d is out of range", n)
+	}
+	return nil
+}
+
 func (c *Client) appendMetadata(ctx context.Context) context.Context {
 	return metadata.AppendToOutgoingContext(ctx,
 		"client-name", c.clientName,
-- 
2.43.0


From d0a93c778ad208f89885a73f222a7d415caedc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:45 +0000
Subject: [PATCH 45/63] fix: the client lists exactly the groups that a group
 manages

---
 pkg/netauth/group.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index dee67e4..14c0207 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -70,13 +70,24 @@ func (c *Client) GroupInfo(ctx context.Context, name string) (*pb.Group, []*pb.G
 		return nil, nil, err
 	}
 
-	res2, err := c.GroupSearch(ctx, fmt.Sprintf("ManagedBy:%s", name))
+	// The name is quoted since it may contain characters that mean
+	// something in a search expression, and the result is filtered
+	// since the search also finds names that are merely similar.
+	quoted := strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(name)
+	res2, err := c.GroupSearch(ctx, fmt.Sprintf(`ManagedBy:"%s"`, quoted))
 	if err != nil {
 		c.log.Warn("Error searching", "error", err)
 		return res.GetGroups()[0], nil, nil
 	}
 
-	return res.GetGroups()[0], res2, nil
+	var managed []*pb.Group
+	for _, g := range res2 {
+		if g.GetManagedBy() == name {
+			managed = append(managed, g)
+		}
+	}
+
+	return res.GetGroups()[0], managed, nil
 }
 
 // GroupUM handles operations concerning the untyped key-value store
-- 
2.43.0


From d754a316270502bc48022adf4cc66d76140920e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 46/63] fix: cached tokens of different owners are kept apart

---
 pkg/netauth/cache/fs/fs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index 449362a..df117a5 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -10,6 +10,7 @@ package fs
 import (
 	"fmt"
 	"io/ioutil"
+	"net/url"
 	"os"
 	"path/filepath"
 
@@ -68,10 +69,12 @@ func (fc *fsCache) DelToken(owner string) error {
 }
 
 // filepathFromOwner is a convenience function which encapsulates the
-// path selection logic for where tokens are stored.
+// path selection logic for where tokens are stored.  The owner is
+// escaped so that no two owners share a file and none is stored outside
+// of the basepath.
 func (fc *fsCache) filepathFromOwner(owner string) string {
 	return filepath.Join(
 		fc.basepath,
-		fmt.Sprintf("%s.%s", owner, extension),
+		fmt.Sprintf("%s.%s", url.PathEscape(owner), extension),
 	)
 }
-- 
2.43.0


From 4ee2a363b11c66a3df04858beab150286546ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:21 +0000
Subject: [PATCH 47/63] fix: the tool reports a refused command line in its
 exit status

---
 internal/ctl/root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctl/root.go b/internal/ctl/root.go
index 2fdbafd..c61b6bc 100644
--- a/internal/ctl/root.go
+++ b/internal/ctl/root.go
@@ -78,6 +78,7 @@ func onInit() {
 func Execute() {
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
 
-- 
2.43.0


From 87c9673a16fc2842c42a2b038fd7689195c6220f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:21 +0000
Subject: [PATCH 48/63] fix: clients without token keys no longer panic when
 validating

---
 pkg/netauth/netauth.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/netauth/netauth.go b/pkg/netauth/netauth.go
index fa23b96..5c26bc1 100644
--- a/pkg/netauth/netauth.go
+++ b/pkg/netauth/netauth.go
@@ -64,6 +64,7 @@ func NewWithLog(l hclog.Logger) (*Client, error) {
 	ts, err := token.New(viper.GetString("token.backend"))
 	if err != nil {
 		l.Warn("Token service initialization error", "error", err)
+		ts = noTokenService{err}
 	}
 
 	hn, err := os.Hostname()
@@ -82,6 +83,21 @@ func NewWithLog(l hclog.Logger) (*Client, error) {
 	}, nil
 }
 
+// noTokenService stands in for a token service that could not be set
+// up, which is the case on clients without the keys.  It reports the
+// reason to callers.
+type noTokenService struct {
+	err error
+}
+
+func (n noTokenService) Generate(token.Claims, token.Config) (string, error) {
+	return "", n.err
+}
+
+func (n noTokenService) Validate(string) (token.Claims, error) {
+	return token.Claims{}, n.err
+}
+
 // New returns a client initialized, connected, and ready to use.
 func New() (*Client, error) {
 	return NewWithLog(hclog.L().Named("cli"))
-- 
2.43.0


From 317f2d9afd0382c69f840bf15c5542147534e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 49/63] fix: the secret of the requestor is not taken for a new
 secret

---
 internal/ctl/auth-changesecret.go | 6 +++---
 internal/ctl/entity-create.go     | 4 ++--
 internal/ctl/helpers.go           | 9 ++++++++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/internal/ctl/auth-changesecret.go b/internal/ctl/auth-changesecret.go
index 0640b44..c23d683 100644
--- a/internal/ctl/auth-changesecret.go
+++ b/internal/ctl/auth-changesecret.go
@@ -59,9 +59,9 @@ func authChangeSecretRun(cmd *cobra.Command, args []string) {
 	}
 
 	// Get the secret if it wasn't specified on the line
-	if csSecret == "" {
-		one := getSecret("New Secret: ")
-		two := getSecret("Verify Secret: ")
+	if !cmd.Flags().Changed("csSecret") {
+		one := promptSecret("New Secret: ")
+		two := promptSecret("Verify Secret: ")
 
 		if one != two {
 			fmt.Println("Secrets do not match!")
diff --git a/internal/ctl/entity-create.go b/internal/ctl/entity-create.go
index 516f249..9ec060a 100644
--- a/internal/ctl/entity-create.go
+++ b/internal/ctl/entity-create.go
@@ -52,8 +52,8 @@ func init() {
 
 func entityCreateRun(cmd *cobra.Command, args []string) {
 	newEntityID = args[0]
-	if newSecret == "" {
-		newSecret = getSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
+	if !cmd.Flags().Changed("initial-secret") {
+		newSecret = promptSecret(fmt.Sprintf("Initial Secret for %s: ", newEntityID))
 	}
 
 	ctx = netauth.Authorize(ctx, token())
diff --git a/internal/ctl/helpers.go b/internal/ctl/helpers.go
index 7f7868d..6af92aa 100644
--- a/internal/ctl/helpers.go
+++ b/internal/ctl/helpers.go
@@ -23,9 +23,16 @@ func getSecret(prompt string) string {
 	if viper.GetString("secret") != "" {
 		return viper.GetString("secret")
 	}
+	return promptSecret(prompt)
+}
+
+// promptSecret always asks, since the secret on the command line is
+// the one of the entity making the request and no other.
+func promptSecret(prompt string) string {
 	secret, err := speakeasy.Ask(prompt)
 	if err != nil {
-		fmt.Printf("Error: %s", err)
+		fmt.Printf("Error: %s\n", err)
+		os.Exit(1)
 	}
 	return secret
 }
-- 
2.43.0


From cb8c82e8bbaee7524234e487cddd687e91274743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 50/63] fix: status requests no longer crash the server when a
 plugin could not be started

---
 internal/plugin/tree/consumer/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index 59797e8..a913d0f 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -80,6 +80,12 @@ func (r *Ref) healthCheck() health.SubsystemStatus {
 		Status: "Plugin is OK",
 	}
 
+	if r.client == nil {
+		status.OK = false
+		status.Status = "Plugin could not be started"
+		return status
+	}
+
 	err := r.client.Ping()
 	if err != nil {
 		status.OK = false
-- 
2.43.0


From 6d11c42ba30decd19e67db257d31fb947c8e95bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 51/63] fix: plugin errors without a message are errors too

---
 internal/plugin/tree/common/rpc.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/plugin/tree/common/rpc.go b/internal/plugin/tree/common/rpc.go
index 618bff1..66d3435 100644
--- a/internal/plugin/tree/common/rpc.go
+++ b/internal/plugin/tree/common/rpc.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"net/rpc"
 
 	"github.com/hashicorp/go-plugin"
@@ -18,12 +19,21 @@ func (GoPluginRPC) Client(b *plugin.MuxBroker, c *rpc.Client) (interface{}, erro
 	return &GoPluginClient{client: c}, nil
 }
 
+// rpcError makes sure that an error arrives as one.  The transport only
+// carries the message, and takes an empty one for success.
+func rpcError(err error) error {
+	if err != nil && err.Error() == "" {
+		return errors.New("unspecified plugin error")
+	}
+	return err
+}
+
 // ProcessEntity on the GoPluginServer type implements a net/rpc
 // server method that handles entities.
 func (p *GoPluginServer) ProcessEntity(opts PluginOpts, res *PluginResult) error {
 	tmp, err := p.Mux.HandleEntity(opts)
 	res.Entity = tmp.Entity
-	return err
+	return rpcError(err)
 }
 
 // ProcessGroup on the GoPluginServer type implements a net/rpc server
@@ -31,7 +41,7 @@ func (p *GoPluginServer) ProcessEntity(opts PluginOpts, res *PluginResult) error
 func (p *GoPluginServer) ProcessGroup(opts PluginOpts, res *PluginResult) error {
 	tmp, err := p.Mux.HandleGroup(opts)
 	res.Group = tmp.Group
-	return err
+	return rpcError(err)
 }
 
 // ProcessEntity on the GoPluginClient provides a much cleaner
-- 
2.43.0


From e2d3b4f8106c264fae27438d8950f9770e273071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:05 +0000
Subject: [PATCH 52/63] fix: plugins receive and return objects unaltered by
 the transport

---
 internal/plugin/tree/common/gob.go    | 136 ++++++++++++++++++++++++++
 internal/plugin/tree/consumer/main.go |   2 +-
 internal/plugin/tree/provider/main.go |   2 +-
 3 files changed, 138 insertions(+), 2 deletions(-)
 create mode 100644 internal/plugin/tree/common/gob.go

diff --git a/internal/plugin/tree/common/gob.go b/internal/plugin/tree/common/gob.go
new file mode 100644
index 0000000..3a824f3
--- /dev/null
+++ b/internal/plugin/tree/common/gob.go
@@ -0,0 +1,136 @@
+package common
+
+import (
+	"bytes"
+	"encoding/gob"
+
+	"github.com/golang/protobuf/proto"
+
+	pb "github.com/netauth/protocol"
+)
+
+// The transport encodes with gob, which does not transmit pointers to
+// zero values.  Those make a difference, for example a number that is
+// zero is not a number that is not set.  The messages therefore travel
+// in their own encoding.
+
+type wireOpts struct {
+	Action     PluginAction
+	Entity     []byte
+	DataEntity []byte
+	Group      []byte
+	DataGroup  []byte
+}
+
+type wireResult struct {
+	Entity []byte
+	Group  []byte
+}
+
+// GobEncode implements the gob.GobEncoder interface.
+func (o PluginOpts) GobEncode() ([]byte, error) {
+	w := wireOpts{Action: o.Action}
+	var err error
+	if o.Entity != nil {
+		if w.Entity, err = pack(o.Entity); err != nil {
+			return nil, err
+		}
+	}
+	if o.DataEntity != nil {
+		if w.DataEntity, err = pack(o.DataEntity); err != nil {
+			return nil, err
+		}
+	}
+	if o.Group != nil {
+		if w.Group, err = pack(o.Group); err != nil {
+			return nil, err
+		}
+	}
+	if o.DataGroup != nil {
+		if w.DataGroup, err = pack(o.DataGroup); err != nil {
+			return nil, err
+		}
+	}
+	return encode(w)
+}
+
+// GobDecode implements the gob.GobDecoder interface.
+func (o *PluginOpts) GobDecode(b []byte) error {
+	var w wireOpts
+	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&w); err != nil {
+		return err
+	}
+	*o = PluginOpts{Action: w.Action}
+	if len(w.Entity) > 0 {
+		o.Entity = new(pb.Entity)
+		if err := proto.Unmarshal(w.Entity[1:], o.Entity); err != nil {
+			return err
+		}
+	}
+	if len(w.DataEntity) > 0 {
+		o.DataEntity = new(pb.Entity)
+		if err := proto.Unmarshal(w.DataEntity[1:], o.DataEntity); err != nil {
+			return err
+		}
+	}
+	if len(w.Group) > 0 {
+		o.Group = new(pb.Group)
+		if err := proto.Unmarshal(w.Group[1:], o.Group); err != nil {
+			return err
+		}
+	}
+	if len(w.DataGroup) > 0 {
+		o.DataGroup = new(pb.Group)
+		if err := proto.Unmarshal(w.DataGroup[1:], o.DataGroup); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// GobEncode implements the gob.GobEncoder interface.
+func (r *PluginResult) GobEncode() ([]byte, error) {
+	e, err := pack(&r.Entity)
+	if err != nil {
+		return nil, err
+	}
+	g, err := pack(&r.Group)
+	if err != nil {
+		return nil, err
+	}
+	return encode(wireResult{Entity: e, Group: g})
+}
+
+// GobDecode implements the gob.GobDecoder interface.
+func (r *PluginResult) GobDecode(b []byte) error {
+	var w wireResult
+	if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&w); err != nil {
+		return err
+	}
+	r.Entity.Reset()
+	r.Group.Reset()
+	if len(w.Entity) > 0 {
+		if err := proto.Unmarshal(w.Entity[1:], &r.Entity); err != nil {
+			return err
+		}
+	}
+	if len(w.Group) > 0 {
+		return proto.Unmarshal(w.Group[1:], &r.Group)
+	}
+	return nil
+}
+
+// pack marshals a message such that an empty one can be told from none.
+func pack(m proto.Message) ([]byte, error) {
+	b, err := proto.Marshal(m)
+	if err != nil {
+		return nil, err
+	}
+	return append([]byte{1}, b...), nil
+}
+
+func encode(v interface{}) ([]byte, error) {
+	var buf bytes.Buffer
+	err := gob.NewEncoder(&buf).Encode(v)
+	return buf.Bytes(), err
+}
diff --git a/internal/plugin/tree/consumer/main.go b/internal/plugin/tree/consumer/main.go
index a913d0f..7757371 100644
--- a/internal/plugin/tree/consumer/main.go
+++ b/internal/plugin/tree/consumer/main.go
@@ -14,7 +14,7 @@ import (
 
 var (
 	handshakeConfig = plugin.HandshakeConfig{
-		ProtocolVersion:  1,
+		ProtocolVersion:  2,
 		MagicCookieKey:   "TREE_PLUGIN",
 		MagicCookieValue: "treehello",
 	}
diff --git a/internal/plugin/tree/provider/main.go b/internal/plugin/tree/provider/main.go
index 74539ab..f507331 100644
--- a/internal/plugin/tree/provider/main.go
+++ b/internal/plugin/tree/provider/main.go
@@ -7,7 +7,7 @@ import (
 )
 
 var handshakeConfig = plugin.HandshakeConfig{
-	ProtocolVersion:  1,
+	ProtocolVersion:  2,
 	MagicCookieKey:   "TREE_PLUGIN",
 	MagicCookieValue: "treehello",
 }
-- 
2.43.0


From 061925bf8027319d501e255d8e2addd1b296a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:03 +0000
Subject: [PATCH 53/63] fix: fail2lock no longer crashes on entities without
 metadata

---
 plugins/tree/fail2lock/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 69acbd6..85b39d8 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -66,6 +66,11 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	if e.Meta == nil {
+		// Entities without any metadata have none.
+		e.Meta = &pb.EntityMeta{}
+	}
+
 	flags := util.PatchKeyValueSlice(e.Meta.UntypedMeta, "READ", "fail2lock", "")
 
 	if len(flags) == 1 && strings.Split(flags[0], ":")[1] == "RESET" {
-- 
2.43.0


From 8bb095ea3ed73208bc816bb945c911bd950fb9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:03 +0000
Subject: [PATCH 54/63] fix: fail2lock uses the default of a setting that is
 not given

---
 plugins/tree/fail2lock/main.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index 85b39d8..f664148 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -17,8 +17,6 @@ import (
 
 var (
 	appLogger hclog.Logger
-
-	cfg *viper.Viper
 )
 
 func init() {
@@ -41,13 +39,12 @@ func init() {
 
 	viper.SetDefault("plugin.fail2lock.allowed_fails", 3)
 	viper.SetDefault("plugin.fail2lock.interval", time.Minute*15)
-	cfg = viper.Sub("plugin.fail2lock")
 }
 
 func main() {
 	appLogger.Info("fail2lock initialized",
-		"allowed_fails", cfg.GetInt("allowed_fails"),
-		"interval", cfg.GetDuration("interval"))
+		"allowed_fails", viper.GetInt("plugin.fail2lock.allowed_fails"),
+		"interval", viper.GetDuration("plugin.fail2lock.interval"))
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
@@ -80,18 +77,18 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 	}
 
 	inIntervalFails := 0
-	startTime := time.Now().Add(cfg.GetDuration("interval") * -1)
+	startTime := time.Now().Add(viper.GetDuration("plugin.fail2lock.interval") * -1)
 	for _, t := range f.failDB[e.GetID()] {
 		if t.After(startTime) {
 			inIntervalFails++
 		}
 	}
 
-	if inIntervalFails >= cfg.GetInt("allowed_fails") {
+	if inIntervalFails >= viper.GetInt("plugin.fail2lock.allowed_fails") {
 		appLogger.Warn("fail2lock is locking an entity",
 			"entity", e.GetID(),
 			"fails", inIntervalFails,
-			"allowed", cfg.GetInt("allowed_fails"))
+			"allowed", viper.GetInt("plugin.fail2lock.allowed_fails"))
 		e.Meta.Locked = proto.Bool(true)
 		return e, nil
 	}
-- 
2.43.0


From 89643a9f6e1e599174e3422e8a77c2e36f11a703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:15 +0000
Subject: [PATCH 55/63] fix: fail2lock copes with overlapping authentications

---
 plugins/tree/fail2lock/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/plugins/tree/fail2lock/main.go b/plugins/tree/fail2lock/main.go
index f664148..56d9cfe 100644
--- a/plugins/tree/fail2lock/main.go
+++ b/plugins/tree/fail2lock/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"os"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/golang/protobuf/proto"
@@ -48,6 +49,7 @@ func main() {
 
 	tree.PluginMain(fail2lock{
 		NullPlugin: tree.NullPlugin{},
+		mutex:      new(sync.Mutex),
 		failDB:     make(map[string][]time.Time),
 	})
 }
@@ -55,6 +57,8 @@ func main() {
 type fail2lock struct {
 	tree.NullPlugin
 
+	// Authentications overlap.
+	mutex  *sync.Mutex
 	failDB map[string][]time.Time
 }
 
@@ -63,6 +67,9 @@ type fail2lock struct {
 // will lock the entity and return which will cause an authentication
 // failure.
 func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mutex.Lock()
+	defer f.mutex.Unlock()
+
 	if e.Meta == nil {
 		// Entities without any metadata have none.
 		e.Meta = &pb.EntityMeta{}
@@ -102,6 +109,9 @@ func (f fail2lock) PreAuthCheck(e, de pb.Entity) (pb.Entity, error) {
 // this case we will remove the fail2lock key from the entity's
 // metadata since they have successfully authenticated.
 func (f fail2lock) PostAuthCheck(e, de pb.Entity) (pb.Entity, error) {
+	f.mutex.Lock()
+	defer f.mutex.Unlock()
+
 	delete(f.failDB, e.GetID())
 	return e, nil
 }
-- 
2.43.0


From 2ad0410e23683f7ed284d082417613809888f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 56/63] fix: tokens are not issued for names that would read
 back as another

---
 internal/token/jwt/rsa.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index 2b6de7a..e0506f2 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/spf13/viper"
@@ -62,6 +63,13 @@ func (s *RSATokenService) Generate(claims token.Claims, config token.Config) (st
 		return "", token.ErrKeyUnavailable
 	}
 
+	if !utf8.ValidString(claims.EntityID) {
+		// JSON cannot carry this name, the token would name
+		// another entity.
+		s.log.Warn("Entity ID is not valid UTF-8, signing is not possible")
+		return "", token.ErrInternalError
+	}
+
 	c := RSAToken{
 		claims,
 		jwt.StandardClaims{
-- 
2.43.0


From b2f1207d7a3f32606b84af0c4c645f601162cdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 57/63] fix: a token that could not be signed is not issued

---
 internal/token/jwt/rsa.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/token/jwt/rsa.go b/internal/token/jwt/rsa.go
index e0506f2..9b15f2e 100644
--- a/internal/token/jwt/rsa.go
+++ b/internal/token/jwt/rsa.go
@@ -85,10 +85,12 @@ func (s *RSATokenService) Generate(claims token.Claims, config token.Config) (st
 
 	tkn := jwt.NewWithClaims(jwt.SigningMethodRS512, c)
 
-	// We discard this error as there is no meaningful error that
-	// can be returned from here.  Basically the FPU would need to
-	// fail for this to have a problem...
-	ss, _ := tkn.SignedString(s.privateKey)
+	// This fails if the key is too short for the signing method.
+	ss, err := tkn.SignedString(s.privateKey)
+	if err != nil {
+		s.log.Error("Error signing token", "error", err)
+		return "", token.ErrInternalError
+	}
 	return ss, nil
 }
 
-- 
2.43.0


From 9704e7333823ff697fbe99cd8c0b860f1d129d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:31 +0000
Subject: [PATCH 58/63] fix: keep a bitcask store usable after a write failed

---
 internal/db/bitcask/bitcask.go | 47 ++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 386ee4e..4b5d8a5 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -13,6 +13,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
 
 	"github.com/hashicorp/go-hclog"
 	"github.com/prologic/bitcask"
@@ -38,6 +39,11 @@ type BCStore struct {
 	l hclog.Logger
 
 	eF func(db.Event)
+
+	// path is where the files are, and mu serializes the changes to
+	// them, as a change that fails is followed by a repair.
+	path string
+	mu   sync.Mutex
 }
 
 // event is an enum for what type of event to fire and subsequently
@@ -87,6 +93,7 @@ func New(l hclog.Logger) (db.KVStore, error) {
 		return nil, err
 	}
 	x.s = b
+	x.path = p
 	return x, nil
 }
 
@@ -125,18 +132,19 @@ func (bcs *BCStore) recover(p string) error {
 		}
 	}
 
+	return bcs.dropPartialRecord(p)
+}
+
+// dropPartialRecord removes the last record that was written if that
+// was not done completely, and it was thus never acknowledged.
+func (bcs *BCStore) dropPartialRecord(p string) error {
 	// Only the last data file is ever written to.
 	files, err := filepath.Glob(filepath.Join(p, "*.data"))
 	if err != nil || len(files) == 0 {
 		return err
 	}
 	sort.Strings(files)
-	return bcs.dropPartialRecord(files[len(files)-1])
-}
-
-// dropPartialRecord removes the last record of a data file if it was
-// not completely written, and was thus never acknowledged.
-func (bcs *BCStore) dropPartialRecord(file string) error {
+	file := files[len(files)-1]
 	f, err := os.OpenFile(file, os.O_RDWR, 0)
 	if err != nil {
 		return err
@@ -178,13 +186,36 @@ func (bcs *BCStore) dropPartialRecord(file string) error {
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
-	if err := bcs.s.Put([]byte(k), v); err != nil {
+	if err := bcs.put(k, v); err != nil {
 		return err
 	}
 	bcs.fireEventForKey(k, eventUpdate)
 	return nil
 }
 
+// put writes one record.  After a write that failed bitcask refuses all
+// further ones, and part of the record may be in the file, so this is
+// removed and the files are opened again.
+func (bcs *BCStore) put(k string, v []byte) error {
+	bcs.mu.Lock()
+	defer bcs.mu.Unlock()
+
+	err := bcs.s.Put([]byte(k), v)
+	switch err {
+	case nil, bitcask.ErrEmptyKey, bitcask.ErrKeyTooLarge, bitcask.ErrValueTooLarge:
+		return err
+	}
+	bcs.l.Warn("Error writing to the store", "error", err)
+	if err := bcs.dropPartialRecord(bcs.path); err != nil {
+		bcs.l.Warn("Error removing a partially written record", "error", err)
+		return err
+	}
+	if err := bcs.s.Reopen(); err != nil {
+		bcs.l.Warn("Error reopening the store", "error", err)
+	}
+	return err
+}
+
 // Get returns the key at k or an error explaning why no data was
 // returned.
 func (bcs *BCStore) Get(k string) ([]byte, error) {
@@ -208,7 +239,7 @@ func (bcs *BCStore) Del(k string) error {
 	if _, err := bcs.Get(k); err == db.ErrNoValue {
 		return err
 	}
-	if err := bcs.s.Put([]byte(k), deleted); err != nil {
+	if err := bcs.put(k, deleted); err != nil {
 		return err
 	}
 	bcs.fireEventForKey(k, eventDelete)
-- 
2.43.0


From 95fdbac6326fbfa99907d9ce6840e7ca8bb81a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:22 +0000
Subject: [PATCH 59/63] fix: a cached token is replaced at once and never
 written to a file others can read

---
 pkg/netauth/cache/fs/fs.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/netauth/cache/fs/fs.go b/pkg/netauth/cache/fs/fs.go
index df117a5..6e659f8 100644
--- a/pkg/netauth/cache/fs/fs.go
+++ b/pkg/netauth/cache/fs/fs.go
@@ -40,7 +40,21 @@ func new() (cache.TokenCache, error) {
 // The file will be written with the permissions of the curent user
 // and will not be readable to other users.
 func (fc *fsCache) PutToken(owner, token string) error {
-	return ioutil.WriteFile(fc.filepathFromOwner(owner), []byte(token), 0600)
+	// A file that is there already may be readable to others or be
+	// read right now, so it is replaced instead of written to.
+	f, err := ioutil.TempFile(fc.basepath, "netauth-token-")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(f.Name())
+	if _, err := f.WriteString(token); err != nil {
+		f.Close()
+		return err
+	}
+	if err := f.Close(); err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), fc.filepathFromOwner(owner))
 }
 
 // GetToken will retrieve a file of the form <owner>.<extension> and
-- 
2.43.0


From ed5cfb5666407d8d0202729d3ca4c2b134e47fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:06 +0000
Subject: [PATCH 60/63] fix: memory store no longer writes stored records to
 the log

The records of entities contain their secrets, which must not end up in
a log file.
---
 internal/db/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/db/memory/memory.go b/internal/db/memory/memory.go
index e33877e..5f532f8 100644
--- a/internal/db/memory/memory.go
+++ b/internal/db/memory/memory.go
@@ -54,7 +54,7 @@ func (kv *KV) SetEventFunc(ef func(db.Event)) {
 // Put stores a value
 func (kv *KV) Put(k string, v []byte) error {
 	kv.Lock()
-	kv.l.Trace("PUT", "key", k, "value", v)
+	kv.l.Trace("PUT", "key", k)
 	kv.m[k] = v
 	kv.Unlock()
 
@@ -82,7 +82,7 @@ func (kv *KV) Get(k string) ([]byte, error) {
 		kv.l.Trace("NoValue", "key", k)
 		return nil, db.ErrNoValue
 	}
-	kv.l.Trace("GET", "key", k, "value", v)
+	kv.l.Trace("GET", "key", k)
 	return v, nil
 }
 
-- 
2.43.0


From 8830f98fbcb5dff64e57af79e8c8d6b5e3a81867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:10 +0000
Subject: [PATCH 61/63] fix: a client may be used by several goroutines at once

The first change made through a client with a separate master replaces
the connection, which raced with all other requests in progress.
---
 pkg/netauth/auth.go    |  8 ++++----
 pkg/netauth/entity.go  | 28 ++++++++++++++--------------
 pkg/netauth/group.go   | 28 ++++++++++++++--------------
 pkg/netauth/netauth.go |  9 +++++++++
 pkg/netauth/system.go  |  6 +++---
 pkg/netauth/type.go    |  7 ++++++-
 6 files changed, 50 insertions(+), 36 deletions(-)

diff --git a/pkg/netauth/auth.go b/pkg/netauth/auth.go
index 8c09b31..98e4368 100644
--- a/pkg/netauth/auth.go
+++ b/pkg/netauth/auth.go
@@ -18,7 +18,7 @@ func (c *Client) AuthEntity(ctx context.Context, entity, secret string) error {
 		},
 		Secret: &secret,
 	}
-	_, err := c.rpc.AuthEntity(ctx, &r)
+	_, err := c.server().AuthEntity(ctx, &r)
 	return err
 }
 
@@ -33,7 +33,7 @@ func (c *Client) AuthGetToken(ctx context.Context, entity, secret string) (strin
 		},
 		Secret: &secret,
 	}
-	res, err := c.rpc.AuthGetToken(ctx, &r)
+	res, err := c.server().AuthGetToken(ctx, &r)
 	return res.GetToken(), err
 }
 
@@ -46,7 +46,7 @@ func (c *Client) AuthValidateToken(ctx context.Context, token string) error {
 	r := rpc.AuthRequest{
 		Token: &token,
 	}
-	_, err := c.rpc.AuthValidateToken(ctx, &r)
+	_, err := c.server().AuthValidateToken(ctx, &r)
 	return err
 }
 
@@ -67,6 +67,6 @@ func (c *Client) AuthChangeSecret(ctx context.Context, entity, secret, oldsecret
 		},
 		Secret: &secret,
 	}
-	_, err := c.rpc.AuthChangeSecret(ctx, &r)
+	_, err := c.server().AuthChangeSecret(ctx, &r)
 	return err
 }
diff --git a/pkg/netauth/entity.go b/pkg/netauth/entity.go
index d18b954..dddc136 100644
--- a/pkg/netauth/entity.go
+++ b/pkg/netauth/entity.go
@@ -32,7 +32,7 @@ func (c *Client) EntityCreate(ctx context.Context, id, secret string, number int
 			Number: proto.Int32(int32(number)),
 		},
 	}
-	_, err := c.rpc.EntityCreate(ctx, &r)
+	_, err := c.server().EntityCreate(ctx, &r)
 	return err
 }
 
@@ -50,7 +50,7 @@ func (c *Client) EntityUpdate(ctx context.Context, id string, meta *pb.EntityMet
 			Meta: meta,
 		},
 	}
-	_, err := c.rpc.EntityUpdate(ctx, &r)
+	_, err := c.server().EntityUpdate(ctx, &r)
 	return err
 }
 
@@ -65,7 +65,7 @@ func (c *Client) EntityInfo(ctx context.Context, id string) (pb.Entity, error) {
 		},
 	}
 
-	res, err := c.rpc.EntityInfo(ctx, &r)
+	res, err := c.server().EntityInfo(ctx, &r)
 	if err != nil {
 		return pb.Entity{}, err
 	}
@@ -81,7 +81,7 @@ func (c *Client) EntitySearch(ctx context.Context, expr string) ([]*pb.Entity, e
 		Expression: &expr,
 	}
 
-	res, err := c.rpc.EntitySearch(ctx, &r)
+	res, err := c.server().EntitySearch(ctx, &r)
 	return res.GetEntities(), err
 }
 
@@ -112,7 +112,7 @@ func (c *Client) EntityUM(ctx context.Context, target, action, key, value string
 		Action: rpc.Action(a).Enum(),
 	}
 
-	res, err := c.rpc.EntityUM(ctx, &r)
+	res, err := c.server().EntityUM(ctx, &r)
 	if err != nil {
 		return nil, err
 	}
@@ -143,7 +143,7 @@ func (c *Client) EntityKVGet(ctx context.Context, id, key string) (map[string][]
 		},
 	}
 
-	res, err := c.rpc.EntityKVGet(ctx, &r)
+	res, err := c.server().EntityKVGet(ctx, &r)
 	if err != nil {
 		return nil, err
 	}
@@ -186,7 +186,7 @@ func (c *Client) EntityKVAdd(ctx context.Context, id, key string, values []strin
 	}
 	r.Data.Values = v
 
-	_, err := c.rpc.EntityKVAdd(ctx, &r)
+	_, err := c.server().EntityKVAdd(ctx, &r)
 	return err
 }
 
@@ -203,7 +203,7 @@ func (c *Client) EntityKVDel(ctx context.Context, id, key string) error {
 			Key: &key,
 		},
 	}
-	_, err := c.rpc.EntityKVDel(ctx, &r)
+	_, err := c.server().EntityKVDel(ctx, &r)
 	return err
 }
 
@@ -231,7 +231,7 @@ func (c *Client) EntityKVReplace(ctx context.Context, id, key string, values []s
 	}
 	r.Data.Values = v
 
-	_, err := c.rpc.EntityKVReplace(ctx, &r)
+	_, err := c.server().EntityKVReplace(ctx, &r)
 	return err
 }
 
@@ -260,7 +260,7 @@ func (c *Client) EntityKeys(ctx context.Context, id, action, ktype, key string)
 		Value:  &key,
 	}
 
-	res, err := c.rpc.EntityKeys(ctx, &r)
+	res, err := c.server().EntityKeys(ctx, &r)
 	if err != nil {
 		return nil, err
 	}
@@ -297,7 +297,7 @@ func (c *Client) EntityDestroy(ctx context.Context, id string) error {
 		},
 	}
 
-	_, err := c.rpc.EntityDestroy(ctx, &r)
+	_, err := c.server().EntityDestroy(ctx, &r)
 	return err
 }
 
@@ -315,7 +315,7 @@ func (c *Client) EntityLock(ctx context.Context, id string) error {
 			ID: &id,
 		},
 	}
-	_, err := c.rpc.EntityLock(ctx, &r)
+	_, err := c.server().EntityLock(ctx, &r)
 	return err
 }
 
@@ -332,7 +332,7 @@ func (c *Client) EntityUnlock(ctx context.Context, id string) error {
 			ID: &id,
 		},
 	}
-	_, err := c.rpc.EntityUnlock(ctx, &r)
+	_, err := c.server().EntityUnlock(ctx, &r)
 	return err
 }
 
@@ -344,6 +344,6 @@ func (c *Client) EntityGroups(ctx context.Context, id string) ([]*pb.Group, erro
 			ID: &id,
 		},
 	}
-	res, err := c.rpc.EntityGroups(ctx, &r)
+	res, err := c.server().EntityGroups(ctx, &r)
 	return res.GetGroups(), err
 }
diff --git a/pkg/netauth/group.go b/pkg/netauth/group.go
index 14c0207..2e07c87 100644
--- a/pkg/netauth/group.go
+++ b/pkg/netauth/group.go
@@ -35,7 +35,7 @@ func (c *Client) GroupCreate(ctx context.Context, name, displayName, managedBy s
 			Number:      proto.Int32(int32(number)),
 		},
 	}
-	_, err := c.rpc.GroupCreate(ctx, &r)
+	_, err := c.server().GroupCreate(ctx, &r)
 	return err
 }
 
@@ -52,7 +52,7 @@ func (c *Client) GroupUpdate(ctx context.Context, update *pb.Group) error {
 		Group: update,
 	}
 
-	_, err := c.rpc.GroupUpdate(ctx, &r)
+	_, err := c.server().GroupUpdate(ctx, &r)
 	return err
 }
 
@@ -65,7 +65,7 @@ func (c *Client) GroupInfo(ctx context.Context, name string) (*pb.Group, []*pb.G
 			Name: &name,
 		},
 	}
-	res, err := c.rpc.GroupInfo(ctx, &r)
+	res, err := c.server().GroupInfo(ctx, &r)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -117,7 +117,7 @@ func (c *Client) GroupUM(ctx context.Context, target, action, key, value string)
 		Action: rpc.Action(a).Enum(),
 	}
 
-	res, err := c.rpc.GroupUM(ctx, &r)
+	res, err := c.server().GroupUM(ctx, &r)
 	if err != nil {
 		return nil, err
 	}
@@ -148,7 +148,7 @@ func (c *Client) GroupKVGet(ctx context.Context, id, key string) (map[string][]s
 		},
 	}
 
-	res, err := c.rpc.GroupKVGet(ctx, &r)
+	res, err := c.server().GroupKVGet(ctx, &r)
 	if err != nil {
 		return nil, err
 	}
@@ -191,7 +191,7 @@ func (c *Client) GroupKVAdd(ctx context.Context, id, key string, values []string
 	}
 	r.Data.Values = v
 
-	_, err := c.rpc.GroupKVAdd(ctx, &r)
+	_, err := c.server().GroupKVAdd(ctx, &r)
 	return err
 }
 
@@ -208,7 +208,7 @@ func (c *Client) GroupKVDel(ctx context.Context, id, key string) error {
 			Key: &key,
 		},
 	}
-	_, err := c.rpc.GroupKVDel(ctx, &r)
+	_, err := c.server().GroupKVDel(ctx, &r)
 	return err
 }
 
@@ -236,7 +236,7 @@ func (c *Client) GroupKVReplace(ctx context.Context, id, key string, values []st
 	}
 	r.Data.Values = v
 
-	_, err := c.rpc.GroupKVReplace(ctx, &r)
+	_, err := c.server().GroupKVReplace(ctx, &r)
 	return err
 }
 
@@ -271,7 +271,7 @@ func (c *Client) GroupUpdateRules(ctx context.Context, group, action, target str
 		},
 		RuleAction: rpc.RuleAction(a).Enum(),
 	}
-	_, err := c.rpc.GroupUpdateRules(ctx, &r)
+	_, err := c.server().GroupUpdateRules(ctx, &r)
 	return err
 }
 
@@ -292,7 +292,7 @@ func (c *Client) GroupAddMember(ctx context.Context, group, entity string) error
 			},
 		},
 	}
-	_, err := c.rpc.GroupAddMember(ctx, &r)
+	_, err := c.server().GroupAddMember(ctx, &r)
 	return err
 }
 
@@ -313,7 +313,7 @@ func (c *Client) GroupDelMember(ctx context.Context, group, entity string) error
 			},
 		},
 	}
-	_, err := c.rpc.GroupDelMember(ctx, &r)
+	_, err := c.server().GroupDelMember(ctx, &r)
 	return err
 }
 
@@ -334,7 +334,7 @@ func (c *Client) GroupDestroy(ctx context.Context, name string) error {
 			Name: &name,
 		},
 	}
-	_, err := c.rpc.GroupDestroy(ctx, &r)
+	_, err := c.server().GroupDestroy(ctx, &r)
 	return err
 }
 
@@ -347,7 +347,7 @@ func (c *Client) GroupMembers(ctx context.Context, name string) ([]*pb.Entity, e
 			Name: &name,
 		},
 	}
-	res, err := c.rpc.GroupMembers(ctx, &r)
+	res, err := c.server().GroupMembers(ctx, &r)
 	return res.GetEntities(), err
 }
 
@@ -358,7 +358,7 @@ func (c *Client) GroupSearch(ctx context.Context, expression string) ([]*pb.Grou
 	r := rpc.SearchRequest{
 		Expression: &expression,
 	}
-	res, err := c.rpc.GroupSearch(ctx, &r)
+	res, err := c.server().GroupSearch(ctx, &r)
 	if err != nil {
 		return nil, err
 
diff --git a/pkg/netauth/netauth.go b/pkg/netauth/netauth.go
index 5c26bc1..1107b35 100644
--- a/pkg/netauth/netauth.go
+++ b/pkg/netauth/netauth.go
@@ -149,6 +149,8 @@ func (c *Client) makeWritable() error {
 	// If the master server is the one that we would already be
 	// connected to, then just return.  Also return if we are
 	// already not readonly.
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	if viper.GetString("core.server") == viper.GetString("core.master") || c.writeable {
 		return nil
 	}
@@ -161,3 +163,10 @@ func (c *Client) makeWritable() error {
 	c.writeable = true
 	return nil
 }
+
+// server returns the connection to use.
+func (c *Client) server() rpc.NetAuth2Client {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	return c.rpc
+}
diff --git a/pkg/netauth/system.go b/pkg/netauth/system.go
index 393bb42..f742262 100644
--- a/pkg/netauth/system.go
+++ b/pkg/netauth/system.go
@@ -38,7 +38,7 @@ func (c *Client) SystemCapabilities(ctx context.Context, target, action, capabil
 		Action:     rpc.Action(a).Enum(),
 		Capability: pb.Capability(cap).Enum(),
 	}
-	_, err := c.rpc.SystemCapabilities(ctx, &r)
+	_, err := c.server().SystemCapabilities(ctx, &r)
 	return err
 }
 
@@ -47,7 +47,7 @@ func (c *Client) SystemCapabilities(ctx context.Context, target, action, capabil
 // Use this function to gate healthy servers with a load balancer.
 func (c *Client) SystemPing(ctx context.Context) error {
 	ctx = c.appendMetadata(ctx)
-	_, err := c.rpc.SystemPing(ctx, &rpc.Empty{})
+	_, err := c.server().SystemPing(ctx, &rpc.Empty{})
 	return err
 }
 
@@ -56,5 +56,5 @@ func (c *Client) SystemPing(ctx context.Context) error {
 // detected during a health check should a failure be detected.
 func (c *Client) SystemStatus(ctx context.Context) (*rpc.ServerStatus, error) {
 	ctx = c.appendMetadata(ctx)
-	return c.rpc.SystemStatus(ctx, &rpc.Empty{})
+	return c.server().SystemStatus(ctx, &rpc.Empty{})
 }
diff --git a/pkg/netauth/type.go b/pkg/netauth/type.go
index c5fbb80..f6c8cfd 100644
--- a/pkg/netauth/type.go
+++ b/pkg/netauth/type.go
@@ -1,6 +1,8 @@
 package netauth
 
 import (
+	"sync"
+
 	"github.com/hashicorp/go-hclog"
 
 	"github.com/netauth/netauth/internal/token"
@@ -17,11 +19,14 @@ type Client struct {
 	cache.TokenCache
 	token.Service
 
-	rpc rpc.NetAuth2Client
 	log hclog.Logger
 
 	clientName  string
 	serviceName string
 
+	// The connection is replaced by the first request that changes
+	// something, while others may be using it.
+	mu        sync.Mutex
+	rpc       rpc.NetAuth2Client
 	writeable bool
 }
-- 
2.43.0


From 4006d2e0972f8ef1f6f414edcbad92193a74c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:47 +0000
Subject: [PATCH 62/63] fix: a bitcask store keeps empty values and those equal
 to its markers

An empty value was gone after the store was reopened, as the data files
cannot tell it from a removed key, and one equal to the marker of removed
values could not be read at all.
---
 internal/db/bitcask/bitcask.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/db/bitcask/bitcask.go b/internal/db/bitcask/bitcask.go
index 4b5d8a5..c8d062c 100644
--- a/internal/db/bitcask/bitcask.go
+++ b/internal/db/bitcask/bitcask.go
@@ -66,6 +66,11 @@ const (
 // others panics, both then and when the store is next opened.
 var deleted = []byte("\x00deleted")
 
+// literal precedes the values that could not be stored as they are: an
+// empty one is a removed key to bitcask when the store is next opened,
+// and one that starts like deleted could be mistaken for it.
+var literal = []byte("\x00v")
+
 // New creates a new instance of the bitcask store.
 func New(l hclog.Logger) (db.KVStore, error) {
 	p := filepath.Join(viper.GetString("core.home"), "bc")
@@ -186,6 +191,9 @@ func (bcs *BCStore) dropPartialRecord(p string) error {
 // Put stores the bytes of v at a location identitified by the key k.
 // If the operation fails an error will be returned explaining why.
 func (bcs *BCStore) Put(k string, v []byte) error {
+	if len(v) == 0 || v[0] == 0 {
+		v = append(literal[:len(literal):len(literal)], v...)
+	}
 	if err := bcs.put(k, v); err != nil {
 		return err
 	}
@@ -225,7 +233,7 @@ func (bcs *BCStore) Get(k string) ([]byte, error) {
 		if bytes.Equal(v, deleted) {
 			return nil, db.ErrNoValue
 		}
-		return v, nil
+		return bytes.TrimPrefix(v, literal), nil
 	case bitcask.ErrKeyNotFound:
 		return nil, db.ErrNoValue
 	default:
-- 
2.43.0


From 52d06ad0d3ed5c76e206975b1027f78970339f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:13 +0000
Subject: [PATCH 63/63] fix: a server that cannot start ends its plugins

The plugins are processes of their own, and were left running when the
server gave up after it had loaded them, e.g. because its address was in
use.
---
 cmd/netauthd/main.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/cmd/netauthd/main.go b/cmd/netauthd/main.go
index e12621b..f00b482 100644
--- a/cmd/netauthd/main.go
+++ b/cmd/netauthd/main.go
@@ -271,20 +271,27 @@ func main() {
 	// system.
 	pluginManager := doPluginEarlySetup()
 
+	// If the server can't start after all, then it must not leave the
+	// plugins behind, since they are processes of their own.
+	fatal := func() {
+		pluginManager.Shutdown()
+		os.Exit(1)
+	}
+
 	// The data storage layer and cryptographic engine are next to
 	// initialize.  These modules provide core services to the
 	// entity tree which initializes immediately afterwards.
 	dbImpl, err := db.New(viper.GetString("db.backend"))
 	if err != nil {
 		appLogger.Error("Fatal database error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	appLogger.Info("Database initialized", "backend", viper.GetString("db.backend"))
 
 	cryptoImpl, err := crypto.New(viper.GetString("crypto.backend"))
 	if err != nil {
 		appLogger.Error("Fatal crypto error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 
 	// The Tree is the core component of the server.  Its the part
@@ -297,7 +304,7 @@ func main() {
 	tree, err := tree.New(dbImpl, cryptoImpl, appLogger)
 	if err != nil {
 		appLogger.Error("Fatal initialization error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	if viper.GetBool("plugin.enabled") {
 		pluginManager.ConfigureEntityChains(tree.RegisterEntityHookToChain)
@@ -311,7 +318,7 @@ func main() {
 	// persisted to disk.
 	if err := dbImpl.EventUpdateAll(); err != nil {
 		appLogger.Error("Error during initial event preload", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 
 	// Bootstrapping a new server, or recovering from certain
@@ -326,7 +333,7 @@ func main() {
 	if len(*bootstrap) != 0 {
 		if err := doSuperuserBootstrap(tree); err != nil {
 			appLogger.Error("Critical error during superuser bootstrap", "error", err)
-			os.Exit(1)
+			fatal()
 		}
 	}
 	tree.DisableBootstrap()
@@ -339,7 +346,7 @@ func main() {
 	tokenService, err := token.New(viper.GetString("token.backend"))
 	if err != nil {
 		appLogger.Error("Fatal token error", "error", err)
-		os.Exit(1)
+		fatal()
 	}
 	appLogger.Info("Token backend successfully initialized", "backend", viper.GetString("token.backend"))
 
@@ -351,7 +358,7 @@ func main() {
 	// insecure server is returned.
 	grpcServer, err := newGRPCServer()
 	if err != nil {
-		os.Exit(1)
+		fatal()
 	}
 
 	// A NetAuth server may serve more than one protocol version
@@ -397,7 +404,7 @@ func main() {
 	appLogger.Info("Ready to Serve...")
 	sock, err := newSocket()
 	if err != nil {
-		os.Exit(1)
+		fatal()
 	}
 	grpcServer.Serve(sock)
 
-- 
2.43.0

