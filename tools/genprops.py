#!/usr/bin/env python3
"""Single source for properties.jsonl (kept as a script so the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                  "observe_at":observe,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)

p("P01","Authentication succeeds exactly for the current secret of an unlocked entity",
  "Authenticating, or asking for a token, succeeds if and only if the named entity exists, is not locked, and the secret offered is exactly the one most recently set for it. Locking, unlocking, changing a secret, destroying, re-creating and restarting the server take effect on the very next attempt, and a failed attempt changes nothing.",
  ["histories","inputs","configurations"],"All sequences of create, destroy, secret change, lock, unlock, restart and authentication attempts, over all secrets (empty, long, binary, near misses), with either secret engine.",
  "Unit tests try one right and one wrong secret on a freshly built server; the guarantee is about every reachable history and every near-miss secret, which they never visit.",
  ["internal/rpc2/auth.go","internal/tree/entity.go","internal/tree/defaults.go","internal/tree/hooks/validate-entity-secret.go","internal/tree/hooks/validate-entity-unlocked.go","internal/crypto/bcrypt/bcrypt.go"],
  [("identity validation chain","internal/tree/defaults.go"),("AuthEntity / AuthGetToken","internal/rpc2/auth.go"),("bcrypt engine","internal/crypto/bcrypt/bcrypt.go")],
  ["AuthEntity","AuthGetToken"])

p("P02","Only tokens this server signed, inside their lifetime, are accepted",
  "A token is accepted only if it was signed with the server's own private key and the current time lies within its validity window, and the identity and capabilities read back from it are exactly those it was issued with. Any altered, re-signed, unsigned, differently-keyed, expired or not-yet-valid token is refused everywhere a token is required.",
  ["inputs","configurations"],"All byte-level and structural mutations of genuine tokens, forged tokens of every signing method, all claim contents and all lifetimes including past and future windows.",
  "Tests hold a handful of fixed tokens; forgery resistance is a statement about every possible forged token and every claim set.",
  ["internal/token/jwt/rsa.go","internal/token/token.go","internal/token/claims.go","internal/rpc2/util.go","internal/rpc2/auth.go"],
  [("Generate / Validate","internal/token/jwt/rsa.go"),("checkToken","internal/rpc2/util.go")],
  ["AuthValidateToken","token service Validate","any mutating request"])

p("P03","A token carries exactly the capabilities in force when it is issued",
  "A token issued to an entity names that entity and carries exactly the union, without omissions or additions, of the capabilities granted directly to the entity and those of every group it is effectively a member of at that moment. Holding a capability in a token authorises that action only, except that the global superuser capability authorises every action.",
  ["histories","configurations"],"All histories of capability grants and removals on entities and groups, membership changes, rule changes and destruction preceding a token request; all capability pairs.",
  "Tests check one entity with one group; the union has to follow every history of grants, rules and removals.",
  ["internal/rpc2/util.go","internal/rpc2/auth.go","internal/token/claims.go","internal/mresolver/memberships.go"],
  [("getCapabilitiesForEntity","internal/rpc2/util.go"),("HasCapability","internal/token/claims.go")],
  ["claims of tokens returned by AuthGetToken"])

p("P04","Every change requires a valid token with the specific capability for it",
  "Every request that would change stored data is refused, leaving all data unchanged, unless it carries one valid token holding the capability documented for that request or the global superuser capability. The only exceptions are an entity changing its own secret with its current secret, an entity managing its own keys, and delegated group management.",
  ["inputs","configurations","histories"],"All mutating request kinds crossed with all single capabilities, capability sets, missing, duplicated, malformed, expired or foreign tokens, and all targets including the requester itself.",
  "The test-suite checks three token shapes per request; only the full cross product of request and capability shows that no request honours the wrong capability.",
  ["internal/rpc2/entity.go","internal/rpc2/group.go","internal/rpc2/auth.go","internal/rpc2/system.go","internal/rpc2/util.go"],
  [("mutablePrequisitesMet / checkToken / isAuthorized","internal/rpc2/util.go")],
  ["status code of every request","stored data before and after"])

p("P05","Members of a managing group can manage that group and nothing else",
  "An entity that presents a valid token and is, directly or through rules, currently a member of the group named as a group's manager may change that group's metadata, rules and membership without any capability. The delegation gives no authority over any other group, over entities, over creation, destruction or capabilities, and never applies without a valid token or on a read-only server.",
  ["histories","configurations","inputs"],"All management graphs (self-managed, chained, dangling, empty), all membership histories of the managing group, all request kinds, and all token states.",
  "Delegation depends on the combination of stored manager, rule-derived membership and request kind; tests with a superuser token never reach that path.",
  ["internal/rpc2/util.go","internal/rpc2/group.go","internal/tree/hooks/set-managing-group.go"],
  [("manageByMembership","internal/rpc2/util.go")],
  ["GroupUpdate","GroupUM","GroupUpdateRules","GroupAddMember","GroupDelMember"])

p("P06","A read-only server never changes stored data",
  "When the server runs in read-only mode every mutating request fails with the read-only error no matter what authority it carries, and no request of any kind alters any entity, group, membership or secret. Read requests, authentication and token validation keep working with the same answers as on a writable server.",
  ["inputs","configurations","histories"],"All request kinds, all authorities including superuser and delegated managers, and mixed sequences of them against a populated store.",
  "Tests flip the flag for single requests; the guarantee covers every request kind and every authorisation path, including those that bypass capabilities.",
  ["internal/rpc2/util.go","internal/rpc2/entity.go","internal/rpc2/group.go","internal/rpc2/auth.go","internal/rpc2/system.go"],
  [("readonly gate","internal/rpc2/util.go")],
  ["status codes","write operations reaching the storage backend","stored bytes"])

p("P07","Secrets and their stored hashes never leave the server",
  "No response to any request, successful or failed, contains an entity's secret or stored secret hash, and searching never lets a caller select entities by secret material. With the production secret engine the plain secret is never present in stored data, and equal secrets do not produce equal stored values.",
  ["histories","inputs"],"All request kinds returning entities or errors, all search expressions naming the secret field or guessing its value, after any history of updates.",
  "Leak-freedom is a property of every response in every state; tests look at one redacted field in one response.",
  ["internal/tree/entity.go","internal/tree/membership.go","internal/db/search.go","internal/crypto/bcrypt/bcrypt.go","internal/rpc2/entity.go"],
  [("safeCopyEntity","internal/tree/entity.go"),("search index mapping","internal/db/search.go")],
  ["every response message and error text","stored bytes"])

p("P08","Effective membership always equals what the direct memberships and rules say",
  "At every moment the members reported for a group are exactly the entities that are direct members or members of an included group, minus the members of excluded groups, and the groups reported for an entity are exactly those that list it. The answer depends only on the current direct memberships and rules, not on the order in which they were established, removed or reloaded.",
  ["histories"],"All histories of membership changes, rule additions and removals (any nesting and mixture of include and exclude), entity and group creation and destruction, and restarts.",
  "The resolver caches flattened expressions and patches them incrementally; staleness shows only in particular orders of operations, which no fixed test enumerates.",
  ["internal/mresolver/memberships.go","internal/tree/membership.go","internal/tree/group.go","internal/tree/entity.go"],
  [("SyncGroup / Resolve / resolveChanges / RemoveGroup","internal/mresolver/memberships.go"),("resolver callbacks","internal/tree/group.go")],
  ["GroupMembers","EntityGroups"],state=[("resolver caches","flattened membership expressions","internal/mresolver/type.go")])

p("P09","Group rules stay acyclic, unique per target, and exactly removable",
  "A rule is accepted only if its target exists, the target is not already named by a rule of the group, and adding it creates no cycle (including a group naming itself); otherwise the request fails and nothing changes. Removing a rule removes precisely the rule for the named target and no other, and every membership query terminates.",
  ["histories","inputs"],"All sequences of rule additions and removals over groups with arbitrary names, including names that are prefixes or substrings of each other, and every graph shape.",
  "Cycle and duplicate checks fail on particular graph shapes and name pairs; tests use a few hand-picked ones.",
  ["internal/tree/hooks/check-expansion-cycle.go","internal/tree/hooks/check-immediate-expansions.go","internal/tree/hooks/check-expansion-targets.go","internal/tree/hooks/patch-group-expansions.go","internal/tree/membership.go"],
  [("expansion checks and patching","internal/tree/hooks")],
  ["GroupUpdateRules","GroupInfo","GroupMembers"])

p("P10","Entity identity: unique names, unique automatic numbers, exact destruction",
  "Creating an entity succeeds only for an unused name, stores exactly the requested name, secret and number, and an automatically assigned number is greater than every number in use. Destroying an entity removes exactly that entity everywhere (lookup, search, memberships, authentication), operations on missing entities report that they do not exist, and a re-created entity inherits nothing from its predecessor.",
  ["histories","inputs"],"All interleaved sequences of creation with explicit and automatic numbers, destruction, re-creation and lookups, over arbitrary names, on each storage backend.",
  "Inherited state and number reuse appear only after particular multi-step histories.",
  ["internal/tree/entity.go","internal/tree/hooks/fail-on-existing-entity.go","internal/tree/hooks/set-entity-number.go","internal/tree/hooks/destroy-entity.go","internal/db/db.go","internal/rpc2/entity.go"],
  [("CREATE / DESTROY chains","internal/tree/defaults.go"),("NextEntityNumber","internal/db/db.go")],
  ["EntityCreate","EntityDestroy","EntityInfo","EntitySearch"])

p("P11","Group identity: unique names, unique automatic numbers, exact destruction",
  "Creating a group succeeds only for an unused name and a manager that exists (or is the group itself), stores exactly the requested fields, and an automatically assigned number is greater than every group number in use. Destroying a group removes exactly that group from lookups, searches and membership answers, operations on missing groups report that they do not exist, and a re-created group carries over none of its predecessor's own data.",
  ["histories","inputs"],"All sequences of group creation, destruction, re-creation and lookups with explicit and automatic numbers and arbitrary managers, on each storage backend.",
  "Same as for entities: the failures need specific multi-step histories.",
  ["internal/tree/group.go","internal/tree/hooks/fail-on-existing-group.go","internal/tree/hooks/set-group-number.go","internal/tree/hooks/set-managing-group.go","internal/tree/hooks/destroy-group.go","internal/db/db.go","internal/rpc2/group.go"],
  [("group CREATE / DESTROY chains","internal/tree/defaults.go"),("NextGroupNumber","internal/db/db.go")],
  ["GroupCreate","GroupDestroy","GroupInfo","GroupSearch"])

p("P12","Metadata updates change the named descriptive fields and nothing else",
  "Updating the metadata of an entity or group sets exactly the descriptive fields supplied in the request and leaves every other field as it was. A metadata update can never change the name, number, secret, lock state, capabilities, direct memberships, rules, keys, untyped metadata or key/value data of the object, and never affects any other object.",
  ["inputs","histories"],"All subsets of settable fields, including requests that also populate protected fields, against objects in any state.",
  "A merge silently admits any new or forgotten field; only generating requests with every field populated shows which ones leak through.",
  ["internal/tree/hooks/merge-entity-meta.go","internal/tree/hooks/merge-group-meta.go","internal/rpc2/entity.go","internal/rpc2/group.go","internal/tree/entity.go","internal/tree/group.go"],
  [("merge hooks","internal/tree/hooks/merge-entity-meta.go")],
  ["EntityUpdate","GroupUpdate","EntityInfo","GroupInfo"])

p("P13","Attribute stores behave as exact maps and sets",
  "Untyped metadata behaves as a map from key (the text before the first colon) to value with exact insert-or-replace, exact clearing and index-insensitive clearing and reading; key/value data behaves as a map where adding needs an absent key and deleting or replacing needs a present one; public keys behave as a set of type and key pairs where adding and dropping affect exactly the named pair. Every operation affects only the addressed key of the addressed object, and failed operations change nothing.",
  ["histories","inputs"],"All sequences of attribute operations on entities and groups with keys and values that share prefixes, contain separators, indices, unicode or are empty.",
  "Substring and separator confusions need specific pairs of keys that coexist on one object.",
  ["internal/tree/util/util.go","internal/tree/hooks/untyped-entity-meta.go","internal/tree/hooks/untyped-group-meta.go","internal/tree/hooks/entity-kv.go","internal/tree/hooks/group-kv.go","internal/tree/hooks/entity-keys.go","internal/tree/entity.go","internal/tree/group.go"],
  [("PatchKeyValueSlice / PatchStringSlice","internal/tree/util/util.go"),("KV hooks","internal/tree/hooks/entity-kv.go")],
  ["EntityUM","GroupUM","EntityKVGet/Add/Del/Replace","GroupKVGet/Add/Del/Replace","EntityKeys"])

p("P14","Everything acknowledged survives a restart unchanged",
  "After a restart on the same data, clean or abrupt, every acknowledged change is present and every query (details, secrets, memberships, searches, numbers handed out next) gives the same answer as before the restart. Nothing that was destroyed comes back.",
  ["histories","configurations"],"All operation histories with restarts at any point, on each persistent storage backend.",
  "In-memory views (membership resolver, search index) are rebuilt at start-up from storage by a different path than the incremental one; tests never compare the two over histories.",
  ["internal/db/callback.go","internal/db/db.go","internal/db/filesystem/filesystem.go","internal/db/bitcask/bitcask.go","internal/tree/group.go","internal/tree/entity.go","cmd/netauthd/main.go"],
  [("EventUpdateAll","internal/db/callback.go"),("persistent backends","internal/db/filesystem/filesystem.go")],
  ["all read requests before and after restart"])

p("P15","A crash at any instant leaves each record either old or new, never damaged",
  "If the server process is killed at any instant, then after restart every record is exactly what it was either before or after the request in flight, all other acknowledged changes are intact, and the store is fully usable, including creating new entities and groups with automatic numbers. No leftover of an interrupted write ever appears as an entity or group.",
  ["crash_points","histories","configurations"],"Kill points at every storage-affecting system call of mutating requests, over histories, on each persistent backend and temporary-directory placement.",
  "Tests never kill the process; atomicity is about the instants between system calls.",
  ["internal/db/filesystem/filesystem.go","internal/db/bitcask/bitcask.go","internal/db/db.go"],
  [("atomic file replacement","internal/db/filesystem/filesystem.go")],
  ["full state after restart on the surviving files"])

p("P16","Storage backends are interchangeable key/value maps",
  "Every storage backend behaves as the same map from keys to byte strings: a read returns exactly the last bytes written or a distinct not-found result, deletion removes exactly one key, listing returns exactly the live keys matching the pattern, and each successful change delivers exactly one matching change notification after it is visible. Stored values are never altered by later use of the caller's buffers in a persistent backend, and a persistent store reopened has the same contents.",
  ["histories","inputs","configurations"],"All sequences of put, get, delete and list over arbitrary names, binary and large values, compared across backends and a reference map.",
  "Each backend has its own small test; equality over arbitrary histories and keys is never compared.",
  ["internal/db/type.go","internal/db/memory/memory.go","internal/db/filesystem/filesystem.go","internal/db/bitcask/bitcask.go","internal/db/callback.go"],
  [("KVStore implementations","internal/db/type.go")],
  ["KV Put/Get/Del/Keys results","event callbacks"])

p("P17","A name only ever reaches its own record",
  "Whatever characters a name contains, a request naming an entity or group affects at most the record of that exact entity or group: it can never read, overwrite or delete a record of the other kind, another object's record, or anything outside the data directory. A name the storage cannot represent is refused with an error and has no effect.",
  ["inputs","configurations"],"All names, in particular with path separators, dot segments, empty, control and wildcard characters, in every request, on each storage backend.",
  "Path confusion needs hostile names that no test uses.",
  ["internal/db/db.go","internal/db/filesystem/filesystem.go","internal/rpc2/entity.go","internal/rpc2/group.go"],
  [("key construction","internal/db/db.go"),("cleanPath","internal/db/filesystem/filesystem.go")],
  ["stored keys and bytes after each request","files outside the store"])

p("P18","Search results always reflect the current data",
  "A search by a field value returns exactly the existing entities or groups whose current value of that field matches, each with its current contents. Objects that were changed no longer match their old values, and destroyed objects are never returned.",
  ["histories"],"All histories of creation, update, destruction, re-creation and restart followed by searches on name and descriptive fields.",
  "The index is maintained by events separately from storage; divergence appears only after histories.",
  ["internal/db/search.go","internal/db/db.go","internal/db/callback.go","internal/rpc2/entity.go","internal/rpc2/group.go"],
  [("IndexCallback","internal/db/search.go")],
  ["EntitySearch","GroupSearch"])

p("P19","Concurrent requests behave as if executed one at a time",
  "However requests overlap, their results and the final data are those of some one-at-a-time order consistent with real time: no acknowledged change is lost, exactly one of several competing creations of a name succeeds, automatically assigned numbers are never handed out twice, and authentication never undoes a concurrent change. Rule checks hold under concurrency: overlapping rule changes cannot together create a cycle.",
  ["schedules","histories"],"All interleavings of overlapping requests on the same and different entities and groups.",
  "Sequential tests contain no overlap; lost updates need two requests between load and save.",
  ["internal/tree/entity-chains.go","internal/tree/group-chains.go","internal/tree/manager.go","internal/db/db.go","internal/rpc2/entity.go","internal/rpc2/group.go"],
  [("chain execution","internal/tree/entity-chains.go")],
  ["invocation/response histories of all requests","final data"])

p("P20","Concurrent use is free of data races, crashes and deadlocks",
  "Under any mix of overlapping requests the server performs no unsynchronised access to shared memory, never crashes and never stops answering. Read requests overlapping with changes succeed whenever the objects they name exist throughout.",
  ["schedules"],"All interleavings of overlapping read and write requests of every kind, including rule changes during membership queries and creation or destruction during searches.",
  "Data races are schedule-dependent and invisible without instrumentation.",
  ["internal/mresolver/memberships.go","internal/db/db.go","internal/db/callback.go","internal/tree/membership.go","internal/db/memory/memory.go"],
  [("resolver locking","internal/mresolver/memberships.go")],
  ["race detector reports","request completion"])

p("P21","A request whose storage access fails reports failure and changes nothing",
  "If the storage backend fails, or returns a record that cannot be decoded, while a request loads or saves the object it addresses, the request reports an error, and afterwards stored data and all query answers are the same as if it had never been made. A storage failure is never mistaken for absence: it can never cause an existing record to be replaced or an existing object to be reported as missing, and once storage works again so does the server, without being restarted.",
  ["fault_sequences","histories"],"All request kinds with a failure injected at each storage access the request makes, for transient and persistent failures, after any history.",
  "Tests inject failures on two magic names; the guarantee covers each access of each request.",
  ["internal/db/db.go","internal/tree/hooks/fail-on-existing-entity.go","internal/tree/hooks/fail-on-existing-group.go","internal/tree/hooks/save-entity.go","internal/tree/hooks/save-group.go","internal/rpc2/entity.go","internal/rpc2/group.go"],
  [("load/save error propagation","internal/db/db.go")],
  ["status codes","state after the fault is lifted"])

p("P22","Bootstrap grants superuser authority once, to one entity, at start-up only",
  "Bootstrapping creates the named entity, or takes over the existing one without losing its other data, giving it the offered secret, the superuser capability and an unlocked state. It has an effect at most once per server lifetime and none after start-up has finished, whether or not the first attempt succeeded.",
  ["histories","inputs"],"All prior states of the named entity, all repetition orders of bootstrap and its disabling, all names and secrets including those containing separators.",
  "Tests bootstrap one empty server.",
  ["internal/tree/entity.go","internal/tree/hooks/create-entity-if-missing.go","cmd/netauthd/main.go"],
  [("Bootstrap / DisableBootstrap","internal/tree/entity.go")],
  ["entity state and authentication after start-up"])

p("P23","Extension hooks run at their documented points and fail closed",
  "When plugins are enabled, each lifecycle action calls the corresponding plugin entry point exactly once per loaded plugin, pre-checks before and post-checks after the built-in step, and changes a plugin makes to the object are what gets stored. If a plugin returns an error or is gone the request fails and nothing is stored; plugins see the objects exactly as they are, and with no plugin loaded behaviour is the same as with plugins disabled. A request in progress when the server is told to stop is completed with its plugins and kept; plugins end with the server.",
  ["histories","configurations","fault_sequences"],"All lifecycle actions with zero, one or several plugins that observe, modify or reject, in any combination.",
  "Existing tests run hooks against mocks; ordering, persistence and failure need real plugins across the process boundary.",
  ["internal/plugin/tree/manager/manager.go","internal/plugin/tree/manager/hook.go","internal/plugin/tree/manager/chains.go","internal/plugin/tree/common/interface.go","internal/plugin/tree/provider/main.go","internal/tree/entity-chains.go","internal/tree/group-chains.go"],
  [("plugin manager","internal/plugin/tree/manager/manager.go"),("hook priorities","internal/plugin/tree/common/interface.go")],
  ["plugin call log","stored data"])

p("P24","Copying a database copies every record, and only when asked to",
  "The database copy utility leaves the target with byte-identical copies of every source record, keeps unrelated target records unless truncation was requested, and in truncation mode leaves exactly the source's records; if a record of the source cannot be read the others are still copied and the exit status tells of it. Without the explicit confirmation flag it changes nothing, and the source is never changed.",
  ["inputs","configurations"],"All source and target contents, all backend pairs and flag combinations.",
  "The utility has no tests; the guarantee ranges over arbitrary database contents.",
  ["cmd/nsutil/db_copy.go","internal/db/kv.go"],
  [("copy command","cmd/nsutil/db_copy.go")],
  ["contents of both stores before and after"])

p("P25","The client library says what the server said",
  "Each client library call sends the request its arguments describe, in the name of the client and service it was given, and returns exactly what the server answered: same effects, same data, same success or failure, values in index order, whatever characters the arguments contain. Token caches return exactly the token last stored for that owner, or report that none is stored, and keep tokens where other users of the machine cannot read them.",
  ["inputs","histories"],"All client calls with all argument values against servers in any state, each token cache implementation.",
  "The client has almost no tests, and none against a real server.",
  ["pkg/netauth/entity.go","pkg/netauth/group.go","pkg/netauth/auth.go","pkg/netauth/system.go","pkg/netauth/util.go","pkg/netauth/cache/fs/fs.go","pkg/netauth/cache/memory/memory.go"],
  [("client calls","pkg/netauth"),("parseKV","pkg/netauth/util.go")],
  ["client call results vs. direct server state"])

p("P26","No request can crash or wedge the server",
  "No sequence of requests, however malformed (absent or partial messages, unknown enumeration values, hostile strings, absent or repeated credentials), terminates the server process or stops it from answering later requests. A malformed request yields an error and changes nothing.",
  ["inputs","histories"],"All request kinds with all field-presence combinations and extreme values, with and without authority.",
  "Tests always send fully populated messages.",
  ["internal/rpc2/entity.go","internal/rpc2/group.go","internal/rpc2/auth.go","internal/rpc2/system.go","internal/tree/hooks/helpers.go","internal/tree/entity.go"],
  [("request handlers","internal/rpc2")],
  ["process liveness and status codes"])

p("P27","Signing keys are handled safely",
  "Generated signing keys are written so that only the owner can read the private key, exactly once and only when generation is enabled; existing keys are never overwritten. The token service refuses to start with a missing, unreadable, malformed or wrongly-permissioned public key, never issues a token without a private key, and tokens it issues verify against the public key on disk.",
  ["configurations","fault_sequences"],"All combinations of presence, contents, type and permissions of the two key files, generation flag and sizes.",
  "Tests cover a few hand-made directories; the decision table is larger.",
  ["internal/token/jwt/rsa.go"],
  [("GetKeys / generateKeys / checkKeyModeOK","internal/token/jwt/rsa.go")],
  ["construction result, files and modes, issue/verify results"])

p("P28","Server status reports failure exactly when some subsystem fails",
  "The reported server status is healthy if and only if every registered subsystem check passes, lists each registered check exactly once with its own verdict, and on failure names a subsystem that is really failing. A later registration never replaces an existing check.",
  ["configurations","inputs"],"All sets of subsystem checks with all pass/fail combinations.",
  "Tests register one or two checks.",
  ["internal/health/health.go","internal/rpc2/system.go"],
  [("health.Check / Proto","internal/health/health.go")],
  ["SystemStatus response"])

p("P29","Capability changes affect exactly one capability of one holder",
  "Granting or removing a capability on an entity or group changes exactly that capability of exactly that holder: grants are idempotent, removals remove it completely, and unknown capabilities, unknown targets or requests naming neither are refused without effect. Capabilities change by no other request.",
  ["histories","inputs"],"All sequences of grants and removals over all capabilities, entity and group holders that share names, with all other requests interleaved.",
  "Entity and group holders may share a name and capability zero is a valid value; tests use one capability on one holder.",
  ["internal/rpc2/system.go","internal/tree/hooks/entity-capabilities.go","internal/tree/hooks/group-capabilities.go","internal/tree/hooks/helpers.go","internal/tree/entity.go","internal/tree/group.go"],
  [("SystemCapabilities","internal/rpc2/system.go"),("capability hooks","internal/tree/hooks/helpers.go")],
  ["SystemCapabilities","EntityInfo","GroupInfo"])

p("P30","The daemon and command line tool preserve these guarantees end to end",
  "Running the real daemon and the real command line tool, each command performs on the server exactly the change its documentation describes and reports success only if the server accepted it (non-zero exit otherwise). Configuration is honoured: read-only mode, data directory, token lifetime and start-up superuser; a data directory survives stopping and restarting the daemon by signal, and the daemon answers completely from the first request it answers after a start.",
  ["histories","configurations","inputs"],"All commands over histories of operations, with daemon restarts and configuration changes in between.",
  "No test ever starts the daemon or the tool.",
  ["cmd/netauthd/main.go","cmd/netauth/main.go","internal/ctl","pkg/netauth"],
  [("daemon start-up","cmd/netauthd/main.go"),("command line","internal/ctl/root.go")],
  ["process exit status, output, and server state read back"])

p("P31","Repeated failures lock an entity out, and only that one",
  "With the fail2lock plugin loaded, once an entity has failed to authenticate the configured number of times within the configured interval, further authentications of it are refused even with the right secret, until enough of those failures are older than the interval or its metadata key fail2lock is set to RESET (which is removed by the next success). A success forgets earlier failures; failures of other entities never count; settings not given have their defaults (3 failures, 15 minutes). The plugin changes nothing else and keeps running whatever entities authenticate, also at the same time.",
  ["histories","schedules","configurations"],"All sequences of right and wrong secrets over several entities with any spacing in time, metadata changes, locks and restarts in between, any configuration, overlapping authentications.",
  "The plugin has no tests at all; its guarantees concern time, histories, overlap and configurations.",
  ["plugins/tree/fail2lock/main.go","internal/tree/entity.go","internal/plugin/tree/manager/hook.go"],
  [("fail2lock","plugins/tree/fail2lock/main.go")],
  ["authentication outcomes","stored metadata","race reports of the plugin"])

p("P32","Nothing crosses an unprotected or unproven connection",
  "Unless transport security is explicitly switched off, the daemon answers nothing over an unprotected connection and does not start without a certificate and key it can use. The client library and the command line tool talk only to a server that proves to be the one the configured certificate vouches for, for reads and for changes sent to another server alike: with any other server, or without a usable certificate, every call fails and no request, secret or token leaves the client; with the right server every call works and nothing of it can be read on the wire.",
  ["inputs","configurations"],"All states of the certificate and key files, every kind of impostor (in the clear, silent, foreign, self-made, expired, early or misnamed certificate) in either place, every call of the library and commands of the tool.",
  "Unit tests have no listening server with transport security and no impostor; a fall-back to an unprotected connection is invisible to every functional test.",
  ["cmd/netauthd/main.go","pkg/netauth/netauth.go","internal/ctl/root.go"],
  [("newGRPCServer","cmd/netauthd/main.go"),("connect / makeWritable","pkg/netauth/netauth.go")],
  ["results of calls","requests and bytes arriving at impostors","bytes on a recorded connection","exit of the daemon"])

p("P33","Logs and terminal output hold no secrets",
  "Nothing that the server, the command line tool or the store utility writes to its log or output, at any log level, shows a secret that was offered or set, the stored form of a secret, a token or a private key - in full or in recognisable part, encoded or not. That holds for requests that succeed, fail or make no sense, with either secret engine and any store, with storage failures, damaged records, unusable keys and plugins, and during start-up, bootstrapping and prompting.",
  ["inputs","histories","faults","configurations"],"All requests and commands with any secrets and tokens, all failures of storage, all log levels, stores and engines.",
  "No test reads the log; a message that reveals a secret changes no answer.",
  ["internal/rpc2/auth.go","internal/rpc2/entity.go","internal/db/db.go","internal/token/jwt/rsa.go","internal/crypto/bcrypt/bcrypt.go","internal/tree/entity.go","cmd/netauthd/main.go","internal/ctl/auth-changesecret.go","plugins/tree/fail2lock/main.go"],
  [("log statements","internal/rpc2/auth.go"),("command output","internal/ctl/auth-changesecret.go")],
  ["log at level TRACE","output of the processes"])

p("P34","One client serves many goroutines",
  "A client object of the library, and a token cache, may be used by any number of goroutines at once: there is no data race and no crash, every call has the effect and the answer it would have if its goroutine were alone with its objects, calls that change data reach the server for changes, also while others use the one for reading, and a token cache behaves as if its operations were made one at a time, also when several programs share it.",
  ["schedules","histories"],"All schedules of any number of goroutines using one client, with one server or a separate one for changes, and of operations on a token cache.",
  "No test uses a client at all, or a cache from more than one goroutine; a race shows only in particular schedules.",
  ["pkg/netauth/netauth.go","pkg/netauth/entity.go","pkg/netauth/group.go","pkg/netauth/auth.go","pkg/netauth/cache/memory/memory.go","pkg/netauth/cache/fs/fs.go"],
  [("connection handling","pkg/netauth/netauth.go"),("token caches","pkg/netauth/cache/memory/memory.go")],
  ["answers of the shared client","answers of the caches","race detector"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
