#!/usr/bin/env python3
"""Write MANIFEST.json from the table of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "reference-model monitor over seeded request histories on the real server (all three storage backends, restarts)"
T = {
 "P01": (SEQ, "exploration", "After every request of each history, the current, previous, foreign, prefix and variant secrets are tried on every entity with both secret engines."),
 "P03": (SEQ + "; claims of every issued token read back and exercised", "exploration", "Tokens issued after every request and compared with direct plus effective group capabilities; each token is then used against one probe per capability."),
 "P04": ("monitor of every request kind under a full matrix of credentials, plus random histories, with byte comparison of the store around each refusal", "exploration", "Request kind x credential kind x capability exhausted on a populated server; histories sampled."),
 "P05": (SEQ + "; delegated credentials", "exploration", "Manager relations, including nested and rule-derived ones, change during the histories."),
 "P06": ("byte-comparison monitor of the store under every request kind on read-only servers, and paired writable server comparison", "exploration", "All request kinds with all credentials; states sampled."),
 "P08": (SEQ, "exploration", "Every membership answer after every request of each generated history is compared with a reference recomputed from direct memberships and rules; histories sampled, not exhausted."),
 "P09": (SEQ, "exploration", "Every rule request's outcome and every stored rule set is compared with the reference; graphs of up to 8 groups."),
 "P10": (SEQ, "exploration", "Creation, numbering and destruction outcomes and full object listings compared with the reference after every request."),
 "P11": (SEQ, "exploration", "As P10, for groups."),
 "P12": (SEQ, "exploration", "Full audit of all objects after every update, with requests that also populate protected fields."),
 "P13": (SEQ, "exploration", "Attribute stores compared as exact maps and sets after every request."),
 "P29": (SEQ, "exploration", "Capability sets of all holders compared after every request, plus an exhaustive table of malformed and unknown-target requests."),
 "P02": ("acceptance monitor over genuine, damaged, forged, foreign, expiring and not-yet-valid tokens at four verifiers, including windows that open and close in real time", "exploration", "Every single-bit change of some tokens; forgery classes listed in DESIGN.md; windows sampled."),
 "P07": ("leak monitor: every answer, search and stored byte scanned for every secret and stored value used in the run", "exploration", "Random histories with unique secrets under both engines."),
 "P22": (SEQ + "; start-up attempts interleaved, with storage faults", "exploration", "Bootstrap attempts before, after and between others, for known, locked, fresh and unstorable names."),
 "P27": ("file-system monitor over a matrix of key file states, all permission modes, umasks and overlapping starts; tokens verified independently against the key on disk", "exploration", "24 public x 12 private states x generation flag exhausted; all 511 other modes of the public key."),
 "P14": (SEQ + "; complete snapshot of stored bytes, answers, searches, secrets, tokens and next numbers compared across each restart", "exploration", "Clean, abrupt and repeated restarts at random points of histories on both persistent backends, some with enough data for several data files."),
 "P15": ("crash monitor: a child server is stopped before every file-changing system call (seccomp notification), the data as a kill would leave it is captured, restarted on and compared with the states before and after the request in flight; some children really killed; second lives", "exploration", "Every instant between file-changing system calls of sampled histories, plus page-cut long writes, start-up and shut-down, on both persistent backends."),
 "P16": ("reference-map monitor over operation sequences on each backend with reopening, buffer reuse, odd names, listing patterns and change notifications", "exploration", "Random sequences over hostile names, values up to 1 MB, clean and abrupt reopening; unreadable directories."),
 "P17": ("directory-tree and byte-comparison monitor around requests naming hostile names, on all backends", "exploration", "Traversal, prefix, kind-confusing, control-character and over-long names against every request that takes one; the whole parent directory is compared around each."),
 "P18": ("reference-search monitor: every field value ever held by an object searched for after each change and compared with the model", "exploration", "Searches over the documented fields on every backend, with creation, change, destruction and restarts interleaved; histories sampled."),
 "P19": ("linearizability checker (porcupine) over recorded concurrent histories with injected delays at the storage boundary; conservation, single-winner and single-writer window monitors; built with the race detector", "exploration", "Histories of 4 to 7 clients with about 25 requests, sampled over all request kinds that change data, three backends; delays at every storage access."),
 "P20": ("Go race detector, crash and progress watchdogs, and invariant monitors on untouched objects under 8 to 12 concurrent clients with injected delays", "exploration", "All request kinds at once on three backends; storage, token and status services on their own; schedules sampled."),
 "P21": ("fault-injection monitor at the storage interface: each access of each request fails in turn, answers and complete state compared with the model", "exploration", "Every access of each request of sampled histories, five ways of failing, eight kinds of error, three backends; faults while reloading after a store are judged on stored data."),
 "P24": ("monitor comparing both stores, record by record, around runs of the real utility with every flag combination, damaged, read-only, missing and in-use stores, and the answers of a server started on the copy", "exploration", "Random contents with hostile names and values, both directions; the memory backend is not part of the utility."),
 "P25": ("runtime monitoring: histories of requests sent through the real client library to a real server on the loopback network; effects judged by a reference model, returned data by differential comparison with the server asked directly; token caches by a map model", "exploration", "every call of the library, with reads compared item by item; long value lists with equal, absent and negative indexes; read-only server plus master; servers that refuse everything; numbers and words outside the wire format; both token caches under hostile owner names"),
 "P26": ("network monitor: malformed, damaged, oversized, overlapping and abandoned requests against the real server over loopback, with liveness probes and byte comparison of the store around each", "exploration", "Every field of a well-formed request of every kind replaced in turn by absent, unknown and hostile values (exhaustive over that table); random messages, bytes, credentials, search expressions and connection noise sampled."),
 "P30": ("the real daemon and command line tool as processes: every command against a reference model, with restarts by signal", "exploration", "Random command histories on both stores with restarts by SIGTERM, SIGINT and SIGKILL, read-only phases, configuration cases, prompts, token caches and overlapping commands."),
 "P23": ("plugin processes that record every call, change and refuse, against a reference model of the chains", "exploration", "The real daemon with none to three plugin processes found or listed in every way, in random histories of requests on both stores: plugins observe, mark, set, clear, lock, refuse, die; overlapping requests and stops."),
 "P31": ("the shipped plugin under the race detector in the real daemon, every authentication against a reference of failures on record", "exploration", "Random histories of right and wrong secrets, resets, locks, secret changes, waits, restarts, over configurations and both stores; overlapping authentications of different entities."),
 "P32": ("recording impostor servers and relays watching what leaves the real client library, tool and daemon", "exploration", "Seven kinds of impostor in both places x every call of the library; five unusable certificates x every call; ten unusable certificate and key states of the daemon; recorded connections to the right one."),
 "P33": ("leak monitor over the complete log at level TRACE and all output: every ten characters of every secret, stored secret, token and key known in the run are searched for, also in hexadecimal, base64, byte lists and plain digests", "exploration", "Random requests, well-formed or not, with storage faults, damaged records, restarts and bootstraps on every store and engine; the daemon, the tool, nsutil and fail2lock as processes."),
 "P34": ("race detector over goroutines sharing one client, each judged against a model of its own objects; linearizability of recorded token cache histories (porcupine)", "exploration", "4-10 goroutines on one client, with one server or a read-only one and a separate master, two stores, storage delays; 2-7 goroutines on each token cache."),
 "P28": ("monitor of registered checks with changing verdicts against library, request and text status", "exploration", "Random registrations, duplicates and verdicts, including the real signing key check."),
}
exec(open(os.path.join(V, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_extra.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.py --setup",
     "checks": [], "not_applicable": [],
     "notes": "Checks build the harness (overlaid into the module) together with /repo's current working tree; no hooks are added to /repo. VMON_VERBOSE=1 prints violations as they are found."}
for p in props:
    i = p["id"]
    if i in T:
        t, l, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.py %s quick" % i, "thorough_cmd": "./run.py %s thorough" % i,
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks")
