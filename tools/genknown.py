#!/usr/bin/env python3
"""Write known_findings.json: open findings, and what was repaired."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIND = []
exec(open(os.path.join(V, "tools", "findings.py")).read())
FIX = {
 "a server that cannot start ends": ("P23", "a server that gave up starting (address in use, unusable certificate, ...) after loading its plugins left them running"),
 "a bitcask store keeps empty": ("P16", "a value that is empty was gone after reopening a bitcask store, and one equal to its marker of removed values read as not found"),
 "group metadata update no longer": ("P12", "a group metadata update replaced the group's capabilities, rules, untyped metadata and key/value data"),
 "entity metadata update no longer": ("P12", "an entity metadata update changed the lock state and key/value data"),
 "a group rule conflicts only": ("P09", "a rule was refused because another rule's target merely contained the name"),
 "a group rule may not name": ("P09", "a group could include or exclude itself"),
 "dropping a group rule": ("P09", "removing the rule for one group removed rules for every group whose name contains it"),
 "public keys are added": ("P13", "adding or dropping a public key matched by substring"),
 "only a trailing index": ("P13", "an index anywhere in a metadata key was ignored when clearing and reading"),
 "the membership resolver forgets": ("P08", "removed rules kept blocking later rules as dependencies and could crash the resolver"),
 "destroyed groups stop": ("P08", "a destroyed group kept contributing members to groups that include it"),
 "the membership resolver synchronises": ("P20", "unsynchronised access and crash when group changes overlap membership queries"),
 "members of a managing group": ("P05", "delegated management was never honoured because the claims were not carried"),
 "a membership request naming several": ("P04", "a refused membership request could already have changed earlier groups"),
 "requests without an entity": ("P26", "a request with no entity or group message crashed the server"),
 "creating over a record": ("P21", "a storage failure while checking for an existing record let creation replace it"),
 "writes after a clean close": ("P14", "a bitcask store cleanly closed, reopened, written and killed lost the later writes"),
 "storage backends report": ("P16", "bitcask reported every read failure as not found; deleting an absent key succeeded"),
 "names that cannot be stored": ("P17", "names with separators or dots reached other records or files"),
 "a write interrupted in the filesystem": ("P15", "an interrupted write left a temporary file that was listed as a record"),
 "records are listed whatever": ("P16", "a data directory with glob characters listed no records"),
 "objects removed by an overlapping": ("P20", "a query overlapping a destruction failed; automatic numbers wrapped to negative"),
 "the groups of an entity never": ("P20", "a group destroyed during the query appeared as an empty entry"),
 "overlapping changes to the same": ("P19", "overlapping changes lost updates, duplicated numbers and created cycles"),
 "changing one's own secret": ("P19", "two overlapping self-service secret changes could both succeed with the same old secret"),
 "the whole of a secret": ("P01", "secrets longer than 72 bytes were accepted on their first 72 bytes"),
 "overlapping requests for a token": ("P20", "unsynchronised access to the default token lifetime"),
 "generating signing keys never": ("P27", "generating keys overwrote an existing private key when only the public key was missing"),
 "a private key that does not belong": ("P27", "a private key not matching the public key was used, so every issued token was rejected"),
 "generated keys can be loaded": ("P27", "with umask 027 or 077 the generated public key had a mode with which the next start refused it"),
 "copying a database onto itself": ("P24", "copying a database onto itself with truncation destroyed it; copy errors were not reported by the exit status"),
 "bitcask stores are not opened": ("P16", "a bitcask store in a directory with glob characters in its path was empty after reopening"),
 "a bitcask store interrupted": ("P15", "a kill while a bitcask store was being opened or a record written left files with which it never opened again"),
 "overlapping deletions of a record": ("P20", "two overlapping deletions of one record on the filesystem backend: the later one failed with an internal error"),
 "deleting records from a bitcask store": ("P16", "creating e.g. n, n0 to n9 and deleting them again crashed the server on the bitcask backend (nil dereference in the third-party radix tree), and again on every later start"),
 "a cached token is replaced at once": ("P25", "a token was written into the file already there: with the permissions that file had (a file or link placed in the shared temporary directory exposed the token), and a command reading it meanwhile got an empty or partial token"),
  "keep a bitcask store usable": ("P21", "after one write that failed (no room left) a bitcask store refused every later change until the server was restarted"),
 "no token is issued when the capabilities": ("P21", "a token requested while storage failed was issued with only some of the capabilities the entity holds"),
 "a rule change with an undefined action": ("P26", "a group rule request with an undefined rule action removed the rule for the target"),
 "capabilities that are not defined": ("P26", "a capability number that is not defined was stored on the entity or group"),
 "the client returns the values of an indexed key": ("P25", "reading the untyped metadata key \"k{0}\" through the client returned no values although the server answered them"),
 "the client returns keys whatever the case of the type": ("P25", "reading keys of type \"ssh\" through the client returned none although keys are stored (types are stored in upper case)"),
 "the client keeps the order of values of equal index": ("P25", "more than 12 values, some of equal index, came back from the client in scrambled order"),
 "the client accepts the actions and capabilities": ("P25", "the client refused \"add\" and lower-case capability names in SystemCapabilities, which the command line tool documents and every other call accepts"),
 "the client refuses numbers that the wire": ("P25", "EntityCreate and GroupCreate with number 4294967295 were sent with number -1 (automatic), other large numbers were truncated likewise"),
 "the client lists exactly the groups that a group": ("P25", "GroupInfo of \"a b\" listed groups managed by nobody, and of \"g:p\" listed none, because the name went into a search expression unquoted"),
 "cached tokens of different owners are kept apart": ("P25", "the token cached for owner \"x/../a\" was returned for owner \"a\", and tokens could be written outside of the cache directory"),
 "the tool reports a refused command line": ("P30", "netauth with an unknown command or refused arguments exited with status 0"),
 "clients without token keys no longer panic": ("P30", "without token.pem on the client, every command using a cached token and inspect-token crashed with a nil dereference"),
 "the secret of the requestor is not taken": ("P30", "entity create without --initial-secret, or with an empty one, gave the new entity the secret of the requestor; change-secret likewise reused --secret for the new secret instead of asking"),
 "status requests no longer crash the server when a plugin": ("P23", "with a plugin that could not be started, any status request crashed the server"),
 "plugin errors without a message": ("P23", "a plugin refusing with an error whose message is empty was taken for success and its result stored"),
 "plugins receive and return objects unaltered": ("P23", "with any plugin loaded, fields with zero values were dropped: a group created with number 0 had no number and could not be found by it"),
 "fail2lock no longer crashes on entities without metadata": ("P31", "the authentication of any entity that never had metadata set killed the plugin, after which no entity could authenticate or be changed"),
 "fail2lock uses the default": ("P31", "with only allowed_fails configured the interval was zero and nothing was ever locked out; with only interval configured every authentication was refused"),
 "memory store no longer writes": ("P33", "at log level TRACE the memory store wrote every stored record, with the stored secret, to the log"),
 "a client may be used by several": ("P34", "the first change made through a client with a separate master replaced the connection while other goroutines used it: a data race"),
 "fail2lock copes with overlapping": ("P31", "overlapping authentications of different entities raced on the table of failures and could crash the plugin"),
 "tokens are not issued for names": ("P02", "a token issued to an entity whose name is not valid UTF-8 (such as ff) read back as the entity named U+FFFD, and gave its bearer that entity's self-service rights"),
 "a token that could not be signed": ("P27", "with a key pair too short for RS512 signatures a token request succeeded with an empty token"),
 "membership answers never mix": ("P19", "while a rule change was being applied, queries could report entities as members of groups they belonged to neither before nor after"),
 "an entity is not replaced": ("P19", "overlapping destruction and creation, changing one's own secret with the old secret could change the secret of the new entity of that name"),
 "records that cannot be listed": ("P16", "an unreadable directory was listed as an empty store"),
}
FIX.update(globals().get("MOREFIX", {}))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    for k, (p, w) in FIX.items():
        if s.startswith("fix: " + k):
            fixed.append("fixed: property=%s %s %s" % (p, h, w))
            break
    else:
        raise SystemExit("no entry for " + l)
json.dump({"findings": FIND, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
open(os.path.join(V, "known_findings.json"), "a").write("\n")
