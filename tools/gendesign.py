#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
k = json.load(open(V + "/known_findings.json"))
rows = ["| property | commit | what failed |", "|---|---|---|"]
for f in k["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f, re.S)
    rows.append("| %s | %s | %s |" % (m[1], m[2], m[3].replace("|", "\\|")))
rows += ["", "Not repaired:", ""]
for f in k["findings"]:
    rows.append("* %s `%s`: %s" % (f["property"], f["key"], f["what"]))
def put(tag, text):
    global d
    d = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (tag, tag), lambda m: m[1] + text + "\n" + m[2], d, flags=re.S)
put("fixes", "\n".join(rows))
rows = ["| change | breaks | what it does | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
put("seeds", "\n".join(rows))
open(V + "/DESIGN.md", "w").write(d)
