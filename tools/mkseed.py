#!/usr/bin/env python3
"""Plant the changes described in tools/seeds/*.py: writes seeded/<id>/.

Each description file defines SEEDS, a list of dicts: id, prop, needs,
breaks, edits [(file, old, new)], demo (Go test body), imports, flags.
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
only = set(sys.argv[1:])

def write(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    # patch
    a = tempfile.mkdtemp()
    out = ""
    files = {}
    for f, old, new in s["edits"]:
        src = files.get(f) or open(os.path.join(REPO, f)).read()
        assert src.count(old) == 1, (s["id"], f, src.count(old), old)
        files[f] = src.replace(old, new)
    for f, txt in sorted(files.items()):
        p = os.path.join(a, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(txt)
        if f.endswith(".go"):
            g = subprocess.run(["gofmt", "-l", p], stdout=subprocess.PIPE, text=True)
            assert not g.stdout, ("gofmt", s["id"], f, subprocess.run(["gofmt", "-d", p], stdout=subprocess.PIPE, text=True).stdout)
        q = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, os.path.join(REPO, f), p], stdout=subprocess.PIPE, text=True)
        out += "diff --git a/%s b/%s\n" % (f, f) + q.stdout
    shutil.rmtree(a)
    open(os.path.join(d, "patch.diff"), "w").write(out)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "src" in s:  # a test inside another package
        open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(V, "tools/seedlib/demo.sh")).read().replace("@FLAGS@", s.get("flags", ""))
            .replace("P=internal/zdemo\n", "P=%s\n" % s["pkg"])
            .replace('"%s/%s/util_test.go": "%s/util_test.go", "%s/%s/demo_test.go": "%s/demo_test.go"', '"%s/%s/zdemo_test.go": "%s/demo_test.go"')
            .replace('"$PWD" "$P" "$D" "$PWD" "$P" "$D"', '"$PWD" "$P" "$D"').replace("./demo -test", "./demo -test.run TestDemo -test"))
        open(os.path.join(d, "demo_test.go"), "w").write(s["src"].lstrip())
        subprocess.run(["gofmt", "-w", os.path.join(d, "demo_test.go")], check=True)
    elif "demo_sh" in s:
        open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(V, "tools/seedlib/demo.sh")).read().replace("@FLAGS@", s.get("flags", "")))
        shutil.copy(os.path.join(V, "tools/seedlib/util_test.go"), d)
        std = ["testing"] + [i for i in s.get("imports", []) if "." not in i.split("/")[0]]
        ext = [i for i in s.get("imports", []) if "." in i.split("/")[0].strip('_ "')]
        body = s["demo"]
        src = "package zdemo\n\nimport (\n" + "".join('\t"%s"\n' % i for i in std)
        if "types." in body:
            ext.append('github.com/netauth/protocol|types')
        if "pb." in body:
            ext.append('github.com/netauth/protocol/v2|pb')
        for i in ext:
            n = i.split("|")
            src += '\t%s"%s"\n' % (n[1] + " " if len(n) > 1 else "", n[0])
        src += ")\n\n" + body.strip() + "\n"
        open(os.path.join(d, "demo_test.go"), "w").write(src)
        subprocess.run(["gofmt", "-w", os.path.join(d, "demo_test.go")], check=True)
    for n, t in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)

for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
    for s in runpy.run_path(f)["SEEDS"]:
        if not only or s["id"] in only:
            write(s)
            print("wrote", s["id"])
