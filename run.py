#!/usr/bin/env python3
"""Build the monitoring harness from /repo's working tree and run one check.

usage: run.py PROPERTY [quick|thorough] [extra harness flags]
exit: 0 held, 1 VIOLATION line printed, 2 could not decide
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VMON_REPO", "/repo")
RACE = {"P19", "P20", "P34"}                  # run under the race detector
BINS = {                               # further programs a check runs
    "P23": ["plugin", "netauthd"], "P24": ["nsutil"], "P30": ["netauthd", "netauth"], "P31": ["netauthd", "fail2lock"], "P32": ["netauthd", "netauth"], "P33": ["netauthd", "netauth", "nsutil", "fail2lock"],
}

def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOSUMDB="off", GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOFLAGS="", GOWORK="off")
    if os.environ.get("VMON_REPO") is None:
        e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache", "go-build"))
    return e

def build(scratch, prop):
    mod = os.path.join(scratch, "m.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "m.sum"))
    with open(mod, "a") as f:
        f.write("\nrequire github.com/anishathalye/porcupine v1.3.1\n")
    with open(os.path.join(scratch, "m.sum"), "a") as f:
        f.write(open(os.path.join(VERIF, "harness", "extra.sum")).read())
    rep = {}
    for f in glob.glob(os.path.join(VERIF, "harness", "*.go")):
        rep[os.path.join(REPO, "internal/zvmon", os.path.basename(f))] = f
    for d in glob.glob(os.path.join(VERIF, "harness", "cmd", "*")):
        for f in glob.glob(os.path.join(d, "*.go")):
            rep[os.path.join(REPO, "internal/zvmon", os.path.basename(d), os.path.basename(f))] = f
    ov = os.path.join(scratch, "o.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    base = ["go", "build", "-mod=mod", "-modfile=" + mod, "-overlay", ov]
    jobs = [base + (["-race"] if prop in RACE else []) + ["-o", os.path.join(scratch, "vmon"), "./internal/zvmon"]]
    for b in BINS.get(prop, []):
        pkg = "./cmd/" + b
        if b == "plugin":
            pkg = "./internal/zvmon/plugin"
        if b == "fail2lock":
            pkg = "./plugins/tree/fail2lock"
        jobs.append(base + (["-race"] if b == "fail2lock" else []) + ["-o", os.path.join(scratch, b), pkg])
    for j in jobs:
        p = subprocess.run(j, cwd=REPO, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("build failed:", " ".join(j))
            print(p.stdout[-6000:])
            return False
    return True

def reap(scratch):
    """End the plugin processes that a killed daemon left behind."""
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                if os.readlink("/proc/%s/exe" % d).startswith(scratch + "/"):
                    os.kill(int(d), 9)
            except OSError:
                pass


def main():
    if sys.argv[1] == "--setup":
        scratch = tempfile.mkdtemp(prefix="vmon-setup-")
        try:
            return 0 if build(scratch, "P08") else 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = sys.argv[1]
    rest = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    seed = os.environ.get("VERIF_SEED", "1")
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (2 << 30) else None
    scratch = tempfile.mkdtemp(prefix="vmon-%s-" % prop, dir=base)
    try:
        os.chmod(scratch, 0o755)
        t = time.time()
        if not build(scratch, prop):
            return 2
        print("built in %.1fs" % (time.time() - t), flush=True)
        e = env()
        e["TMPDIR"] = os.path.join(scratch, "tmp")
        os.mkdir(e["TMPDIR"])
        cmd = [os.path.join(scratch, "vmon"), "-prop", prop, "-tier", tier, "-seed", seed, "-verif", VERIF,
               "-repo", REPO, "-scratch", scratch, "-bin", scratch] + rest
        p = subprocess.Popen(cmd, cwd=scratch, env=e, start_new_session=True)
        try:
            return p.wait()
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            reap(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

sys.exit(main())
