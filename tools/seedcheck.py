#!/usr/bin/env python3
"""seedcheck.py [--all] [ID...]   verifies planted bugs of /verif/seeded in scratch copies: applies, builds, passes the tests,
demo 0 without / nonzero with the patch, and which checks (its own property's; --all: every check) report it."""
import os, subprocess, sys, json, shutil, re
from concurrent.futures import ThreadPoolExecutor
root = "/verif/seeded"
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(root))
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOENV="off", GOPATH="/root/go", GOCACHE="/tmp/mut-cache", VERIF_SEED="1", VERIF_TIER="quick")
P = ["./...", "./_examples/csv/...", "./_examples/formula/...", "./_examples/torpn/..."]
RACE = {"C17", "C20", "C21"}
def sh(cmd, cwd, t=900, e=env):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, errors="replace", timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"
def one(i):
    d = "/tmp/seed/" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/tmp")
    try:
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(root + "/" + i, d + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        meta = json.load(open(root + "/" + i + "/meta.json"))
        rc, o = sh(["timeout", "300", "bash", d + "/demo/demo.sh"], d + "/repo")
        if rc: return i, "DEMO FAILS ON CLEAN: " + o[-400:]
        rc, o = sh(["git", "apply", root + "/" + i + "/patch.diff"], d + "/repo")
        if rc: return i, "PATCH DOES NOT APPLY " + o
        rc, o = sh(["go", "build"] + P, d + "/repo")
        if rc: return i, "NO BUILD " + o
        rc, o = sh(["go", "test", "-vet=off", "-count=1"] + P, d + "/repo")
        if rc: return i, "TESTS FAIL " + o[-600:]
        rc, o = sh(["timeout", "300", "bash", d + "/demo/demo.sh"], d + "/repo")
        if rc == 0: return i, "DEMO PASSES WITH PATCH"
        demo = o.strip().splitlines()[-1][:150] if o.strip() else ""
        shutil.copytree("/verif/harness", d + "/harness")
        for f, a, b in [("go.mod", "=> /repo", "=> " + d + "/repo"), ("props_ex.go", '"/repo"', '"' + d + '/repo"')]:
            g = open(d + "/harness/" + f).read().replace(a, b); open(d + "/harness/" + f, "w").write(g)
        bins, res = {}, []
        for c in ["C%02d" % k for k in range(1, 32)] if every else [meta["property"]]:
            race = c in RACE
            if race not in bins:
                b = d + "/vrun" + str(int(race))
                rc, o = sh(["go", "build", "-buildvcs=false"] + (["-race"] if race else []) + ["-o", b, "."], d + "/harness")
                if rc: return i, "HARNESS NO BUILD " + o
                bins[race] = b
            rc, o = sh([bins[race], "check", "-prop", c, "-root", d], d + "/harness", e=dict(env, VERIF_WORK=d + "/tmp", VERIF_ROOT=d, TMPDIR=d + "/tmp"))
            res.append((c, rc, o))
        if every:
            return i, "property %s; caught by %s%s" % (meta["property"], " ".join(c for c, rc, _ in res if rc == 1), "".join(" [%s exit %d]" % (c, rc) for c, rc, _ in res if rc not in (0, 1)))
        c, rc, o = res[0]
        return i, "%s %s | demo: %s" % ("CAUGHT by" if rc == 1 else "*** MISSED (exit %d) by" % rc, c, demo)
    finally:
        shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("LANES", "2"))) as ex:
    for i, r in ex.map(one, ids): print(i, r, flush=True)
