#!/usr/bin/env python3
"""mutrun.py OUT LANES [FILE...]   tries mutants of /repo in scratch copies against all checks; appends one line per mutant to OUT"""
import os, subprocess, sys, random, shutil, threading, queue, re
out, lanes, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
M = "/tmp/mutate"
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], HOME="/root", GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOENV="off", GOPATH="/root/go", GOCACHE="/tmp/mut-cache", VERIF_HANG="25", VERIF_SEED="1", VERIF_TIER="quick", GOMAXPROCS=str(max(2, 8 // lanes)))
env.pop("GOROOT", None)
ALL = ["C%02d" % i for i in range(1, 32)]
FIRST = {"base/base.go": "C01 C30 C05 C02 C04 C03", "base/box.go": "C24", "base/ast.go": "C20 C23 C11 C07", "object": "C10 C18", "string/transformers": "C12", "string/parsers": "C06 C01 C14 C13 C07", "base/util": "C22 C01 C21",
  "base/match": "C28 C02 C01", "extra/transformers": "C15 C12", "extra": "C15 C13 C14", "base/transformers": "C11 C12 C08", "base/parsers": "C01 C04 C29 C05", "base/production": "C16", "string/util": "C06 C12 C22 C14", "base/tracer": "C19"}
SLOW = ["C21", "C27", "C31", "C20", "C17"]
RACE = {"C17", "C20", "C21"}
def order(f):
    o = []
    for k, v in FIRST.items():
        if f.startswith(k):
            o = v.split(); break
    o += [c for c in ALL if c not in o and c not in SLOW]
    return o + [c for c in SLOW if c not in o]
done = set()
if os.path.exists(out):
    for l in open(out): done.add(tuple(l.split("\t")[:2]))
l = subprocess.run([M, "list"] + files, cwd="/repo", capture_output=True, text=True).stdout.splitlines()
jobs = [x.split("\t") for x in l]
jobs = [j for j in jobs if (j[0], j[1]) not in done]
random.Random(7).shuffle(jobs)
q = queue.Queue()
for j in jobs: q.put(j)
lock = threading.Lock()
def sh(cmd, cwd, t=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"
def lane(n):
    d = "/tmp/mut/L%d" % n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/tmp")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"))
    shutil.copytree("/verif/harness", d + "/harness")
    g = open(d + "/harness/go.mod").read().replace("=> /repo", "=> " + d + "/repo"); open(d + "/harness/go.mod", "w").write(g)
    g = open(d + "/harness/props_ex.go").read().replace('"/repo"', '"' + d + '/repo"'); open(d + "/harness/props_ex.go", "w").write(g)
    P = ["./...", "./_examples/csv/...", "./_examples/formula/...", "./_examples/torpn/..."]
    while True:
        try: f, i, desc = q.get_nowait()
        except queue.Empty: return
        p = d + "/repo/" + f
        orig = open("/repo/" + f).read()
        r = subprocess.run([M, "apply", "/repo/" + f, i], capture_output=True, text=True)
        verdict = "?"
        if r.returncode: verdict = "cannot apply"
        else:
            open(p, "w").write(r.stdout)
            rc, o = sh(["go", "build"] + P, d + "/repo")
            if rc: verdict = "no build"
            else:
                rc, o = sh(["timeout", "60", "go", "test", "-vet=off", "-timeout", "40s"] + P, d + "/repo")
                if rc: verdict = "tests"
                else:
                    verdict = "SURVIVED"
                    bins = {}
                    for c in order(f):
                        race = c in RACE
                        if race not in bins:
                            b = d + "/vrun" + ("r" if race else "")
                            rc, o = sh(["go", "build", "-buildvcs=false"] + (["-race"] if race else []) + ["-o", b, "."], d + "/harness")
                            if rc: verdict = "no harness build " + o[:200]; break
                            bins[race] = b
                        env2 = dict(env, VERIF_WORK=d + "/tmp", VERIF_ROOT=d, TMPDIR=d + "/tmp")
                        try:
                            pr = subprocess.run([bins[race], "check", "-prop", c, "-root", d], cwd=d + "/harness", env=env2, capture_output=True, text=True, timeout=400)
                            rc = pr.returncode; o = pr.stdout
                        except subprocess.TimeoutExpired:
                            rc = 98
                        if rc == 1: verdict = "caught " + c; break
                        if rc != 0: verdict = "SURVIVED(inconclusive %s rc %d)" % (c, rc)
                    shutil.rmtree(d + "/tmp", ignore_errors=True); os.makedirs(d + "/tmp")
            open(p, "w").write(orig)
        with lock:
            with open(out, "a") as w: w.write("\t".join([f, i, desc, verdict]) + "\n")
ts = [threading.Thread(target=lane, args=(n,)) for n in range(lanes)]
for t in ts: t.start()
for t in ts: t.join()
