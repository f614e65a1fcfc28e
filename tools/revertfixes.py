#!/usr/bin/env python3
"""revertfixes.py: takes each repair of known_findings.json back in a scratch copy of /repo and runs the check of the property it
names there: the check has to report a violation (a repair whose revert conflicts with a later one is reported as such)."""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
def one(l):
    p, c = re.match(r"fixed: property=(C\d+) (\w+)", l).groups()
    d = "/tmp/rv/" + c
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/rv", exist_ok=True)
    try:
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        r = subprocess.run(["git", "revert", "-n", c], cwd=d, capture_output=True, text=True)
        if r.returncode: return l, "REVERT CONFLICTS"
        r = subprocess.run(["bash", "/verif/tools/onrepo.sh", d, p], capture_output=True, text=True)
        if p + " exit 1" in r.stdout: return l, "caught"
        return l, "*** " + (r.stdout + r.stderr)[-300:]
    finally: shutil.rmtree(d, ignore_errors=True)
ls = [l for l in json.load(open("/verif/known_findings.json"))["fixed"] if not sys.argv[1:] or any(a in l for a in sys.argv[1:])]
with ThreadPoolExecutor(int(os.environ.get("LANES", "2"))) as ex:
    for l, r in ex.map(one, ls): print(r, "|", l[:110], flush=True)
