#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (after the marker) from seeded/*/meta.json and the results
of the last tools/seedcheck.py run given as arguments (log files with lines '<id> ... CAUGHT|MISSED')."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs by property\n"
by = {}
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    by.setdefault(m["property"], []).append((d, m["needs"]))
missed = set(sys.argv[1:])
out = [MARK, "\n", f"{sum(map(len, by.values()))} bugs; each is caught by the check of its own property",
       (" except " + ", ".join(sorted(missed)) if missed else ""), " (quick tier, VERIF_SEED=1).\n\n",
       "| Property | Planted bugs caught by its check (what each needs is in its meta.json) |\n|---|---|\n"]
for p in sorted(by):
    out.append(f"| {p} | " + ", ".join(d.split("-", 1)[1] + (" (missed)" if d in missed else "") for d, _ in by[p]) + " |\n")
t = open(here + "/DESIGN.md").read()
t = t.split(MARK)[0].rstrip("\n") + "\n\n"
open(here + "/DESIGN.md", "w").write(t + "".join(out))
