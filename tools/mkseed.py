#!/usr/bin/env python3
"""mkseed.py FILE.py...   (re)writes /verif/seeded/<id>/ from definitions: seed(id, prop, needs, breaks, edits, demo)
edits: list of (file, old text, new text); demo: body of a Go program's main with check(cond, format, args...) to fail."""
import os, subprocess, sys, json, shutil, tempfile
root = "/verif/seeded"
SH = r'''#!/bin/bash
# run in the repository's root: exit 0 if the property holds in this demonstration, 1 if it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOENV=off
work=$(mktemp -d) || exit 0
trap 'rm -rf "$work"' EXIT
cp "$here/demo.go.txt" "$work/main.go"
printf 'module demo\n\ngo 1.21\n\nrequire github.com/shellyln/takenoco v0.0.0\n\nreplace github.com/shellyln/takenoco => %s\n' "$repo" >"$work/go.mod"
cd "$work" || exit 0
ENV go build -o "$work/demo" . || { echo "the demonstration does not build"; exit 3; }
timeout 120 "$work/demo"
'''
HEAD = '''package main

import (
	"fmt"
	"os"
IMPORTS
)

var _ = fmt.Sprint

func check(ok bool, format string, a ...interface{}) {
	if !ok {
		fmt.Printf(format+"\\n", a...)
		os.Exit(1)
	}
}

'''
KNOWN = {"base.": '. "github.com/shellyln/takenoco/base"', "str.": 'str "github.com/shellyln/takenoco/string"', "obj.": 'obj "github.com/shellyln/takenoco/object"', "extra.": '"github.com/shellyln/takenoco/extra"',
 "csv.": '"github.com/shellyln/takenoco/_examples/csv"', "formula.": '"github.com/shellyln/takenoco/_examples/formula"', "reflect.": '"reflect"', "errors.": '"errors"', "strings.": '"strings"', "sync.": '"sync"', "time.": '"time"', "strconv.": '"strconv"', "io.": '"io"', "math.": '"math"', "sort.": '"sort"', "runtime.": '"runtime"', "utf8.": '"unicode/utf8"'}
def seed(id, prop, needs, breaks, edits, demo, env="", nodot=False):
    d = root + "/" + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp()
    try:
        subprocess.run(["cp", "-r", "/repo/.", t], check=True)
        for f, old, new in edits:
            s = open(t + "/" + f).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(t + "/" + f, "w").write(s.replace(old, new))
        subprocess.run(["/opt/veriftools/go1.27.3/bin/gofmt", "-l"] + [t + "/" + f for f, _, _ in edits], check=True)
        p = subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout
        assert p, id
        open(d + "/patch.diff", "w").write(p)
    finally:
        shutil.rmtree(t)
    import re
    imps = ['\t' + v for k, v in KNOWN.items() if k != "base." and re.search(r'\b' + re.escape(k), demo)]
    if not nodot: imps.append('\t' + KNOWN["base."])
    head = HEAD if nodot else HEAD.replace("var _ = fmt.Sprint\n", "var _ = fmt.Sprint\nvar _ MatchStatusType\n")
    open(d + "/demo.go.txt", "w").write(head.replace("IMPORTS", "\n".join(imps)) + demo)
    open(d + "/demo.sh", "w").write(SH.replace("ENV ", env + " " if env else ""))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
for f in sys.argv[1:]:
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})
