#!/usr/bin/env python3
"""mkbug.py ID PROP FILE <<< OLD ==== NEW : make seeded/ID/patch.diff from a textual replacement (several separated by ++++ FILE)."""
import sys, os, json, subprocess, difflib
ID, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + ID; os.makedirs(d, exist_ok=True)
txt = sys.stdin.read(); out = ""; files = {}
for part in txt.split("@@@ ")[1:]:
    fn, body = part.split("\n", 1); old, new = body.split("\n====\n"); old = old.strip("\n"); new = new.rstrip("\n").lstrip("\n") if new.strip() else ""
    fn = fn.strip()
    src = files.get(fn) or open("/repo/" + fn).read()
    assert src.count(old) == 1, (fn, src.count(old), old)
    files[fn] = src.replace(old, new)
for fn, n in files.items():
    o = open("/repo/" + fn).read()
    out += "diff --git a/%s b/%s\n" % (fn, fn) + "".join(difflib.unified_diff(o.splitlines(True), n.splitlines(True), "a/" + fn, "b/" + fn))
open(d + "/patch.diff", "w").write(out)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -D__LOCK_FREE__ -I src -I src/util "$here/demo.cpp" -L _build/lib -lmabain -lpthread -o "$w/demo" || exit 99
mkdir -p "$w/db" && LD_LIBRARY_PATH=$PWD/_build/lib timeout 250 "$w/demo" "$w/db/"
''')
