#!/usr/bin/env python3
"""mkseed.py ID PROP FILE < json {"edits":[[file,old,new],...],"needs":..,"breaks":..,"demo":"C++ text"}: writes /verif/seeded/ID"""
import sys, json, subprocess, os
def make(id, prop, edits, needs, breaks, demo, std="gnu++98"):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain", "--untracked-files=no"])
    try:
        for f, old, new in edits:
            p = "/repo/viennagrid/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=%s -O1 -w -ftemplate-depth=2000 -I"$PWD" "$here/demo.cpp" -o "$w/demo" || exit 3
cd "$w" && timeout 120 ./demo
''' % std)
