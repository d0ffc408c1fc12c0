#!/usr/bin/env python3
"""mkseed.py ID PROP file old new needs breaks  -> seeded/ID/patch.diff, meta.json (demo.cpp/demo.sh are written by hand)"""
import sys, os, json, subprocess, tempfile, shutil
def make(id, prop, edits, needs, breaks, demo, extra=None, sh=None):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s" % w, shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, cwd=w, check=True)
    for f, o, n in edits:
        t = open(os.path.join(w, f)).read()
        assert t.count(o) == 1, (id, f, t.count(o))
        open(os.path.join(w, f), "w").write(t.replace(o, n))
    open(d + "/patch.diff", "w").write(subprocess.run("git diff", shell=True, cwd=w, stdout=subprocess.PIPE, text=True).stdout)
    shutil.rmtree(w)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    if demo is not None:
        open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh or STD)
    for k, v in (extra or {}).items():
        open(os.path.join(d, k), "w").write(v)

STD = """#!/bin/bash
# run in /repo after the build: exit 0 when the property holds for the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O1 -g -fopenmp -fsanitize=address,undefined -fno-sanitize-recover=all -Iplanner_cspace/include -Itrajectory_tracker/include -Itrack_odometry/include -I/usr/include/eigen3 "$here/demo.cpp" $EXTRA -o "$out/demo" -lboost_chrono -lboost_system || exit 0
timeout 120 "$out/demo"
"""

# demonstrations of parts that need middleware headers: the stand-ins travel with the demonstration
MW = STD.replace("-Iplanner_cspace/include", "-I. -Ineonavigation_common/include -Icostmap_cspace/include -Isafety_limiter/include -Iplanner_cspace/include").replace('"$here/demo.cpp"', '-fno-access-control -w -I"$here/stubs" "$here/demo.cpp"')


def stubs(id):
    d = "/verif/seeded/%s/stubs" % id
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/verif/stubs", d)
    open(d + "/vc.h", "w").write("#pragma once\n#include <cstdlib>\n#define vc_prove(c, l) do { if (!(c)) abort(); } while (0)\n")
