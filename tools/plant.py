"""Lays out /verif/seeded/<id>/ from meta/seeds.py and confirms every claim about it in a
scratch copy of /repo: patch applies, builds, the stable tests pass, demo.sh succeeds without
and fails with the patch.   usage: plant.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V + "/meta")
from seeds import S

DEMO = """#!/bin/bash
# exit 0: the behaviour holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
ulimit -s unlimited
g++ -std=c++20 %s -w -I"$PWD/include" -I"$here" "$here/demo.cpp" -o "$tmp/demo" -lgmpxx -lgmp || exit 9
cd "$tmp" && timeout 250 ./demo
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def one(s):
    sid = s["id"]
    out = V + "/seeded/" + sid
    d = tempfile.mkdtemp(prefix="plant.")
    try:
        sh("git clone -q /repo r", d)
        r = d + "/r"
        log = []
        for fn, old, new in s["edits"]:
            p = r + "/include/" + fn
            t = open(p).read()
            if t.count(old) < 1:
                return sid, "EDIT DOES NOT APPLY " + old
            open(p, "w").write(t.replace(old, new, 1))
        diff = sh("git diff", r).stdout
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(diff)
        open(out + "/demo.cpp", "w").write(s["demo"])
        open(out + "/demo.sh", "w").write(DEMO % s.get("flags", "-O1"))
        os.chmod(out + "/demo.sh", 0o755)
        shutil.copy(V + "/support/real_sha3/shake256.hpp", out + "/shake256.hpp")
        if s.get("noshake"):
            # the demonstration brings a stand-in that records
            open(out + "/shake256.hpp", "w").write("#pragma once\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        # lines removed must be lines of the original repository
        base = sh("git rev-list --max-parents=0 HEAD", r).stdout.decode().strip()
        for fn, old, new in s["edits"]:
            bl = sh("git show %s:include/%s" % (base, fn), r).stdout.decode().split("\n")
            rm = [l[1:] for l in diff.decode().split("\n") if l.startswith("-") and not l.startswith("---")]
            if rm and not any(l in bl for l in rm):
                return sid, "changes only lines added by fix commits"
        g = sh("bash %s/demo.sh" % out, r)
        if g.returncode == 0:
            return sid, "demo passes with the patch: " + g.stdout.decode()[-300:]
        if g.returncode == 9:
            return sid, "demo does not build: " + g.stdout.decode()[-1500:]
        b = "g++ -std=c++20 -O1 -w -fsyntax-only -Iinclude -I%s/support/real_sha3 -x c++ %s/falconlint/driver.cpp" % (V, V)
        if sh(b, r).returncode:
            return sid, "patched tree does not compile"
        # stable tests: same recipe as /opt/vp, in the copy
        mk = open("/opt/vp/falcon.mk").read().replace("/repo", r)
        open(d + "/falcon.mk", "w").write(mk)
        t = sh("make -f %s/falcon.mk -j4 all" % d, r)
        if t.returncode:
            return sid, "build fails " + t.stdout.decode()[-500:]
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base.get("stable") or base.get("passed") or base
        tb = sh("./_build/test.out", r)
        txt = tb.stdout.decode()
        if tb.returncode:
            return sid, "a test fails: " + txt[-600:]
        sh("git checkout -q -- .", r)
        g2 = sh("bash %s/demo.sh" % out, r)
        if g2.returncode:
            return sid, "demo fails on the unchanged tree: " + g2.stdout.decode()[-600:]
        return sid, "ok (rc %d: %s)" % (g.returncode, g.stdout.decode().strip()[-100:])
    finally:
        shutil.rmtree(d)


todo = [s for s in S if not sys.argv[1:] or s["id"] in sys.argv[1:]]
with ThreadPoolExecutor(4) as ex:
    for sid, res in ex.map(one, todo):
        print(sid, res, flush=True)
        if not res.startswith("ok"):
            shutil.rmtree(V + "/seeded/" + sid, ignore_errors=True)
