"""Tests of the checker itself: every variant of the repository below is laid
out in a scratch copy and the named checks are run on it.  'bad' variants
break the property, 'ok' variants are rewrites that keep the behaviour.
usage: run.py [-p PROP] [-n NAME] [-j JOBS]"""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from variants import V

ap = argparse.ArgumentParser()
ap.add_argument("-p", action="append")
ap.add_argument("-n", default="")
ap.add_argument("-k", default="")
ap.add_argument("-j", type=int, default=7)
ap.add_argument("-v", action="store_true")
a = ap.parse_args()


def one(job):
    name, kind, prop, edits = job
    d = tempfile.mkdtemp(prefix="variant.")
    try:
        shutil.copytree("/repo/include", d + "/include")
        for fn, old, new in edits:
            p = d + "/include/" + fn
            s = open(p).read()
            k = 1
            if old.startswith("@all "):
                old, k = old[5:], -1
            if old not in s:
                return name, kind, prop, "EDIT DOES NOT APPLY: " + old, ""
            open(p, "w").write(s.replace(old, new, k))
        env = dict(os.environ, FALCON_REPO=d, FALCON_EVIDENCE=d)
        r = subprocess.run(["python3-vt", os.path.join(HERE, "../falconlint/run.py"), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return name, kind, prop, r.returncode, r.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d)


jobs = [(n, k, p, e) for (n, k, ps, e) in V for p in ps if (not a.p or p in a.p) and a.n in n and a.k in k]
bad = 0
with ThreadPoolExecutor(a.j) as ex:
    for name, kind, prop, rc, txt in ex.map(one, jobs):
        good = rc == (1 if kind == "bad" else 0)
        bad += not good
        print("%-4s %-4s %-40s %s" % ("fine" if good else "!!!!", prop, kind + " " + name, rc), flush=True)
        if a.v or not good:
            print("\n".join("      " + l for l in txt.split("\n") if "BROKEN" in l or "UNDEC" in l or l.startswith("    ") or "ERROR" in l or "Error" in l or "error:" in l)[:1200])
print("%d runs, %d unexpected" % (len(jobs), bad))
sys.exit(bad > 0)
