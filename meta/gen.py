"""Writes properties.jsonl and MANIFEST.json from meta/props.py, meta/na.py and the registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(V, "falconlint")]
from props import P
from registry import CHECKS
from na import NA

with open(V + "/properties.jsonl", "w") as f:
    for k in sorted(P):
        f.write(json.dumps(P[k]) + "\n")
checks = []
for k in sorted(P):
    if k not in CHECKS:
        assert k in NA, "neither checked nor declined: " + k
        continue
    mod, fn, level, technique, note, tb = CHECKS[k]
    checks.append({"property": k, "quick_cmd": "python3-vt falconlint/run.py %s quick" % k,
                   "thorough_cmd": "python3-vt falconlint/run.py %s thorough" % k,
                   "technique": "static analysis: " + technique, "level": level, "level_note": note or "decided from LLVM IR of /repo's headers, for all inputs"})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items()) if k not in CHECKS],
     "notes": "All checks analyse the LLVM IR that clang produces from /repo/include on every run; nothing of falcon is executed."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
