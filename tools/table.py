"""Rewrites the table of planted bugs in DESIGN.md from meta/seeds.py."""
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/meta")
from seeds import S

rows = ["| id | property (caught by its check) | breaks | needs |", "|---|---|---|---|"]
for s in sorted(S, key=lambda s: s["prop"]):
    rows.append("| %s | %s | %s | %s |" % (s["id"], s["prop"], s["breaks"], s["needs"]))
p = V + "/DESIGN.md"
d = open(p).read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = re.sub(r"SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->", lambda m: new, d, flags=re.S)
open(p, "w").write(d)
