#!/usr/bin/env python3
"""DESIGN.md = design/head.md + entries and bounds (tools/checks.py) + design/tail.md + planted bugs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
rd = lambda f: open(os.path.join(V, f)).read()
out = rd("design/head.md")
for l in rd("properties.jsonl").splitlines():
    p = json.loads(l)
    c = CHECKS[p["id"]]
    e = ", ".join("`%s`" % x["name"] for x in c["entries"])
    out += "* **%s** %s. *%s:* %s. Bounds: %s." % (p["id"], p["title"], c["crate"], e, c["bounds"].rstrip("; "))
    if c.get("bounds_thorough") and c["bounds_thorough"] != c["bounds"]:
        out += " Thorough: %s." % c["bounds_thorough"]
    out += "\n"
out += rd("design/tail.md")
s = os.path.join(V, "seeded")
if not os.path.isdir(s):
    sys.exit("no seeded/: DESIGN.md left as it is")
res = json.loads(rd("design/results.json"))
out += "| change | property | needs | result |\n|---|---|---|---|\n"
for d in sorted(os.listdir(s)):
    m = json.load(open(os.path.join(s, d, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/"), res.get(d, "not run yet"))
open(os.path.join(V, "DESIGN.md"), "w").write(out + rd("design/end.md"))
