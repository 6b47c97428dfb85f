#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks: symbolic execution of the whole-program LLVM IR of the current tree (symex/), driven by the harness crates in harness/ over the environment models in shims/. See DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR) with z3, all paths within bounds",
            "level": "model_checking",
            "level_note": "Bounded: " + CHECKS[i]["bounds"] + ". Trusts rustc, the solver, and the in-memory network/scheduler that replaces async-std's; counterexamples are replayed natively.",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
