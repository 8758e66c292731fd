#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique="symbolic execution of the Go SSA of /repo, assertions decided by z3 (counterexamples replayed natively)",
                           level="model_checking",
                           level_note="all values within: " + r["bounds"] + ("; outside: " + r["outside"] if r.get("outside") else "")))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
