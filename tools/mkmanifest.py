#!/usr/bin/env python3
"""Generates MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
import checks
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(checks, "NOT_APPLICABLE", {})
cs, na = [], []
for p in props:
    i = p["id"]
    if hasattr(checks, i):
        cs.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
            technique=checks.TECH.get(i, checks.TECH["*"]), level="model_checking",
            level_note=checks.NOTE.get(i, checks.NOTE["*"])))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=cs, not_applicable=na,
    notes="TLA+ specifications in specs/, drivers of the real code in drivers/ (compiled into the module by a build overlay; /repo needs no hooks), runner in lib/. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "claimed", len(na), "not")
