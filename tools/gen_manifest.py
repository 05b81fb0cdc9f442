#!/usr/bin/env python3
"""Write MANIFEST.json from specs.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import specs  # noqa: E402

TECH = ("symbolic execution of the LLVM IR compiled from the current sources, with a model of the kernel whose outcomes are "
        "symbolic; Z3 decides every branch and assertion over all values within the bounds; counterexamples are replayed natively")
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    s = specs.SPECS.get(p["id"])
    if not s:
        na.append(dict(property=p["id"], reason=getattr(specs, "NOT_APPLICABLE", {}).get(p["id"], "no check built yet")))
        continue
    note = s.get("note") or "; ".join(r["bounds"] for r in s["runs"])
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                       thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                       technique=s.get("technique", TECH), level=s.get("level", "model_checking"),
                       level_note="All values and histories within: %s." % note))
m = dict(version=1, setup_cmd="make -s -j8 -C symx", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
