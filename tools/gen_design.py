#!/usr/bin/env python3
"""Write DESIGN.md: method, notes per property with the bounds of specs.py, tables, lists."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "doc"))
from notes import NOTES  # noqa: E402
from specs import SPECS  # noqa: E402


def read(name):
    with open(os.path.join(ROOT, name)) as f:
        return f.read()


props = [json.loads(l) for l in read("properties.jsonl").splitlines() if l.strip()]
cost = json.loads(read("doc/cost.json"))
out = [read("doc/method.md").rstrip(), "", "## Properties", "",
       "*Oracle* is the independent statement the real code is compared with. *Bounds* lists the runs of the",
       "quick tier, with the thorough tier's values in parentheses; within them every value is covered by the",
       "solver. The statements themselves are in `properties.jsonl`.", ""]
for p in props:
    oracle, beyond = NOTES[p["id"]]
    runs = SPECS[p["id"]]["runs"]
    out += ["### %s %s" % (p["id"], p["title"]), "",
            "Harness: %s." % ", ".join("`%s`" % s for s in sorted({s for r in runs for s in r["src"]})), "",
            "*Oracle.* " + oracle, "", "*Bounds.*"]
    out += ["* %s%s" % (r["bounds"], "" if r["variant"] in ("default", "plain") else " [configuration `%s`]" % r["variant"]) for r in runs]
    out += ["", "*Beyond tests.* " + beyond, ""]
out += ["No property is marked not applicable.", "", "## Cost", "",
        "Quick tier on eight cores, otherwise idle; solver time is summed over the parallel runs.", "",
        "| check | functions | paths | assertions | queries | solver s | wall s |", "|---|---|---|---|---|---|---|"]
out += ["| %s | %s |" % (k, " | ".join(str(x) for x in v)) for k, v in sorted(cost.items())]
out += ["", "## Planted bugs", "", read("doc/planted.md").rstrip(), "", "| bug | check | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.loads(open(f).read())
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"]))
out += ["", read("doc/tail.md").rstrip(), ""]
out += ["## Defects found", "", "Repaired in the repository (`fix:` commits); found with the checks:", ""]
known = []
for l in read("known-findings.txt").splitlines():
    if l.startswith("fixed: property="):
        w = l[len("fixed: property="):].split(" ", 2)
        out.append("* %s, %s: %s" % (w[0], w[1], w[2]))
    elif l.startswith("known:"):
        known.append(l)
out += ["", read("doc/known.md").rstrip(), ""]
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
