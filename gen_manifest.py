#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run after editing props.py)."""
import json, os, subprocess
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [], "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE.items()],
     "notes": "Deterministic simulation with fault injection. No hooks in /repo: every seam is made at link time by "
              "renaming the symbols the compiled sources import (see DESIGN.md)."}
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
for p in PROPS:
    i = p["id"]
    assert len(p["title"]) <= 80, p["title"]
    assert (i in CHECKS) != (i in NOT_APPLICABLE), i
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i,
                            "technique": "deterministic simulation with fault injection: seeded search over schedules and faults",
                            "level": "exploration", "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(V + "/properties.jsonl"):
    jsonschema.validate(json.loads(l), sch)
print("ok:", len(ids), "properties,", len(m["checks"]), "checks")
