#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plans
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in plans.PLANS:
        continue
    pl = plans.PLANS[p]
    checks.append({
        "property": p,
        "quick_cmd": "python3 run.py %s quick" % p,
        "thorough_cmd": "python3 run.py %s thorough" % p,
        "technique": pl.get("technique", "runtime monitoring of randomized operation histories against a reference model, with a monitoring allocator and value registry"),
        "level": pl["level"],
        "level_note": pl.get("note", "Bounded exploration: holds on every execution observed; assumes the monitors (reference model, allocator, token registry) are right."),
    })
na = [{"property": p, "reason": plans.NOT_APPLICABLE.get(p, "no check yet")} for p in props if p not in plans.PLANS]
doc = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the checks use the public interface only. See DESIGN.md."}
json.dump(doc, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
