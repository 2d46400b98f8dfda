#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE  # noqa: E402

_na = {x["property"] for x in NOT_APPLICABLE}
PROPS = [p for p in PROPS if "technique" in p or p["id"] in _na]

TECH = "deterministic simulation with fault injection: "

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(rec) + "\n")

checks = []
for p in PROPS:
    if "technique" not in p:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} --tier quick",
        "thorough_cmd": f"./run.sh {p['id']} --tier thorough",
        "technique": TECH + p["technique"],
        "level": "exploration",
        "level_note": p["level_note"],
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: every source of nondeterminism is reached through seams the code already has "
                 "(source callbacks, time step arguments, component order, file opening, interpreter tracing, hash seed).",
    }, f, indent=1)
    f.write("\n")
