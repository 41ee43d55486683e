#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_CLAIMED  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": "VERIF_TIER=quick python3 run.py check %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check %s" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_CLAIMED.get(p, "No check yet: the module is not part of this sandbox's build; a shim for its missing protobuf headers is planned (see DESIGN.md).")})
m["notes"] = "No hooks in /repo: the checks use public interfaces only. run.py replay <file> re-runs a replay file."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
