#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below; properties.jsonl gives the ids."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = ("Runtime monitoring of the real library compiled with overflow checks and debug assertions; the oracle is "
        "independent of the code under test. Nothing is claimed beyond the executions counted in the evidence.")
T = {}
exec(open(os.path.join(root, "tools", "techniques.py")).read())
checks, na = [], []
for i in ids:
    if i in T:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": T[i], "level": "exploration", "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "its monitor is not built yet")})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
