#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of drivers and their notes."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
drivers = set(re.findall(r'"(C\d\d)":\s*drive', open(os.path.join(V, "harness/props/prop_test.go")).read()))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in drivers and i in notes:
        n = notes[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": n["technique"],
            "level": n.get("level", "exploration"),
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "the monitor of this property is not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every monitor observes the public API, the wire, the process and the race detector. Violations are judged by what the code does.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
