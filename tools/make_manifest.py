#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vf", "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": NOTES.get(i, {}).get("technique", "property-based testing (Hypothesis generators + independent oracle)"),
            "level": "exploration",
            "level_note": NOTES.get(i, {}).get("note", "Seeded random search over structured inputs against an independent oracle; absence of violations is evidence, not proof."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every check drives the public API from outside. "
              "./check --replay FILE replays a saved violation; ./check ID --sub NAME -v runs one part."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
