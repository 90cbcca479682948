#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl") if l.strip()]
TECH = json.load(open(f"{root}/tools/techniques.json"))
checks, missing = [], []
for p in props:
    t = TECH.get(p["id"])
    if t is None:
        missing.append({"property": p["id"], "reason": "runtime monitoring applies, but its check is not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']}",
        "thorough_cmd": f"bash check.sh {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t[0],
        "level": "exploration",
        "level_note": t[1],
    })
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": checks, "not_applicable": missing}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
