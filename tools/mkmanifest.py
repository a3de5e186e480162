#!/usr/bin/env python3
"""Write MANIFEST.json from tools/techniques.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
known = json.load(open(f"{here}/tools/techniques.json"))
checks, missing = [], []
for prop in props:
    if prop not in known or not os.path.exists(f"{here}/kmon/props/{prop.lower()}.py"):
        missing.append({"property": prop, "reason": "no check built yet"})
        continue
    checks.append({
        "property": prop,
        "quick_cmd": f"./check.py {prop} --tier quick",
        "thorough_cmd": f"./check.py {prop} --tier thorough",
        "technique": known[prop]["technique"],
        "level": "exploration",
        "level_note": known[prop]["note"],
    })
manifest = {"version": 1, "setup_cmd": "true", "checks": checks}
if missing:
    manifest["not_applicable"] = missing
with open(f"{here}/MANIFEST.json", "w") as out:
    json.dump(manifest, out, indent=1)
    out.write("\n")
