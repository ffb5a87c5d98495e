#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, "tools/techniques.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if any(os.path.exists(os.path.join(here, f"harness/{d}/src/bin/{i.lower()}.rs")) for d in ("checks", "cclib", "ccgen")):
        t = TECH.get(i, TECH["default"])
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "technique": t["technique"],
            "level": "exploration",
            "level_note": t["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
