#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        })
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "check under construction")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
}
if props.HOOKS:
    m["hooks"] = props.HOOKS
open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
