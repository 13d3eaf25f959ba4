#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the list of claimed properties (tools/claims.json)"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = json.load(open(os.path.join(root, "tools/claims.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash build_checker.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in claims["claimed"]:
        t, note = claims["claimed"][i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                            "technique": t, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": claims["na"].get(i, claims["default_na"])})
m["hooks"] = claims.get("hooks", [])
if not m["hooks"]:
    del m["hooks"]
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
