#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]]},
        }) + "\n")
man = {"version": 1, "setup_cmd": "bin/build.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["technique"]:
        man["checks"].append({
            "property": p["id"], "quick_cmd": f"bin/check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bin/check.sh {p['id']}",
            "technique": p["technique"], "level": "other", "level_note": p["note"].strip()})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "not applicable")
