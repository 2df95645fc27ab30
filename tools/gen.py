#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["id"]
man = {"version": 1, "setup_cmd": "python3 check.py --self-test",
       "checks": [], "not_applicable": []}
for p in props.PROPS:
    if p["na"]:
        man["not_applicable"].append({"property": p["id"],
                                      "reason": p["na"]})
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p["technique"], "level": "other",
        "level_note": p["note"] or "Static decision over current source."})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(man["checks"]), "checks,", len(man["not_applicable"]), "n/a")
