#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["statement"].count(". ") <= 2, p["id"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["for_all"]},
                            "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}},
                           ensure_ascii=False) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 engine/facts.py --setup",
     "checks": [], "not_applicable": []}
for p in PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"],
                            "quick_cmd": "python3 engine/check.py %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 engine/check.py %s --tier thorough" % p["id"],
                            "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
