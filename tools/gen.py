#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from sa/catalog.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
from catalog import CATALOG, NOT_APPLICABLE, NA_REASON

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in CATALOG + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 sa/check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 sa/check.py %s --tier thorough" % p["id"],
           "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in CATALOG]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": checks, "not_applicable": [{"property": p["id"], "reason": NA_REASON[p["id"]]} for p in NOT_APPLICABLE],
     "notes": "All checks are static: they parse /repo/neutralocean and never import or run it. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
