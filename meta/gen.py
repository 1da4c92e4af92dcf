#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py (run by hand after editing props.py)"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 /verif/check.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % p["id"],
                   "evidence_file": "/verif/evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": na,
           "notes": props.NOTES}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
exec(open(os.path.join(here, "design.py")).read())
