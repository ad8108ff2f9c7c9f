#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py (run by hand; the results are committed)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
have = {l.split()[0] for l in open(root + "/checks.tsv") if len(l.split()) > 2}
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        if p["id"] not in have and p["id"] not in NOT_APPLICABLE: continue
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if "observe" in p: d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in have: continue
    checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "No hooks: the harnesses compile /repo's sources as they are. 'known_findings.txt' lists known findings and fixes."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(root + "/properties.jsonl"): jsonschema.validate(json.loads(l), ps)
missing = have - {p["id"] for p in PROPS}
print(len(checks), "checks; without metadata:", missing)
