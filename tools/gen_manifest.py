#!/usr/bin/env python3
"""Writes ../MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
import checks
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
ids = [p["id"] for p in props]
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[], notes=checks.NOTES)
for p in props:
    i = p["id"]
    if i not in checks.CHECKS:
        m["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "check is not built yet")))
        continue
    s = {**checks.DEFAULT, **checks.CHECKS[i]}
    m["checks"].append(dict(
        property=i,
        quick_cmd="VERIF_TIER=quick python3 run.py " + i,
        thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
        evidence_file="evidence/%s.json" % i,
        technique=s["technique"], level="exploration",
        level_note=(s["note"] + " " if s["note"] else "") + checks.LEVEL_NOTE))
assert set(checks.CHECKS) <= set(ids)
with open(H + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
