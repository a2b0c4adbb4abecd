#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools/manifest_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED and os.path.exists(os.path.join(V, "checks", i + ".py")):
        t, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
            evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NOT.get(i, "No check built yet.")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="TLA+ specifications in specs/, checked with TLC; conformance drivers in drivers/. Known findings: known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
