#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the ids in properties.jsonl."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
T = json.load(open(os.path.join(V, "lib", "manifest_table.json")))
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in T:
        t = T[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py --tier quick" % i.lower(),
                           thorough_cmd="python3 checks/%s.py --tier thorough" % i.lower(),
                           evidence_file="evidence/%s.json" % i, technique=t["technique"],
                           level=t.get("level", "exploration"), level_note=t["note"]))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="python3 lib/build.py plain asan", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
