#!/usr/bin/env python3
"""Assembles properties.jsonl and MANIFEST.json from harness/*/prop.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = []
for f in sorted(glob.glob(os.path.join(V, "harness", "*", "prop.json"))):
    p = json.load(open(f))
    p["property"]["id"] = os.path.basename(os.path.dirname(f)).upper()
    ps.append(p)
na = json.load(open(os.path.join(V, "harness", "not_applicable.json"))) if os.path.exists(os.path.join(V, "harness", "not_applicable.json")) else []
order = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in ps + na:
        o.write(json.dumps({k: p["property"][k] for k in order}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[dict(property=p["property"]["id"], reason=p["reason"]) for p in na])
for p in ps:
    i = p["property"]["id"]
    m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                            technique=p["check"]["technique"], level="model_checking", level_note=p["check"]["level_note"]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
import subprocess
print(len(ps), "properties")
