#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json and checks.py (run by hand, output is committed)."""
import glob, json, os
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
props = []
for f in sorted(glob.glob(os.path.join(V, "props", "*.json"))):
    props += json.load(open(f))
props.sort(key=lambda p: p["id"])
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
       "notes": "All checks: python3 run.py <id> <tier>. Explorers are compiled from /repo's working tree on every run. See DESIGN.md; findings in known-findings.txt."}
with open(os.path.join(V, "properties.jsonl"), "w") as out:
    for p in props:
        meta = p.pop("check")
        out.write(json.dumps(p) + "\n")
        if "not_applicable" in meta:
            man["not_applicable"].append({"property": p["id"], "reason": meta["not_applicable"]})
            continue
        assert p["id"] in CHECKS, p["id"]
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s quick" % p["id"],
            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
            "technique": meta["technique"],
            "level": CHECKS[p["id"]]["level"],
            "level_note": meta["note"]})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("schemas ok,", len(props), "properties,", len(man["checks"]), "checks")
except ImportError:
    print("written (jsonschema is not available)")
