#!/usr/bin/env python3
"""writes MANIFEST.json from checks.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(R, "checks.json")))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": c.get("not_applicable", []),
     "notes": "See DESIGN.md. One driver (check), one mechanical extractor (weaver), contracts in spec/, replay engine in harness/. No hooks in /repo."}
for p in sorted(c["properties"]):
    q = c["properties"][p]
    m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": q["technique"], "level": q["level"],
                        "level_note": q["level_note"], **({"theorems": q["theorems"]} if q.get("theorems") else {})})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
