#!/usr/bin/env python3
"""Write MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": p.technique, "level": p.level, "level_note": p.note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
m["notes"] = "no hooks in /repo: checks instrument a scratch overlay of the current sources"
open(os.path.join(R, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
