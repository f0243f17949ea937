#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS
import props
import properties_src
with open(V + "/properties.jsonl", "w") as f:
    for e in properties_src.P:
        f.write(json.dumps(e) + "\n")
ids = [e["id"] for e in properties_src.P]
NA = getattr(props, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup", "checks": [], "not_applicable": [],
     "notes": "Every check is tools/check.py <id>: it rebuilds libPothos (sanitized) and harness/<id>.cpp from /repo's working tree into /verif/build and runs the generated search. See DESIGN.md."}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 tools/check.py {i} quick", "thorough_cmd": f"python3 tools/check.py {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
except ImportError:
    sys.exit("wrote MANIFEST.json, not validated")
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
