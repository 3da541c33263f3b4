"""python3 tools/mk_meta.py: rewrites properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = props.V
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in props.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
checks = []
for p, note, tech, level in props.PROPS:
    checks.append({"property": p["id"], "quick_cmd": "python3 driver/check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 driver/check.py %s thorough" % p["id"],
                   "technique": tech, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 driver/check.py --setup", "checks": checks,
     "not_applicable": getattr(props, "NOT_APPLICABLE", []),
     "notes": "No hooks in /repo: the API shows the state the specification talks about. Written by tools/mk_meta.py."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import re
for p, *_ in props.PROPS:
    n = len(re.findall(r"[.;!?](?:\s|$)", re.sub(r"[;]", "", p["statement"])))
    if n > 3:
        print(p["id"], "sentences:", n)
