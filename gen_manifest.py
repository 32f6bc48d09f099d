#!/usr/bin/env python3
# Regenerates MANIFEST.json from checks.py and properties.jsonl.
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[], notes="All checks build the harnesses from /repo's working tree into a temporary directory and explore exhaustively within the bounds listed in DESIGN.md; no hooks in /repo are needed.")
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"],
            technique=c["technique"], level=c.get("level", "model_checking"), level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "No check is registered yet.")))
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
