#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and the rule registry."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [HERE, ROOT]
from props import P  # noqa: E402
from xsa.registry import RULES  # noqa: E402

PY = "/opt/venv/bin/python"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in RULES and not p["na"]:
        checks.append({"property": p["id"], "quick_cmd": f"{PY} check.py {p['id']}", "thorough_cmd": f"{PY} check.py {p['id']} thorough",
                       "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet; not claimed"})
m = {"version": 1, "setup_cmd": f"{PY} -m compileall -q check.py xsa", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
