#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
    for i, p in PROPS.items():
        assert len(p["title"]) <= 80, i
        f.write(json.dumps({
            "id": i, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"]},
        }, ensure_ascii=False) + "\n")

checks, na = [], []
for i, p in PROPS.items():
    if p.get("bin") or p.get("kani"):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "technique": p["technique"],
            "level": "model_checking",
            "level_note": p["note"],
        })
    else:
        na.append({"property": i, "reason": p.get("na", "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Each check builds its own harness against /repo and runs it.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
