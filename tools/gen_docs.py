#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py; only properties whose check exists are claimed."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from properties import PROPS, NOT_APPLICABLE  # noqa: E402

checks, lines = [], []
for p in PROPS:
    pid = p["id"]
    if not os.path.exists(os.path.join(ROOT, "harness", "props", pid.lower() + ".py")):
        continue
    assert len(p["title"]) <= 80, pid
    lines.append({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
    checks.append({"property": pid, "quick_cmd": "bash check.sh " + pid, "thorough_cmd": "bash check.sh " + pid,
                   "technique": p["technique"], "level": p.get("level", "model_checking"), "level_note": p["level_note"]})
for n in NOT_APPLICABLE:
    lines.append({k: n[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for e in lines:
        f.write(json.dumps(e) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
       "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
       "notes": "TLA+ specifications in spec/ checked with TLC; harness/ records behaviours of the real code and TLC validates them "
                "against the trace specifications. No hooks are needed: every observation uses the public objects of the library."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
