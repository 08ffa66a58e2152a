#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and rules/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, "lib"))
sys.path.insert(0, os.path.join(H, "tools"))
from props import P
from rules.registry import RULES
try:
    from props import NA
except ImportError:
    NA = []
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
ids = [d["id"] for d in P]
assert len(set(ids)) == len(ids)
checks = []
for i in ids:
    if i in RULES:
        r = RULES[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": r["technique"], "level": r["level"], "level_note": r["note"]})
na = [{"property": a, "reason": b} for a, b in NA]
assert set(ids) == {c["property"] for c in checks} | {n["property"] for n in na}, set(ids) ^ ({c["property"] for c in checks} | {n["property"] for n in na})
json.dump({"version": 1, "setup_cmd": "python3 lib/facts.py", "checks": checks, "not_applicable": na,
           "notes": "All checks share one fact base: MIR extracted from /repo's working tree by driver/driver.rs (rustc driver), cached by source hash."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(ids), "properties,", len(checks), "checks")
