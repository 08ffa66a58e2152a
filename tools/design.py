#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_head.md, one section per property (from rules/registry.py, properties.jsonl, known_findings.json and seeded/), tools/design_tail.md."""
import json, os, sys, glob, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/lib"]
from rules.registry import RULES, PATHS, GENX

props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
known = json.load(open(V + "/known_findings.json"))
seeds = {}
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    seeds.setdefault(m["property"], []).append((os.path.basename(d), m["needs"]))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for i in sorted(RULES):
    r, p = RULES[i], props[i]
    out += ["### %s - %s" % (i, p["title"]), ""]
    how = r["explain"]
    for pre, name in ((GENX, "Path summaries with token templates (see above). "), (PATHS, "Path summaries (see above). ")):
        if how.startswith(pre):
            how = name + how[len(pre):]
    out += ["- **How it is decided.** " + how, "- **Rule.** " + r["rule"], "- **Bounds.** " + r["note"]]
    why = p.get("why_tests_insufficient") or p.get("why") or ""
    for k, v in p.items():
        if k.startswith("why") and isinstance(v, str):
            why = v
    out += ["- **Why tests cannot.** " + why] if why else []
    out += ["- **Code.** `rules/%s.py`" % m for m in r["modules"]]
    if seeds.get(i):
        out += ["- **Planted bugs caught.** " + "; ".join("`%s` (%s)" % s for s in seeds[i])]
    k = [e for e in known if e["property"] == i]
    for e in k:
        if e["status"] == "open":
            out += ["- **Known finding** `%s`: %s" % (e["key"], e["what"])]
        else:
            out += ["- **Repaired** in %s: %s" % (e.get("commit", "?")[:9], e["what"])]
    out += [""]
out += [open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
