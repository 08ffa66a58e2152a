#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decides one property from /repo's current source."""
import sys, os, json, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
from facts import DB, FactsError
from rules.common import Report, OutOfTime, limit
from rules.registry import RULES
from rules.lsp import Undecided
from rules.syntax import Gap
from absint import Unsupported
NOT_UNDERSTOOD = (Undecided, Gap, Unsupported)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    ev_dir = os.environ.get("MABO_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(ev_dir, exist_ok=True)
    R = Report(prop, tier)
    entry = RULES[prop]
    try:
        db = DB()
    except FactsError as e:
        print("ERROR: facts could not be extracted from /repo:\n%s" % e)
        return 2
    for mod in entry["modules"]:
        m = importlib.import_module("rules." + mod)
        try:
            limit(660)
            try:
                m.run(db, R)
            finally:
                limit(0)
        except (OutOfTime, MemoryError):
            R.undec(mod, "the analysis takes too long")
        except NOT_UNDERSTOOD as x:
            R.undec(mod, "%s: %s" % (type(x).__name__, str(x)[:200]))
        except Exception as x:
            # the code has a shape that the rules of this module were not written for: nothing is claimed about it
            import traceback
            traceback.print_exc()
            R.undec(mod, "the analysis does not cope with this code: %s: %s" % (type(x).__name__, str(x)[:200]))
    R.finish()
    known = load_known(prop)
    new, seen = [], []
    for key, text in R.viol:
        (seen if key in known else new).append((key, text))
    for key, text in seen:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known[key]))
    lines = []
    for key, text in new:
        lines.append("[%s] %s" % (key, text))
    replay = os.path.join(ev_dir, prop + ".violations.txt")
    if new:
        with open(replay, "w") as fh:
            fh.write("\n".join(lines) + "\n")
        for l in lines:
            print(l)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(replay, HERE)))
    elif os.path.exists(replay):
        os.unlink(replay)
    cov = {"explanation": entry["explain"], "rule": entry["rule"], "counts": R.counts,
           "functions_analysed": len(R.functions), "functions": sorted(R.functions)[:400],
           "undecided": R.undecided, "samples": R.samples,
           "mir_functions_extracted": len(db.fns), "crates": sorted(db.crates)}
    cov.update(getattr(R, "coverage", {}))
    with open(os.path.join(ev_dir, prop + ".json"), "w") as fh:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": entry.get("level", "other"),
                   "coverage": cov, "assumptions": entry.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}, fh, indent=1)
    for u in R.undecided:
        print("undecided: " + u)
    print("%s: %s; %d function(s), %d violation(s), %d known, %.1fs" % (
        prop, ", ".join("%d %s" % (v, k) for k, v in sorted(R.counts.items())), len(R.functions), len(new), len(seen), time.time() - t0))
    return 1 if new else 0


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)):
            if e["property"] == prop and e.get("status", "open") == "open":
                out[e["key"]] = e["what"]
    return out


if __name__ == "__main__":
    sys.exit(main())
