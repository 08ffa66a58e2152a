"""Development aid: run the rules of the given properties (default all) in one process; one line per violated property."""
import sys, os, importlib, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + "/lib"]
from facts import DB
from rules.common import Report
from rules.registry import RULES
import json
KNOWN = {(k['property'], k['key']) for k in json.load(open(H + '/known_findings.json')) if k['status'] == 'open'}
db = DB()
for p in (sys.argv[1].split(",") if len(sys.argv) > 1 else sorted(RULES)):
    R = Report(p, "quick")
    try:
        for m in RULES[p]["modules"]:
            importlib.import_module("rules." + m).run(db, R)
        R.finish()
    except Exception as e:
        print(p, "CRASH", repr(e))
        continue
    if os.environ.get("NEW"):
        R.viol = [v for v in R.viol if (p, v[0]) not in KNOWN]
    if R.viol:
        print(p, "VIOL", len(R.viol), "; ".join(t for k, t in R.viol[:2])[:300])
    if R.undecided:
        print(p, "UNDEC", len(R.undecided), R.undecided[0][:200])
