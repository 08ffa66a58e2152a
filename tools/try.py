#!/usr/bin/env python3
"""Development aid: apply an edit (file old new, or a patch) to a scratch copy of /repo and run checks on it.
usage: try.py [-p PROPS] [-d patch.diff | FILE OLD NEW ...]   (never used by a registered command)"""
import sys, os, subprocess, argparse, shutil
ap = argparse.ArgumentParser()
ap.add_argument("-p", default="")
ap.add_argument("-d", default=None)
ap.add_argument("-t", action="store_true", help="cargo test too")
ap.add_argument("-k", action="store_true", help="keep the previous edits")
ap.add_argument("edits", nargs="*")
a = ap.parse_args()
M = os.environ.get("MREPO", "/tmp/mrepo")
if not os.path.exists(M):
    subprocess.run(["git", "clone", "-q", "/repo", M], check=True)
if not a.k:
    subprocess.run("git fetch -q origin && git reset -q --hard && git checkout -q --detach $(git -C /repo rev-parse HEAD) && git clean -qfd -e target", shell=True, cwd=M, check=True)
if a.d:
    subprocess.run(["git", "apply", os.path.abspath(a.d)], cwd=M, check=True)
e = a.edits
for i in range(0, len(e), 3):
    f = os.path.join(M, e[i])
    s = open(f).read()
    if e[i + 1] not in s:
        sys.exit("NOT FOUND in %s: %s" % (e[i], e[i + 1]))
    open(f, "w").write(s.replace(e[i + 1], e[i + 2], 1))
if a.t:
    r = subprocess.run(["cargo", "test", "--offline", "--workspace", "-q"], cwd=M, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/mtarget"))
    print("tests:", "ok" if r.returncode == 0 else "FAIL\n" + r.stdout[-1500:] + r.stderr[-1500:])
sys.path.insert(0, "/verif")
from rules.registry import RULES
env = dict(os.environ, MABO_REPO=M, MABO_CACHE=os.environ.get("MCACHE", "/tmp/mcache"), MABO_EVIDENCE="/tmp/mev")
for p in (a.p.split(",") if a.p else sorted(RULES)):
    r = subprocess.run([sys.executable, "/verif/check.py", p], capture_output=True, text=True, env=env)
    out = r.stdout.strip().splitlines()
    print(p, "exit", r.returncode, r.stderr[-800:])
    for l in out[-6:]:
        print("    " + l[:400])
    if r.returncode == 2:
        break
