#!/usr/bin/env python3
"""Development aid: refactor.py SPEC PROPS [names…]: applies each behaviour-preserving edit to a scratch copy and reports the checks that do not stay quiet."""
import sys, os, subprocess, runpy
M = os.environ.get("MREPO", "/tmp/mrepo")
R = runpy.run_path(sys.argv[1])["REF"]
props = sys.argv[2].split(",")
env = dict(os.environ, MABO_REPO=M, MABO_CACHE=os.environ.get("MCACHE", "/tmp/mcache"), MABO_EVIDENCE="/tmp/mev")
for n, edits in R.items():
    if len(sys.argv) > 3 and n not in sys.argv[3:]:
        continue
    subprocess.run("git fetch -q origin && git reset -q --hard && git checkout -q --detach " + os.environ.get("BASE", "$(git -C /repo rev-parse HEAD)") + " && git clean -qfd -e target", shell=True, cwd=M, check=True)
    for f, o, w in edits:
        s = open(os.path.join(M, f)).read()
        assert o in s, (n, f, o[:200])
        open(os.path.join(M, f), "w").write(s.replace(o, w, 1))
    for p in props:
        r = subprocess.run([sys.executable, "/verif/check.py", p], capture_output=True, text=True, env=env)
        out = r.stdout.strip().splitlines()
        und = [l for l in out if l.startswith("undecided")]
        print(n, p, "exit", r.returncode, "undecided", len(und), out[-1][:150] if out else "")
        if r.returncode:
            for l in out[:3] if r.returncode == 1 else out[-10:]:
                if not l.startswith(("KNOWN", "undecided")) or r.returncode == 2:
                    print("      " + l[:420])
            print(r.stderr[-600:])
        for l in und[:2]:
            print("      " + l[:300])
