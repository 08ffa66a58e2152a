#!/usr/bin/env python3
"""Development aid: plant.py SPEC.py -- SPEC defines id, property, needs, breaks, edits [(file, old, new)], files {name: text}.
Creates /verif/seeded/<id>, confirms that the demo passes without and fails with the patch and that the tests still pass."""
import sys, os, subprocess, json, shutil, runpy
S = runpy.run_path(sys.argv[1])
M = os.environ.get("MREPO", "/tmp/mrepo")
quick = "-q" in sys.argv
def sh(c, cwd=M, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
if not os.path.exists(M):
    subprocess.run(["git", "clone", "-q", "/repo", M], check=True)
def reset():
    subprocess.run("git fetch -q origin && git reset -q --hard && git checkout -q --detach ${PHEAD:-$(git -C /repo rev-parse HEAD)} && git clean -qfd -e target", shell=True, cwd=M, check=True)
for spec in S["BUGS"]:
    if [a for a in sys.argv[2:] if a != "-q"] and spec["id"] not in sys.argv[2:]:
        continue
    d = os.environ.get("SEEDED", "/verif/seeded/") + spec["id"]
    os.makedirs(d, exist_ok=True)
    for n, t in spec["files"].items():
        open(os.path.join(d, n), "w").write(t)
    if "demo.sh" not in spec["files"]:
        shutil.copy("/verif/tools/demo_rt.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    reset()
    r0 = sh("bash %s/demo.sh" % d)
    for f, o, n in spec["edits"]:
        s = open(os.path.join(M, f)).read()
        assert o in s, (spec["id"], f, o)
        if spec.get("last"):
            i = s.rindex(o)
            s = s[:i] + n + s[i + len(o):]
        else:
            s = s.replace(o, n, spec.get("count", 1))
        open(os.path.join(M, f), "w").write(s)
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    r1 = sh("bash %s/demo.sh" % d)
    t = sh("bash /verif/tools/mtest.sh").stdout if not quick else ""
    okt = "FAIL" not in t and "error" not in t
    print(spec["id"], spec["property"], "demo clean:", r0.returncode, "patched:", r1.returncode, "tests:", "ok" if okt else "FAIL " + t[-600:])
    if r0.returncode: print(r0.stdout[-500:], r0.stderr[-1500:])
    if r1.returncode == 0: print("NOT SHOWN")
    else: print("   ", (r1.stdout + r1.stderr)[-300:].replace("\n", " | "))
    env = dict(os.environ, MABO_REPO=M, MABO_CACHE=os.environ.get("MCACHE", "/tmp/mcache"), MABO_EVIDENCE="/tmp/mev")
    sys.path.insert(0, "/verif")
    from rules.registry import RULES
    hits = []
    for p in [spec["property"]] + [x for x in sorted(RULES) if x != spec["property"]]:
        if p not in RULES:
            continue
        r = subprocess.run([sys.executable, "/verif/check.py", p], capture_output=True, text=True, env=env)
        if r.returncode:
            hits.append(p + ("" if r.returncode == 1 else "(exit %d)" % r.returncode))
            if p == spec["property"]:
                print("   ", r.stdout.splitlines()[0][:300])
    print("    caught by:", hits, "" if spec["property"] in hits else "  <<<<<<< MISSED")
    reset()
