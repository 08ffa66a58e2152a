"""Development aid: mutate.py OUT PROPS PKGS FILES... : generate source mutants, keep those that compile, list the ones no check reports
together with whether the repository's tests kill them."""
import sys, os, re, subprocess, json, random
from concurrent.futures import ThreadPoolExecutor
import threading, queue
out, props, pkgs = sys.argv[1:4]
files = sys.argv[4:]
N = int(os.environ.get("WORKERS", "3"))
LIMIT = int(os.environ.get("LIMIT", "100000"))


def mutants(f):
    src = open("/repo/" + f).read()
    lines = src.split("\n")
    cut = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    depth_doc = False
    for i, l in enumerate(lines[:cut]):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or s.startswith("pub use") or s.startswith("#!["):
            continue
        seen = set()
        def emit(nl, why):
            if nl != l and nl not in seen:
                seen.add(nl)
                return [(f, i, nl, why)]
            return []
        for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", l):
            v = int(m.group())
            for nv in (v + 1, v - 1) if v else (1,):
                yield from emit(l[:m.start()] + str(nv) + l[m.end():], "num")
        for m in re.finditer(r"0x[0-9a-f]+", l):
            v = int(m.group(), 16)
            for nv in (v >> 1, v << 1):
                yield from emit(l[:m.start()] + hex(nv) + l[m.end():], "hex")
        for a, b in ((" + ", " - "), (" - ", " + "), (" * ", " + "), (" / ", " * "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
                     (" && ", " || "), (" || ", " && "), (" << ", " >> "), (" >> ", " << "), (" & ", " | "), (" | ", " & "), ("true", "false"), ("false", "true"), ("if !", "if "), ("if ", "if !"),
                     ("is_empty", "is_empty_"), ("Some(", "None.or("), ("_u64", "_u32"), ("_u32", "_u64"), ("_u8", "_i8"), ("_i64", "_u64"), ("_i32", "_u32"), ("_i16", "_u16"), ("_u16", "_u32"), ("_u128", "_u64"), ("_i128", "_i64"),
                     ("_le", ""), (".iter()", ".iter().skip(1)"), (".iter()", ".iter().rev()"), ("key", "value"), ("value", "key"), ("as usize", "as u32 as usize"), ("as usize", "as u8 as usize"), ("size_u8", "size_u64"), ("Varint", "Fixed1"), ("Fixed4", "Fixed8"), ("LengthPrefixed", "Varint"),
                     (".sum::<usize>()", ".max().unwrap_or(0)"), ("Err(", "Ok("), ("required", "optional"), (".any(", ".all("), (".all(", ".any("), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), ("Ok(", "Err("), (".enumerate()", ".skip(1).enumerate()"), ("continue", "break"), ("break", "continue"), (".chain(", ".take(1).chain(")):
            st = 0
            while True:
                k = l.find(a, st)
                if k < 0:
                    break
                yield from emit(l[:k] + b + l[k + len(a):], a.strip() + "->" + b.strip())
                st = k + 1
        if re.match(r"^\s*[\w.:&*!]+[^{}]*;$", l) and not re.match(r"^\s*(let|use|return|pub|const|type|static|mod|impl|fn)\b", l):
            yield from emit(re.match(r"^\s*", l).group() + "", "delete")
        if re.match(r"^\s*[^{}]*\)\?,?$", l) is None and re.match(r"^\s*\S+.*=>.*,$", l) and "=> {" not in l:
            pass
        m = re.match(r"^(\s*)(.+ => .+,)$", l)
        if m and i + 1 < len(lines):
            # swap the bodies of adjacent one-line match arms
            n = re.match(r"^(\s*)(.+) => (.+),$", lines[i + 1])
            k = re.match(r"^(\s*)(.+) => (.+),$", l)
            if n and k and n.group(3) != k.group(3):
                yield from emit("%s%s => %s," % (k.group(1), k.group(2), n.group(3)), "arm")


allm = [m for f in files for m in mutants(f)]
random.seed(int(os.environ.get("SEED", "1")))
random.shuffle(allm)
allm = allm[:LIMIT]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l)
        done.add((d["file"], d["line"], d["new"]))
q = queue.Queue()
for m in allm:
    if (m[0], m[1] + 1, m[2]) not in done:
        q.put(m)
print(q.qsize(), "mutants")
lk = threading.Lock()


def work(w):
    M = "/tmp/mw%d" % w
    subprocess.run(["rm", "-rf", M])
    subprocess.run(["git", "clone", "-q", "/repo", M], check=True)
    env = dict(os.environ, MABO_REPO=M, MABO_CACHE="/tmp/mwc%d" % w, MABO_PKGS=pkgs, NEW="1")
    tenv = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR="/tmp/mwt%d" % w, INSTA_UPDATE="no", INSTA_FORCE_PASS="0", INSTA_WORKSPACE_ROOT=M, CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    while True:
        try:
            f, i, nl, why = q.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(M, f)
        src = open("/repo/" + f).read()
        ls = src.split("\n")
        old = ls[i]
        ls[i] = nl
        open(p, "w").write("\n".join(ls))
        rec = {"file": f, "line": i + 1, "old": old.strip(), "new": nl, "why": why}
        try:
            r = subprocess.run([sys.executable, "/verif/tools/allchecks.py", props], capture_output=True, text=True, env=env, timeout=600)
            if r.returncode:
                rec["res"] = "nobuild" if "FactsError" in r.stderr else "error " + r.stderr[-300:]
            else:
                v = [l for l in r.stdout.splitlines() if " VIOL " in l]
                rec["res"] = "caught" if v else "missed"
                rec["by"] = [l.split()[0] for l in v]
                rec["undec"] = [l[:160] for l in r.stdout.splitlines() if " UNDEC " in l or " CRASH " in l]
                if not v:
                    t = subprocess.run("cargo nextest run --workspace --all-features --offline --locked --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml --profile vp --test-threads 4 2>&1 | grep -E '^ *(FAIL|error)' | sort -u | head -3", shell=True, cwd=M, env=tenv, capture_output=True, text=True, timeout=900).stdout
                    rec["tests"] = t.strip()
        except subprocess.TimeoutExpired:
            rec["res"] = "timeout"
        open(p, "w").write(src)
        with lk:
            with open(out, "a") as fh:
                fh.write(json.dumps(rec) + "\n")


with ThreadPoolExecutor(N) as ex:
    list(ex.map(work, range(N)))
