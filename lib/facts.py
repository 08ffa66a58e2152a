"""Fact base: builds the rustc driver, runs it over /repo's current working tree, loads the facts."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MABO_REPO", "/repo")
CACHE = os.environ.get("MABO_CACHE", os.path.join(VERIF, ".cache"))
PACKAGES = os.environ["MABO_PKGS"].split(",") if os.environ.get("MABO_PKGS") else ["mabo", "mabo-build", "mabo-cli", "mabo-compiler", "mabo-derive", "mabo-doc", "mabo-go",
            "mabo-lsp", "mabo-meta", "mabo-parser", "mabo-project"]
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"


class FactsError(Exception):
    pass


def _env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC"):
        env.pop(k, None)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", "")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def _sysroot():
    return subprocess.run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"], capture_output=True, text=True,
                          env=_env(), check=True).stdout.strip()


def tree_hash():
    h = hashlib.sha256()
    with open(os.path.join(VERIF, "driver", "driver.rs"), "rb") as f:
        h.update(f.read())
    roots = ["Cargo.toml", "Cargo.lock", "crates"]
    files = []
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", "node_modules", ".git"))
            for f in fs:
                if f.endswith((".rs", ".toml", ".lock", ".html", ".css", ".mabo", ".txt", ".md", ".svg", ".js")):
                    files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def build_driver():
    src = os.path.join(VERIF, "driver", "driver.rs")
    with open(src, "rb") as f:
        hh = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(CACHE, "driver-" + hh)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "+" + TOOLCHAIN, "--edition", "2021", "-O", src, "-o", tmp],
                           capture_output=True, text=True, env=_env(), cwd=CACHE)
        if r.returncode != 0:
            raise FactsError("driver does not build: " + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def extract():
    """Returns the directory with the facts of the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = tree_hash()
        out = os.path.join(CACHE, "facts-" + key)
        if os.path.exists(os.path.join(out, "DONE")):
            return out
        driver = build_driver()
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(CACHE, "target")
        # cargo's freshness cache would skip the wrapper on a warm target directory: drop the workspace units
        for sub in ("debug/build", "debug/.fingerprint"):
            d = os.path.join(target, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n == "mabo" or n.startswith("mabo-") or n.startswith("mabo_"):
                        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        env = _env()
        env["MABO_FACTS_DIR"] = tmp
        env["LD_LIBRARY_PATH"] = _sysroot() + "/lib"
        env["RUSTC_WORKSPACE_WRAPPER"] = driver
        env["CARGO_TARGET_DIR"] = target
        cmd = ["cargo", "+" + TOOLCHAIN, "check", "--offline", "--locked"]
        for p in PACKAGES:
            cmd += ["-p", p]
        r = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=REPO)
        if r.returncode != 0:
            raise FactsError("cargo check failed: " + r.stderr[-4000:])
        for old in os.listdir(CACHE):
            if old.startswith("facts-") and not old.endswith(".tmp") and old != os.path.basename(out):
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        open(os.path.join(tmp, "DONE"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out
    finally:
        lock.close()


_GEN = re.compile(r"::<")


def strip_generics(name):
    """`alloc::vec::Vec::<T, A>::push` -> `alloc::vec::Vec::push` (leading `<X as Y>` kept)."""
    if "::<" not in name:
        return name
    out = []
    i = 0
    n = len(name)
    while i < n:
        if name.startswith("::<", i) and not name.startswith("::<impl", i):
            depth = 0
            i += 2
            while i < n:
                c = name[i]
                if c == "<":
                    depth += 1
                elif c == ">" and name[i - 1] != "-":
                    depth -= 1
                    if depth == 0:
                        i += 1
                        break
                i += 1
            continue
        out.append(name[i])
        i += 1
    return "".join(out)


class Crate:
    def __init__(self, key, d):
        self.key = key
        self.name = d["crate"]
        self.types = d["types"]
        self.d = d

    def ty(self, i):
        return self.types[i]

    def rty(self, i):
        """Type with its pointee resolved in place (borrows of borrows)."""
        t = self.types[i]
        if t["k"] == "ref" and "e2" not in t and isinstance(t.get("e"), int):
            t["e2"] = self.rty(t["e"])
        return t

    def tstr(self, i):
        return self.types[i]["s"]


class Fn:
    __slots__ = ("crate", "id", "name", "item", "kind", "file", "line", "body", "promoted", "d", "argc", "blocks",
                 "locals", "_loops", "generics", "trait", "self_s")

    def __init__(self, crate, d):
        self.crate = crate
        self.d = d
        self.id = d["id"]
        self.name = strip_generics(d["name"])
        self.item = d.get("item")
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.body = d["body"]
        self.promoted = d.get("promoted", [])
        self.argc = self.body["argc"]
        self.blocks = self.body["blocks"]
        self.locals = self.body["locals"]
        self._loops = None
        self.generics = d.get("generics", [])
        self.trait = d.get("trait")
        self.self_s = crate.tstr(d["self"]) if "self" in d else None

    def local_ty(self, l):
        return self.crate.ty(self.locals[l][0])

    def __repr__(self):
        return "Fn(%s)" % self.id


class DB:
    def __init__(self, d=None):
        self.dir = d or extract()
        self.crates = {}
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.consts = {}
        self.fnmeta = {}
        self._mentions = {}
        for f in sorted(os.listdir(self.dir)):
            if not f.endswith(".json"):
                continue
            with open(os.path.join(self.dir, f)) as fh:
                d = json.load(fh)
            key = f[:-5]
            c = Crate(key, d)
            self.crates[key] = c
            for it in d["items"]:
                fn = Fn(c, it)
                self.fns[fn.id] = fn
            for a in d["fadts"]:
                self.adts.setdefault(a["id"], a)
        for c in self.crates.values():
            for a in c.d["adts"]:
                a["crate"] = c
                self.adts[a["id"]] = a
            for im in c.d["impls"]:
                im["crate"] = c
                self.impls.append(im)
        self.by_name = {}
        for fn in self.fns.values():
            self.by_name.setdefault(fn.name, []).append(fn)

    def fn(self, id_):
        return self.fns.get(id_)

    def mentions(self, fn):
        """Ids of the functions and closures that the body of `fn` names (calls or passes on), promoted constants included."""
        r = self._mentions.get(fn.id)
        if r is None:
            r = set()
            todo = [fn.blocks, fn.promoted]
            while todo:
                x = todo.pop()
                if isinstance(x, dict):
                    f = x.get("fn")
                    if isinstance(f, dict) and "id" in f:
                        r.add(f.get("res") or f["id"])
                    todo.extend(x.values())
                elif isinstance(x, list):
                    if len(x) == 2 and x[0] == "closure" and isinstance(x[1], str):
                        r.add(x[1])
                    todo.extend(v for v in x if isinstance(v, (list, dict)))
            self._mentions[fn.id] = r
        return r

    def reach(self, fn, crates=None):
        """Functions of the workspace reachable from `fn` (itself included)."""
        seen = {fn.id: fn}
        todo = [fn]
        while todo:
            for i in self.mentions(todo.pop()):
                g = self.fns.get(i)
                if g is not None and i not in seen and (crates is None or g.crate.name in crates):
                    seen[i] = g
                    todo.append(g)
        return seen

    def find(self, crate=None, item=None, kind=("Fn", "AssocFn"), pred=None):
        out = []
        for f in self.fns.values():
            if crate and f.crate.name != crate:
                continue
            if f.kind not in kind:
                continue
            if item and f.item != item:
                continue
            if pred and not pred(f):
                continue
            out.append(f)
        return out

    def variants(self, adt_id):
        a = self.adts.get(adt_id)
        return a["variants"] if a else None


if __name__ == "__main__":
    t = time.time()
    print(extract(), "%.1fs" % (time.time() - t))
