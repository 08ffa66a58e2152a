"""Shared by the rules about the command line tools: which calls can fail, what a path did about it, what was written where."""
import absint as A
from absint import is_t, T, walk, show
from rules.common import loc, strip_views
from rules.trace import *

FAILING = ("std::fs::", "std::path::Path::strip_prefix", "std::path::Path::canonicalize", "std::process::Command::", "std::process::Child::",
           "std::env::current_dir", "syn::", "glob::glob", "ignore::", "globset::", "toml::", "mabo", "std::io::", "serde_json::", "crossbeam_channel::", "lsp_server::")
WRITES = ("std::fs::write",)
OTHER_WRITES = ("std::fs::File::create", "std::fs::File::options", "std::fs::OpenOptions", "std::fs::rename", "std::fs::copy", "std::fs::remove", "std::io::Write::")


class Undecided(Exception):
    pass


ROLES = {
    "parse": ("mabo_parser", "mabo_parser::Schema::parse", lambda a, r: r.startswith("core::result::Result<mabo_parser::Schema<") and len(a) == 2),
    "validate": ("mabo_compiler", "mabo_compiler::validate::schema", lambda a, r: len(a) == 1 and a[0].startswith("&mabo_parser::Schema<") and r.startswith("core::result::Result<()")),
    "resolve": ("mabo_compiler", "mabo_compiler::resolve::schemas", lambda a, r: len(a) == 1 and a[0].startswith("&[(&str, &mabo_parser::Schema<") and r.startswith("core::result::Result<()")),
    "simplify": ("mabo_compiler", "mabo_compiler::simplify::schema", lambda a, r: len(a) == 1 and a[0].startswith("&mabo_parser::Schema<") and r.startswith("mabo_compiler::simplify::Schema<")),
    "load": ("mabo_project", "mabo_project::load", lambda a, r: len(a) == 1 and r.startswith("core::result::Result<mabo_project::Project,")),
}


def roles(db):
    out = {}
    for k, (crate, name, sig) in ROLES.items():
        cand = [f for f in db.fns.values() if f.crate.name == crate and f.kind in ("Fn", "AssocFn") and f.name == name]
        if not cand:
            cand = [f for f in db.fns.values() if f.crate.name == crate and f.kind in ("Fn", "AssocFn") and f.d.get("pub")
                    and sig([f.local_ty(i)["s"] for i in range(1, f.argc + 1)], f.local_ty(0)["s"])]
        if len(cand) == 1:
            out[k] = cand[0].name
    return out


def fails(t):
    """Is the term the result of something that can fail (or an element of a fallible sequence)?"""
    while is_t(t, "elem"):
        t = t[2]
    return is_t(t, "call") and isinstance(t[2], str) and t[2].startswith(FAILING)


def success(o):
    """True / False / None: does the outcome report success?"""
    if o.kind != "ret":
        return False
    v = o.value
    if v[0] == "adt" and v[1] == A.RESULT:
        return v[2] == 0
    if v[0] == "adt" and v[1].endswith("process::ExitCode"):
        return exit_code(v)
    if v == A.UNIT:
        return True
    return None


def exit_code(v):
    for x in walk(v):
        if isinstance(x, tuple) and x and x[0] == "int":
            return x[1] == 0
    return None


def latches(I, e, later):
    """Alternatives of a loop that what is known after it does not rule out. A variable that the loop only ever sets to one
    value, and that still has its first value afterwards, was not set."""
    lid, alts = e[1], list(e[2])
    tab = {a: I.altcarry.get((lid, a), []) for a in alts}
    keys = {k for l in tab.values() for d in l for k in d}
    out = alts
    known = {f[1]: f[2] for f in later if f[0] in ("is", "cond")}
    for k in keys:
        vals = {a: [d.get(k) for d in l] for a, l in tab.items()}
        if is_t(k, "phi"):
            if k not in known:
                cs = {v for l in vals.values() for v in l if v != k}
                if all(truth(v) is None and not counted(k, v) and v[0] != "int" for v in cs):
                    continue    # an object handed around, not a flag
                for f in later:
                    if f[0] in ("is", "cond") and isinstance(f[1], tuple) and any(v is k for v in walk(f[1])):
                        z = unchanged(k, f) if all(counted(k, v) for v in cs) else None
                        if z is None:
                            raise Undecided("a condition on a value carried around a loop")
                        if z:
                            out = [a for a in out if k in vals[a]]
                continue
            cs = {v for l in vals.values() for v in l if v != k}
            if len(cs) == 1:
                c = next(iter(cs))
                b = truth(c)
                if b is None or not isinstance(known[k], bool):
                    raise Undecided("a condition on a value carried around a loop")
                if known[k] != b:
                    out = [a for a in out if c not in vals[a]]
            else:
                raise Undecided("a condition on a value carried around a loop")
        else:
            if len({repr(l) for l in vals.values()}) > 1:
                for f in later:
                    if f[0] in ("is", "cond", "not") and any(x[:2] == k[:2] for x in walk(f[1]) if isinstance(x, tuple) and x and x[0] == "acc"):
                        raise Undecided("a condition on what a loop accumulated")
    return out


def counted(k, v):
    """Is `v` the counter `k` plus something positive?"""
    return is_t(v, "add") and any(x == k for x in v[2:]) and all(x == k or (x[0] == "int" and x[1] > 0) for x in v[2:]) or \
        (isinstance(v, tuple) and v[0] == "int" and v[1] > 0 and k[4] == A.INT(0))


def unchanged(k, f):
    """Does the condition say that a counter still has its first value? True / False (it says the contrary) / None"""
    t, b = f[1], f[2]
    init = k[4] if len(k) > 4 else None
    if f[0] == "cond" and isinstance(b, bool) and is_t(t) and len(t) == 4 and {t[2], t[3]} == {k, init}:
        if t[1] in ("eq", "ne"):
            return b == (t[1] == "eq")
        if t[1] in ("lt", "gt"):     # init < k: it has grown
            grown = (t[1] == "lt") == (t[2] == init)
            return not b if grown else None
        if t[1] in ("le", "ge"):     # k <= init
            same = (t[1] == "le") == (t[2] == k)
            return b if same else None
    return None


def truth(v):
    if v == A.TRUE:
        return True
    if v == A.FALSE:
        return False
    return None


def loops(I, events):
    """[(index, loop event, alternatives not ruled out, complete)]"""
    out = []
    for i, e in enumerate(events):
        if e[0] == "loop":
            alts, full = alternatives(events, i)
            ok = latches(I, e, events[i + 1:])
            out.append((i, e, [a for a in alts if a in ok or a not in e[2]], full))
    return out


def failures(I, events):
    """Failing calls on a path (loops: on iterations the path does not rule out)."""
    for e in events:
        if e[0] == "is" and e[2] == "Err" and fails(e[1]):
            yield e[1]
    for i, e, alts, full in loops(I, events):
        for a in alts:
            yield from failures(I, a)


def ignored(o, result_fns):
    """Calls that can fail and whose result is never looked at on this path."""
    ev = list(flat(o.events))
    seen = {e[1] for e in ev if e[0] == "is"}
    for e in ev:
        if e[0] == "call" and is_t(e[3]) and e[3] not in seen and result_fns(e[1]) and not (o.value and mentions(o.value, e[3])):
            if not any(f[0] == "call" and f is not e and mentions(f[2], e[3]) for f in ev):
                yield e


def result_fns(db):
    memo = {}

    def f(name):
        r = memo.get(name)
        if r is None:
            r = name.startswith(("std::fs::", "syn::", "std::process::Command::", "toml::", "glob::glob"))
            for g in db.fns.values():
                if g.name == name and g.kind in ("Fn", "AssocFn"):
                    r = g.local_ty(0)["s"].startswith("core::result::Result<")
            if name in ("std::process::Command::new", "std::process::Command::arg", "std::process::Command::args"):
                r = False
            memo[name] = r
        return r
    return f


def surface(db, I, R, tool, fn, outs):
    """No path reports success after a failure it noticed, and no failure goes unnoticed."""
    rf = result_fns(db)
    for o in outs:
        if o.kind != "ret":
            continue
        R.n("paths")
        s = success(o)
        if s is None:
            R.undec("%s:result" % tool, "%s returns %s" % (fn.name, show(o.value)[:120]))
            continue
        for e in ignored(o, rf):
            R.v("%s:ignored" % tool, "%s (%s): the result of %s is never looked at" % (fn.name, loc(fn), e[1]))
        if not s:
            continue
        try:
            for t in failures(I, o.events):
                R.v("%s:swallowed" % tool, "%s (%s): reports success although %s failed" % (fn.name, loc(fn), show(t)[:160]))
        except Undecided as x:
            R.undec("%s:swallowed" % tool, str(x))


def writes(events, pre=()):
    """Every write on a path: [(events known before it, its call event)]."""
    known = list(pre)
    for e in events:
        if e[0] == "loop":
            for a in e[2]:
                yield from writes(a, known)
            known.append(e)
        else:
            if e[0] == "call" and e[1].startswith(WRITES):
                yield known[:], e
            known.append(e)


def other_writes(db, fns):
    out = set()
    for f in fns:
        for b in f.body["blocks"] if f.body else ():
            pass
        for n in db.mention_names(f) if hasattr(db, "mention_names") else ():
            if n.startswith(OTHER_WRITES):
                out.add(n)
    return out


def parts(t):
    """Components of a path term: joins flattened, formatted text as a list of its pieces."""
    t = strip_views(t)
    if is_t(t, "call") and isinstance(t[2], str) and t[2].endswith("Path::join"):
        return parts(t[3][0]) + [t[3][1]]
    return [t]


def text(t):
    """A formatted string as a list of literals and values."""
    t = strip_views(t)
    if t[0] == "str":
        return [t[1]]
    return None


def iterated(events, i):
    """What the loop at index i runs over, if that is known."""
    e = events[i]
    if e[1] == "iter":
        return e[3] if len(e) > 3 else None
    for f in events[i + 1:]:
        if f[0] == "done":
            return f[1]
        if f[0] == "loop":
            break
    return None


SAME = {"map", "enum", "inspect", "filter", "fmap", "rev", "pairp", "proj"}
CUT = {"skip", "take", "stepby", "skipw", "takew", "mapw"}


def covers(it, coll):
    """Does iterating over `it` visit (something made of) every element of the collection? True / False / None (not known).
    Elements that a filter swallows are alternatives of the loop."""
    if isinstance(it, tuple) and it and it[0] == "iter":
        names = {s[0] if isinstance(s, tuple) else s for s in it[2]}
        if names & CUT:
            return False
        if not names <= SAME | {"zip"}:
            return None
        # zipped: as many rounds as the shorter side has elements
        cs = [covers(it[1], coll)] + [covers(s[1], coll) for s in it[2] if isinstance(s, tuple) and s[0] == "zip"]
        return None if None in cs else all(cs)
    it = strip_views(it) if is_t(it) else it
    if it == coll:
        return True
    if isinstance(it, tuple) and it and it[0] == "vec" and len(it[1]) == 1 and it[1][0][0] == "rep":
        alts = it[1][0][1]
        if any(not a for a in alts):
            return False
        return True if all(mentions(a, elem(coll)) for a in alts) else None
    return None
