"""The non-zero container never holds an empty value: it is built only behind an emptiness test, its field is private,
and nothing hands out mutable access to it."""
from rules.common import *
from rules import wire as W
from rules.dec import *
from rules.p_decsafe import length_src, impossible, where, reader_of, decoders

NZ = "mabo::NonZero"


def mentions(fn):
    return "'%s'" % NZ in repr(fn.body)


def nz_values(v):
    for x in walk(v):
        if isinstance(x, tuple) and len(x) == 5 and x[0] == "adt" and x[1] == NZ:
            yield x[4][0]


def nonempty(I, o, x, fn):
    """does the path establish that x holds something?"""
    s = strip_views(x)
    if is_t(s, "fld") and s[-1] == "0" and fn.self_s and fn.self_s.startswith("mabo::NonZero"):
        return True        # taken out of (a clone of) an existing container
    for e in o.events:
        if e[0] == "cond" and not e[2] and is_t(e[1], "eq") and e[1][2] == ("int", 0):
            b = e[1][3]
            if is_t(b, "len") and (b[2] == x or strip_views(b[2]) == s):
                return True
            if b == length_src(T("len", x)):
                return True
        if e[0] == "cond" and e[2] and is_t(e[1], "lt") and e[1][2] == ("int", 0) and is_t(e[1][3], "len") and strip_views(e[1][3][2]) == s:
            return True
    fake = A.State()
    fake.events = o.st.events
    fake.ev("cond", T("eq", ("int", 0), T("len", x)), True)
    return impossible(I, A.Outcome("panic", None, fake), None)


def run(db, R):
    a = db.adts.get(NZ)
    if a is None:
        R.undec("container", "type not found")
        return
    for f in a["variants"][0]["fields"]:
        R.n("fields of the container")
        if f[2]:
            R.v("field:" + f[0], "%s:%s the content of the non-zero container is a public field" % (a["file"], a["line"]))
    entry = []
    for fn in db.fns.values():
        if fn.crate.name != "mabo" or fn.kind == "Closure":
            continue
        ret = fn.local_ty(0)["s"]
        if "NonZero<" in ret or mentions(fn):
            entry.append(fn)
        mutable(db, R, fn)
    for fn in sorted(entry, key=lambda f: f.id):
        ret = fn.local_ty(0)
        I = W.interp(db)
        args = I.arg_terms(fn)
        try:
            outs = I.run(fn, args)
        except A.Unsupported as e:
            R.undec(fn.name, str(e))
            continue
        R.saw(fn)
        if ret["k"] == "ref" and ret.get("mut") and fn.argc and "mabo::NonZero" in fn.local_ty(1)["s"]:
            R.v("mutref:" + fn.name, "%s (%s) hands out mutable access to the content" % (fn.name, loc(fn)))
        for o in outs:
            if o.kind != "ret":
                continue
            for x in nz_values(o.value):
                if nonempty(I, o, x, fn):
                    R.n("constructions behind an emptiness check")
                    R.sample("%s: %s" % (fn.name, show(x)[:120]))
                else:
                    R.v("build:%s:%s" % (fn.name, fn.self_s or ""), "%s (%s) builds a non-zero container from %s without knowing that it is not empty" % (fn.name, loc(fn), show(x)[:200]))
            # the checked constructor must not refuse a non-empty value
            if fn.item == "new" and fn.self_s and fn.self_s.startswith(NZ + "<") and o.value[0] == "adt" and o.value[3] == "None":
                z = any(e[0] == "cond" and e[2] and is_t(e[1], "eq") and e[1][2] == ("int", 0) and is_t(e[1][3], "len") for e in o.events)
                R.n("refusals")
                if not z:
                    R.v("refuse:%s:%s" % (fn.name, fn.self_s), "%s (%s) for %s refuses a value that need not be empty" % (fn.name, loc(fn), fn.self_s))
        # integers: the unchecked constructor of the standard library
        for o in outs:
            for e in A.flat_events(o.events):
                if e[0] == "call" and isinstance(e[1], str) and e[1].endswith("::new_unchecked"):
                    R.v("unchecked:" + fn.name, "%s (%s) builds a non-zero integer without a check" % (fn.name, where(e[4])))
    R.floor("constructions behind an emptiness check", 8)
    R.floor("refusals", 4)


def mutable(db, R, fn):
    """mutable borrows of, or writes into, the content of a container"""
    I = A.Interp(db)
    fr = A.Frame(fn, 0, ())
    for b in fn.blocks:
        for s in (b or {}).get("s", ()):
            if s[0] != "=":
                continue
            for pl, how in ((s[1], "writes"), (s[2][2] if mut_borrow(s[2]) else None, "mutably borrows")):
                if pl is None or len(pl) < 2:
                    continue
                k = through(I, fr, pl)
                if k:
                    R.v("mut:%s" % fn.name, "%s (%s line %s) %s the content of a non-zero container" % (fn.name, fn.file, s[3] if len(s) > 3 else "?", how))


def mut_borrow(r):
    return r[0] == "ref" and r[1] in ("mut", "raw")


def through(I, fr, pl):
    for n in range(1, len(pl)):
        p = pl[n]
        if isinstance(p, list) and p and p[0] == "f":
            ty = I.place_ty(fr, pl[:n])
            if ty is not None and ty.get("k") == "adt" and ty.get("adt") == NZ:
                return True
    return False
