"""No decoder panics or reads past the end, whatever the bytes."""
from rules.common import *
from rules import wire as W
from rules.dec import *


def decoders(db):
    out = []
    for f in db.fns.values():
        if f.crate.name != "mabo" or f.kind not in ("Fn", "AssocFn"):
            continue
        if f.kind == "Fn" and f.id.startswith("mabo::buf::") and f.item.startswith("decode_"):
            out.append(f)
        elif f.trait and f.trait.endswith("Decode") and f.item == "decode":
            out.append(f)
    return out


def reader_of(fn):
    for i in range(fn.argc):
        ty = fn.local_ty(i + 1)
        if ty["k"] == "ref" and ty["mut"]:
            return i
    return 0


def impossible(I, o, w):
    """Is the panic path contradictory? Emptiness of something whose length is known to be non-zero."""
    zero = []
    nonzero = set()
    pushes = []
    firsts = set()
    f = Facts()
    for e in o.events:
        if e[0] == "cond":
            f.cond(e[1], e[2])
            c, val = e[1], e[2]
            if is_t(c, "eq") and c[2] == ("int", 0):
                (zero.append(c[3]) if val else nonzero.add(c[3]))
        elif e[0] == "call" and isbufcall(e, "take"):
            ver, n, res = e[2][0], e[2][1], e[3]
            if n in f.nonzero and f.atleast(ver, n):
                firsts.add(res)
        elif e[0] == "loop":
            # the loop runs at least once when its guard is `window not empty` and the window starts non-empty
            runs = False
            for it in e[2]:
                for x in it:
                    if x[0] == "cond" and is_t(x[1], "call") and str(x[1][2]) == GET + "has_remaining" and root(x[1][3][0]) in firsts:
                        runs = True
                        break
            if runs:
                filled = None
                for it in e[2]:
                    s = set()
                    for x in it:
                        if x[0] == "call" and isinstance(x[1], str) and x[1].split("::")[-1] in ("insert", "push"):
                            s.add(root(x[2][0]))
                    filled = s if filled is None else filled & s
                pushes += list(filled or ())
                pushes.append("vec")
    for z in zero:
        b = length_src(z)
        if b in nonzero:
            return True
        if is_t(z, "len"):
            x = strip_views(z[2])
            if root(x) in pushes:
                return True
            if x[0] == "vec" and "vec" in pushes and x[1] and all(y[0] == "rep" and all(len(alt) for alt in y[1]) for y in x[1]):
                return True
    return False


def length_src(z):
    """The quantity a length denotes: len(copy_to_bytes(r, n)) = n, utf-8 conversion keeps the length."""
    if not is_t(z, "len"):
        return z
    x = z[2]
    while True:
        y = strip_views(x)
        if is_t(y, "fld") and "Ok" in y[3:] and is_t(y[2], "call") and str(y[2][2]).endswith("::from_utf8"):
            y = y[2][3][0]
        if y is x or y == x:
            break
        x = y
    if is_t(x, "call") and str(x[2]) == GET + "copy_to_bytes":
        return x[3][1]
    return T("len", x)


def run(db, R):
    for fn in sorted(decoders(db), key=lambda f: f.name):
        I = W.interp(db)
        ri = reader_of(fn)
        args = I.arg_terms(fn)
        args[ri] = T("arg", "r")
        try:
            I.iter_panics = []
            outs = I.run(fn, args)
            outs = outs + I.iter_panics
        except A.Unsupported as e:
            R.undec(fn.name, str(e))
            continue
        R.saw(fn)
        R.n("decoders")
        for o in outs:
            R.n("paths")
            w = Walk(I, T("arg", "r"))
            try:
                w.run(o.events)
            except W.Unknown as e:
                R.undec(fn.name, str(e))
                continue
            for what, okk, site in w.obligations:
                R.n("buffer accesses proven in bounds" if okk else "buffer accesses not proven")
                if not okk:
                    R.v("bounds:%s:%s" % (fn.name, what.split(" of ")[0].split(" by ")[0]), "%s (%s): %s without a preceding check on the same path that enough bytes remain" % (fn.name, where(site), what))
            if o.kind == "panic":
                if impossible(I, o, w):
                    R.n("panic paths refuted")
                else:
                    R.v("panic:%s:%s" % (fn.name, str(o.info[0]).split("::")[-1]), "%s: a path ends in a panic (%s at %s line %s) that no check excludes" % (fn.name, o.info[0], o.info[1], o.info[2]))
            for e in A.flat_events(o.events):
                if e[0] in ("assert", "assertfail"):
                    R.v("assert:%s:%s" % (fn.name, e[1]), "%s (%s): arithmetic or index check (%s %s) on decoded data can fail" % (fn.name, where(e[4]), e[1], e[2]))
    R.floor("decoders", 55)
    R.floor("buffer accesses proven in bounds", 120)


def where(site):
    return "%s line %s" % (site[0].split("::")[-1], site[1])
