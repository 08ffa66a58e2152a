"""M20: the metadata derived from a schema (wire size bounds, next free ids) are true of the wire format."""
import itertools
import absint as A
from absint import is_t, T, walk, show
from rules.common import loc, strip_views
from rules.trace import *

CR = "mabo_meta"
TYPE = "mabo_compiler::simplify::Type"
W = 2 ** 64

EXACT = {"Bool": (1, 1), "U8": (1, 1), "I8": (1, 1), "U16": (1, 3), "I16": (1, 3), "U32": (1, 5), "I32": (1, 5), "U64": (1, 10), "I64": (1, 10), "U128": (1, 19), "I128": (1, 19),
         "F32": (4, 4), "F64": (8, 8), "String": (1, None), "StringRef": (1, None), "Bytes": (1, None), "BytesRef": (1, None), "BoxString": (1, None), "BoxBytes": (1, None)}
COLLECTIONS = {"Vec": 1, "HashMap": 2, "HashSet": 1}
SIZES = [None, (0, None), (1, None), (0, 2), (1, 1), (1, 3), (4, 4), (0, 20), (1, 10), (127, 300), (2 ** 31, 2 ** 40)]
SMALL = [None, (1, None), (0, 2), (1, 1), (4, 4), (1, 10), (100, 300)]
COUNTS = [0, 1, 2, 3, 12, 25, 26, 42, 43, 100, 127, 128, 1000, 2 ** 14, 2 ** 21 - 1, 2 ** 31, 2 ** 32 - 1]
HUGE = [(2 ** 40, 2 ** 40), (0, W - 1), (W - 1, W - 1)]


class Unsure(Exception):
    pass


def varint(n):
    return max(1, (n.bit_length() + 6) // 7)


def width_of(name):
    for w in ("u8", "u16", "u32", "u64", "u128", "usize"):
        if "<impl %s>" % w in name:
            return 64 if w == "usize" else int(w[1:])
    return 64


SOME = "Some"


class Ev:
    """Value of a term when the sizes of the components are known: an int, or ("Some", v) / "None"."""

    def __init__(self, env):
        self.env = env

    def num(self, t):
        v = self.ev(t)
        if not isinstance(v, int):
            raise Unsure(show(t)[:80])
        return v

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if not isinstance(t, tuple) or not t:
            raise Unsure(str(t))
        if t[0] == "int":
            return t[1]
        if t[0] == "adt" and t[1] == A.OPTION:
            return ("Some", self.ev(t[4][0])) if t[4] else "None"
        if t[0] == "adt":
            return t
        if t[0] != "t":
            raise Unsure(show(t)[:80])
        op = t[1]
        if op in ("eq", "ne", "lt", "le", "gt", "ge") and len(t) == 4:
            a, b = self.ev(t[2]), self.ev(t[3])
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
        if op == "not":
            return not self.ev(t[2])
        if op == "add":
            return self.fit(sum(self.num(x) for x in t[2:]))
        if op == "bin":
            a, b = self.num(t[3]), self.num(t[4])
            f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b, "Rem": lambda: a % b, "Shr": lambda: a >> b, "Shl": lambda: (a << b) % W,
                 "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b,
                 "Eq": lambda: a == b, "Ne": lambda: a != b}.get(t[2])
            if f is None or (t[2] in ("Div", "Rem") and not b):
                raise Unsure(show(t)[:80])
            r = f()
            return r if isinstance(r, bool) else self.fit(r)
        if op in ("cast",):
            return self.ev(t[-1])
        if op == "fld":
            b = self.ev(t[2])
            if t[3:] in (("Some", "0"), ("Ok", "0")):
                if isinstance(b, tuple) and b[0] == "Some":
                    return b[1]
            elif isinstance(b, dict) and len(t) == 4 and t[3] in b:
                return b[t[3]]
            raise Unsure(show(t)[:80])
        if op == "call" and isinstance(t[2], str):
            n = t[2].rsplit("::", 1)[-1]
            l = [self.num(x) for x in t[3]]
            w = width_of(t[2])
            m = 2 ** w
            if n in ("saturating_mul", "saturating_add", "saturating_sub"):
                r = {"m": l[0] * l[1], "a": l[0] + l[1], "s": l[0] - l[1]}[n[11]]
                return min(max(r, 0), m - 1)
            if n in ("checked_mul", "checked_add", "checked_sub"):
                r = {"m": l[0] * l[1], "a": l[0] + l[1], "s": l[0] - l[1]}[n[8]]
                return ("Some", r) if 0 <= r < m else "None"
            if n in ("wrapping_mul", "wrapping_add", "wrapping_sub"):
                r = {"m": l[0] * l[1], "a": l[0] + l[1], "s": l[0] - l[1]}[n[9]]
                return r % m
            if n in ("max", "min") and len(l) == 2:
                return max(l) if n == "max" else min(l)
            if n == "div_ceil" and l[1]:
                return -(-l[0] // l[1])
            if n == "leading_zeros":
                return w - l[0].bit_length()
            if n == "checked_ilog2":
                return ("Some", l[0].bit_length() - 1) if l[0] else "None"
            if n == "ilog2" and l[0]:
                return l[0].bit_length() - 1
        raise Unsure(show(t)[:80])

    def fit(self, r):
        return r

    def truth(self, e):
        """Does the event hold?"""
        if e[0] == "cond":
            return bool(self.ev(e[1])) == bool(e[2])
        v = self.ev(e[1])
        k = v if isinstance(v, str) else v[0] if isinstance(v, tuple) and v and v[0] == "Some" else None
        if isinstance(v, dict):
            k = None
        if e[0] == "is":
            if isinstance(e[2], (bool, int)):
                return v == e[2]
            return None if k is None else ({"Ok": "Some", "Err": "None"}.get(e[2], e[2]) == k)
        return None


class Once:
    """Reports each kind of violation once, with the first case that shows it."""

    def __init__(self, R):
        self.R, self.seen = R, set()

    def __getattr__(self, n):
        return getattr(self.R, n)

    def v(self, key, text):
        if key not in self.seen:
            self.seen.add(key)
            self.R.v(key, text)


def run(db, R):
    R = Once(R)
    fns = [f for f in db.fns.values() if f.crate.name == CR and f.kind in ("Fn", "AssocFn")]
    sizes = [f for f in fns if f.argc == 1 and f.local_ty(1)["s"].startswith("&" + TYPE) and f.local_ty(0)["s"] == "core::option::Option<%s::WireSize>" % CR and f.d.get("pub")]
    if len(sizes) != 1:
        R.undec("wire size", "%d functions compute the wire size of a type" % len(sizes))
    else:
        wire(db, R, sizes[0])
    ids(db, R, fns)
    printing(db, R, fns)
    R.floor("data types", 25)
    R.floor("id functions", 2)
    R.floor("printed forms", 3)


def shape(db, name, n=3):
    """Argument value of a data type variant with component terms t0, t1..."""
    vs = db.variants(TYPE)
    i, v = next((i, v) for i, v in enumerate(vs) if v["name"] == name)
    ts = [T("arg", "t%d" % k) for k in range(n)]
    if name in EXACT:
        return ("adt", TYPE, i, name, ()), []
    if name in ("Vec", "HashSet", "Option", "NonZero"):
        return ("adt", TYPE, i, name, (ts[0],)), ts[:1]
    if name == "HashMap":
        return ("adt", TYPE, i, name, (("tup", (ts[0], ts[1])),)), ts[:2]
    if name == "Array":
        return ("adt", TYPE, i, name, (ts[0], T("arg", "n"))), ts[:1]
    if name == "Tuple":
        return ("adt", TYPE, i, name, (("vec", tuple(ts)),)), ts
    if name == "External":
        return ("adt", TYPE, i, name, (T("arg", "external"),)), []
    return None, None


def wire(db, R, f):
    where = "%s (%s)" % (f.name, loc(f))
    R.saw(f)
    for v in db.variants(TYPE):
        name = v["name"]
        for n in ((2, 3, 12) if name == "Tuple" else (3,)):
            arg, comps = shape(db, name, n)
            if arg is None:
                R.undec("wire:" + name, "data type %s is not known" % name)
                continue
            I = A.Interp(db, opaque=lambda g: g.id == f.id, track_assert=True, models={f.name: bounded(db, f)} if n > 3 else None)
            I.stepping = True
            try:
                outs = I.call_fn(f, [arg], A.State(), ())
            except A.Unsupported as x:
                R.undec("wire:" + name, str(x))
                continue
            for g in I.visited:
                R.saw(g)
            R.n("data types")
            R.n("paths", len(outs))
            try:
                one(db, R, f, where, name, n, outs, comps)
            except Unsure as x:
                R.undec("wire:" + name, str(x))


def bounded(db, f):
    """The recursion of a long tuple: every component's size is known and bounded, so that no cases have to be told apart."""
    size = next(a for a, d in db.adts.items() if a == CR + "::WireSize")

    def h(I, fr, st, args, m, site, stack, tys):
        c = fld(T("call", f.name, (I.deref_read(st, args[0]),), 0), "Some", "0")
        vals = {"min": fld(c, "min"), "max": some(fld(fld(c, "max"), "Some", "0"))}
        fs = db.variants(size)[0]["fields"]
        return some(("adt", size, 0, "WireSize", tuple(vals.get(x[0], fld(c, x[0])) for x in fs)))
    return h


def some(v):
    return ("adt", A.OPTION, 1, "Some", (v,))


def record(db, v):
    return {fl[0]: x for fl, x in zip(db.variants(v[1])[0]["fields"], v[4])}


def one(db, R, f, where, name, n, outs, comps):
    calls = {}
    for o in outs:
        for t in itertools.chain((x for e in flat(o.events) for y in e if isinstance(y, tuple) for x in walk(y)), walk(o.value) if o.value else ()):
            if is_t(t, "call") and t[2] == f.name:
                calls[t] = t[3][0]
    counts = COUNTS if name == "Array" else [None]
    pool = SIZES + HUGE if len(comps) == 1 else SMALL + HUGE[1:2] if len(comps) == 2 else [None, (1, None), (0, 2), (4, 4), (1, 300), (0, W - 1)]
    # long tuples: every size in turn at every position
    combos = itertools.product(pool, repeat=len(comps)) if len(comps) < 4 else [tuple(x if i == k else (1, 2) for i in range(len(comps))) for k in range(len(comps)) for x in pool if x and x[1]]
    for combo in combos:
        for cnt in counts:
            env = {T("arg", "n"): cnt} if cnt is not None else {}
            for t, a in calls.items():
                a = strip_views(a)
                if a in comps:
                    s = combo[comps.index(a)]
                    env[t] = "None" if s is None else ("Some", {"min": s[0], "max": "None" if s[1] is None else ("Some", s[1])})
                elif a[0] == "adt" and a[3] in EXACT:
                    s = EXACT[a[3]]
                    env[t] = ("Some", {"min": s[0], "max": "None" if s[1] is None else ("Some", s[1])})
            E = Ev(env)
            hit = 0
            for o in outs:
                if not consistent(E, o):
                    continue
                hit += 1
                R.n("cases")
                bad = overflows(E, o)
                if o.kind != "ret" or bad:
                    R.v("wire:%s:panic" % name, "%s: %s for %s" % (where, bad or "panics", case(name, combo, cnt)))
                    continue
                judge(db, R, f, where, name, E, o.value, combo, cnt, comps)
            if not hit:
                raise Unsure("no path for %s" % case(name, combo, cnt))


def case(name, combo, cnt):
    s = ", ".join("a type of unknown size" if c is None else "a type of %d%s bytes" % (c[0], "" if c[1] == c[0] else ".." if c[1] is None else "..%d" % c[1]) for c in combo)
    return name + (" of %d" % cnt if cnt is not None else "") + (" over " + s if s else "")


def consistent(E, o):
    for e in o.events:
        if e[0] in ("is", "cond"):
            if not E.truth(e):
                if E.truth(e) is None:
                    raise Unsure("condition on " + show(e[1])[:80])
                return False
        elif e[0] == "loop":
            raise Unsure("a loop over the components")
    return True


def overflows(E, o):
    for e in o.events:
        if e[0] == "assertfail":
            return "%s check fails" % e[1]
        if e[0] == "assert" and e[1] == "overflow":
            a, b = (E.num(x) for x in e[3])
            r = {"Add": a + b, "Mul": a * b, "Sub": a - b}.get(str(e[2]).replace("WithOverflow", ""))
            if r is not None and not 0 <= r < W:
                return "arithmetic overflow"
    return None


def judge(db, R, f, where, name, E, v, combo, cnt, comps):
    if not (v[0] == "adt" and v[1] == A.OPTION):
        raise Unsure("result " + show(v)[:80])
    if name == "External":
        if v[4]:
            R.v("wire:External:known", "%s: gives a size for a type that is defined elsewhere" % where)
        return
    if not v[4]:
        R.v("wire:%s:unknown" % name, "%s: no size is given for %s" % (where, name))
        return
    r = v[4][0]
    if r[0] != "adt" or not {"min", "max", "inner"} <= set(record(db, r)):
        raise Unsure("result " + show(r)[:80])
    r = record(db, r)
    lo = E.num(r["min"])
    hi = E.ev(r["max"])
    hi = None if hi == "None" else hi[1]
    if hi is not None and not isinstance(hi, int):
        raise Unsure("upper bound " + show(r["max"])[:80])
    c = case(name, combo, cnt)

    def v_(key, text):
        R.v("wire:%s:%s" % (name, key), "%s: %s" % (where, text))
    if hi is not None and hi < lo:
        v_("empty", "the bounds of %s contradict each other: %d..%d" % (c, lo, hi))
    if name in EXACT:
        if (lo, hi) != EXACT[name]:
            v_("bounds", "%s is announced as %s bytes, its encoding takes %s" % (c, span(lo, hi), span(*EXACT[name])))
    elif name in COLLECTIONS:
        if (lo, hi) != (1, None):
            v_("bounds", "%s is announced as %s bytes, its encoding takes 1 byte or more" % (c, span(lo, hi)))
    elif name in ("Option", "NonZero"):
        s = combo[0]
        top = None if s is None or s[1] is None else s[1] + (1 if name == "Option" else 0)
        least = 0 if name == "Option" or s is None else s[0]
        if name == "Option" and (lo, hi) != (0, None if top is not None and top >= W else top) or lo > least or hi is not None and (top is None or hi < top):
            v_("bounds", "%s is announced as %s bytes, its encoding takes %s" % (c, span(lo, hi), span(least, top)))
    elif name == "Array":
        s = combo[0]
        b = cnt * (s[0] if s else 0)
        least = b + varint(b)
        top = None if s is None or s[1] is None else cnt * s[1]
        top = None if top is None else top + varint(top)
        if least < W and (lo > least or lo < least) or (top is None and hi is not None) or (top is not None and top < W and hi != top) or (top is not None and hi is not None and hi < top):
            v_("bounds", "%s is announced as %s bytes, its encoding takes %s" % (c, span(lo, hi), span(least, top)))
    elif name == "Tuple":
        least = sum(s[0] if s else 0 for s in combo)
        top = None if any(s is None or s[1] is None for s in combo) else sum(s[1] for s in combo)
        if lo > least or (least < W and lo < least) or (top is None and hi is not None) or (top is not None and top < W and (hi is None or not top <= hi <= top + varint(top))) or (hi is not None and top is not None and hi < top):
            v_("bounds", "%s is announced as %s bytes, its encoding takes %s" % (c, span(lo, hi), span(least, top)))
        elif top is not None and hi is not None and hi < top + varint(top):
            v_("prefix", "as a field a tuple has a length prefix, which the announced upper bound leaves out")
    # the listed components
    inner = strip_views(r["inner"])
    if inner[0] != "vec":
        raise Unsure("components " + show(inner)[:80])
    shown = []
    for x in inner[1]:
        if x[0] != "tup":
            raise Unsure("components " + show(inner)[:80])
        y = strip_views(x[1][1])
        shown.append(y)
    shown = [next(t for t in walk(y) if is_t(t, "call") and t[2] == f.name) if y[0] == "adt" and len(comps) > 3 else y for y in shown]
    own = [comps.index(strip_views(y[3][0])) for y in shown if is_t(y, "call") and y[3] and strip_views(y[3][0]) in comps]
    if own != list(range(len(comps))):
        v_("inner", "the sizes listed for the components of %s are not those of its components, in order" % name)
    for y in shown:
        if name == "Array" and not (is_t(y, "call") and strip_views(y[3][0]) in comps):
            if y[0] == "adt" and y[1] == A.OPTION and y[4] and y[4][0][0] == "adt":
                q = record(db, y[4][0])
                s = combo[0]
                b = cnt * (s[0] if s else 0)
                t = None if s is None or s[1] is None or cnt * s[1] >= W else varint(cnt * s[1])
                a, z = E.ev(q["min"]), E.ev(q["max"])
                z = None if z == "None" else z[1]
                if b < W and a != varint(b) or z != t:
                    v_("length", "the length prefix of %s is announced as %s bytes, it takes %s" % (c, span(a, z), span(varint(b), t)))


def span(a, b):
    return "%d.." % a if b is None else str(a) if a == b else "%d..%d" % (a, b)


# ---- next free ids ------------------------------------------------------------
def ids(db, R, fns):
    for f in fns:
        if f.argc != 1 or not f.d.get("pub"):
            continue
        s = f.local_ty(1)["s"]
        kind = "variant" if s.startswith("&[mabo_compiler::simplify::Variant<") else "field" if s.startswith("&mabo_compiler::simplify::Fields<") else None
        if kind is None or f.local_ty(0)["s"] not in ("u32", "core::option::Option<u32>"):
            continue
        where = "%s (%s)" % (f.name, loc(f))
        R.saw(f)
        I = A.Interp(db, track_assert=True)
        try:
            outs = I.run(f)
        except A.Unsupported as x:
            R.undec("next:" + kind, str(x))
            continue
        R.n("id functions")
        for g in I.visited:
            R.saw(g)
        arg = I.arg_terms(f)[0]
        coll = arg if kind == "variant" else fld(arg, "fields")
        used = fld(elem(coll), "id")
        top = {t for o in outs for y in [o.value] + [z for e in o.events for z in e if isinstance(z, tuple)] if y for t in walk(y)
               if is_t(t, "call") and str(t[2]).rsplit("::", 1)[-1] == "max" and len(t[3]) >= 1 or is_t(t, "max")}
        for o in outs:
            R.n("obligations")
            unit = [e for e in o.events if e[0] == "is" and e[1] == fld(arg, "kind") and e[2] == "Unit"]
            if o.kind != "ret":
                R.v("next:%s:panic" % kind, "%s: a path ends in a panic" % where)
                continue
            v = o.value
            tops = {t for t in top if any(u == t for u in walk(v))}
            if unit:
                if not (v[0] == "adt" and v[1] == A.OPTION and not v[4]) and not is_none(v):
                    R.v("next:%s:unit" % kind, "%s: gives a next id for something that has no fields" % where)
                continue
            try:
                if not tops:
                    # nothing there yet
                    if val(Ev({}).ev(v)) != 1:
                        R.v("next:%s:first" % kind, "%s: the first id is announced as %s instead of 1" % (where, show(v)[:60]))
                    if over(Ev({}), o):
                        R.v("next:%s:overflow" % kind, "%s: overflows" % where)
                    continue
                if len(tops) != 1:
                    raise Unsure("several maxima")
                t = next(iter(tops))
                if not over_all(t, used):
                    if any(u == used for u in walk(t)):
                        R.undec("next:" + kind, "maximum over " + show(t)[:80])
                    else:
                        R.v("next:%s:used" % kind, "%s: is not derived from the ids in use, but from %s" % (where, show(t)[:80]))
                    continue
                for m in (0, 1, 2, 5, 126, 127, 128, 2 ** 29 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1):
                    E = Ev({t: m})
                    if not all(E.truth(e) for e in o.events if e[0] == "cond" and any(u == t for u in walk(e[1]))):
                        continue
                    if over(E, o):
                        R.v("next:%s:overflow" % kind, "%s: overflows when the highest id in use is %d" % (where, m))
                        continue
                    r = val(E.ev(v))
                    if r != (m + 1 if m + 1 < 2 ** 32 else None):
                        if not (kind == "field" and m + 1 >= 2 ** 29 and r is None):
                            R.v("next:%s:value" % kind, "%s: announces %s as next id when the highest one in use is %d" % (where, r, m))
            except Unsure as x:
                R.undec("next:" + kind, str(x))


def is_none(v):
    return v[0] == "adt" and v[1] == A.OPTION and not v[4]


def val(x):
    return None if x == "None" else x[1] if isinstance(x, tuple) and x[0] == "Some" else x


def over(E, o):
    for e in o.events:
        if e[0] == "assertfail":
            return True
        if e[0] == "assert" and e[1] == "overflow":
            a, b = (E.num(x) for x in e[3])
            r = {"Add": a + b, "Mul": a * b, "Sub": a - b}.get(str(e[2]).replace("WithOverflow", ""))
            if r is not None and not 0 <= r < 2 ** 32:
                return True
    return False


def over_all(t, used):
    """Is the term the maximum of the ids of all elements?"""
    args = list(t[3]) if is_t(t, "call") else list(t[2:])
    return [strip_views(a) for a in args if isinstance(a, tuple)] == [used]


# ---- printed form -------------------------------------------------------------
def printing(db, R, fns):
    for f in fns:
        if f.argc < 2 or not f.local_ty(1)["s"].endswith("%s::WireSize" % CR) or "alloc::string::String" not in f.local_ty(2)["s"]:
            continue
        where = "%s (%s)" % (f.name, loc(f))
        R.saw(f)
        I = A.Interp(db, opaque=lambda g: g.id == f.id)
        try:
            outs = I.call_fn(f, I.arg_terms(f), A.State(), ())
        except A.Unsupported as x:
            R.undec("print", str(x))
            continue
        me = I.arg_terms(f)[0]
        lo, hi, inner = fld(me, "min"), fld(me, "max"), fld(me, "inner")
        for o in outs:
            if o.kind != "ret":
                R.v("print:panic", "%s: a path ends in a panic" % where)
                continue
            R.n("printed forms")
            text = []
            nested = None
            for i, e in enumerate(o.events):
                if e[0] == "emit" and nested is None:
                    text += list(e[2])
                elif e[0] == "loop":
                    nested = (i, e)
            facts = {(e[1], e[2]) for e in o.events if e[0] in ("is", "cond")}
            none = (hi, "None") in facts
            top = fld(hi, "Some", "0")
            same = any(is_t(t, "eq") and {t[2], t[3]} == {lo, top} and v is True or is_t(t, "ne") and {t[2], t[3]} == {lo, top} and v is False for t, v in facts if is_t(t))
            got = []
            for p in text:
                if p[0] == "lit":
                    got.append(p[1])
                elif p[0] == "ph":
                    got.append(strip_views(p[2]))
            at = [k for k, x in enumerate(got) if x in (lo, top)]
            if not at:
                R.undec("print", "bounds not found in what is printed")
                continue
            seq = got[at[0]:at[-1] + 1]
            rest = got[at[-1] + 1:]
            nxt = rest[0] if rest and isinstance(rest[0], str) else ""
            if none:
                ok = seq == [lo] and nxt.startswith("..")
            elif same:
                ok = (seq in ([lo], [top]) and not nxt.startswith("..")) or seq in ([lo, "..", top],)
            else:
                ok = seq == [lo, "..", top]
            if not ok:
                R.v("print:bounds", "%s: prints %s for bounds that are %s" % (where, " ".join(x if isinstance(x, str) else show(x) for x in seq), "open" if none else "equal" if same else "different"))
            if nested is None:
                R.v("print:inner", "%s: doesn't print the sizes of the components" % where)
                continue
            alts, full = alternatives(o.events, nested[0])
            el = elem(inner)
            for a in alts:
                fs = {(e[1], e[2]) for e in a if e[0] in ("is", "cond")}
                known = any(v == "Some" for t, v in fs)
                calls = [e for e in flat(a) if e[0] == "call" and e[1] == f.name]
                if known and not any(mentions(e[2][0], el) for e in calls):
                    R.v("print:inner", "%s: leaves out the size of a component" % where)
