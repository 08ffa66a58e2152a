"""M31: what the validation says about a schema: the clashing elements, with their names and places."""
from rules.docs import *
from rules.common import spread
from rules.compiler import find_fn
from rules import maps

CORE = "mabo_compiler"
OUT_OF_RANGE = (0, 2 ** 29)


class Nth(Doc):
    """One of the types is given, with a tuple of the wrong size in it."""

    def __init__(self, db, k, wrap, n):
        super().__init__(db)
        self.k, self.size = k, n
        self.wraps = list(wrap)
        self.depth = 0
        self.at = None
        self.skip = 0

    def later(self, make):
        """the second of the types within, not the first"""
        self.skip = 1
        return make()

    def nest(self, kind):
        if kind != "Type" or self.depth < 0:
            return super().nest(kind)
        if self.skip and self.depth:
            self.skip -= 1
            return super().nest(kind)
        if self.depth == 0 and self.k > 0:
            self.k -= 1
            return super().nest(kind)
        if self.wraps:
            w = self.wraps.pop(0)
            self.depth = 1
            r = self.wrap_type(lambda: w(self))
        else:
            self.depth = -1
            r = self.wrap_type(lambda: self.t_tuple(self.size, False))
            self.at = r
        self.top = r
        return r


class Names(Doc):
    """Some of the types name a type parameter."""

    def __init__(self, db, use=(), ty=None):
        super().__init__(db, ty)
        self.use = list(use)
        self.params = []

    def generics(self, n, trailing=False):
        g = super().generics(n, trailing)
        self.params = [fields(self.db, x)["value"] for x in unlist(self.db, fields(self.db, g[4][0])["types"])] if n else []
        return g

    def nest(self, kind):
        if kind == "Type" and self.use:
            k = self.use.pop(0)
            if k is not None:
                def f():
                    v = self.t_external(0, 0, False)
                    e = v[4][0]
                    fs = [f[0] for f in self.db.variants(e[1])[0]["fields"]]
                    j = fs.index("name")
                    n = e[4][j]
                    nf = [f[0] for f in self.db.variants(n[1])[0]["fields"]].index("value")
                    n = n[:4] + (n[4][:nf] + (self.params[k],) + n[4][nf + 1:],)
                    e = e[:4] + (e[4][:j] + (n,) + e[4][j + 1:],)
                    return v[:4] + ((e,),)
                return self.wrap_type(f)
        return super().nest(kind)


def change(v, f):
    """a tree with some of its parts replaced"""
    w = f(v)
    if w is not None:
        return w
    if isinstance(v, tuple):
        return tuple(change(x, f) if isinstance(x, tuple) else x for x in v)
    return v


def swap(v, d):
    return change(v, lambda x: d.get(x) if is_t(x) else None)


def unlist(db, p):
    """the elements of a list with commas"""
    if short(p) == "punctuated::Punctuated":
        return [x[1][0] for x in p[4][0][1] + (p[4][1],)]
    return list(p[1])


def name_of(db, d):
    """the name that a definition takes in its scope"""
    v = d[4][0]
    f = fields(db, v)
    if d[3] != "Import":
        return f["name"]
    e = f["element"]
    return e[4][0][1][1] if e[4] else f["segments"][1][-1]


def scopes(db, defs):
    """every set of elements whose names, or ids, must differ: (kind, elements)"""
    yield "definition", list(defs)
    for d in defs:
        v = d[4][0]
        f = fields(db, v)
        if d[3] == "Module":
            yield from scopes(db, f["definitions"][1])
        if f.get("generics") and f["generics"][4]:
            yield "type parameter", unlist(db, fields(db, f["generics"][4][0])["types"])
        if d[3] == "Struct":
            yield from inner(db, f["fields"])
        if d[3] == "Enum":
            vs = unlist(db, f["variants"])
            yield "variant", vs
            for x in vs:
                yield from inner(db, fields(db, x)["fields"])


def inner(db, fs):
    if fs[3] != "Unit":
        yield "named field" if fs[3] == "Named" else "unnamed field", unlist(db, fs[4][1])


def spec_docs():
    """(label, definitions, uses of the type parameters)"""
    K = parsing.KINDS
    kinds = dict(K, module_import=dict(kind="import", segments=1), long_import=dict(kind="import", segments=3))
    for a, x in kinds.items():
        for b, y in kinds.items():
            yield "%s and %s" % (a, b), [x, y], ()
            yield "%s and %s in a module" % (a, b), [dict(kind="module", defs=[x, y])], ()
    yield "three definitions", [K["alias"], K["struct"], K["enum"]], ()
    yield "three definitions in a nested module", [dict(kind="module", defs=[dict(kind="module", defs=[K["const"], K["module"], K["import"]])])], ()
    ids = [(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)]
    for i in ids:
        n = "".join("x" if k else "-" for k in i)
        named = ("named", [(0, k) for k in i], True)
        unnamed = ("unnamed", [(k,) for k in i], True)
        yield "named fields, ids %s" % n, [dict(kind="struct", fields=named)], ()
        yield "unnamed fields, ids %s" % n, [dict(kind="struct", fields=unnamed)], ()
        yield "variants, ids %s" % n, [dict(kind="enum", variants=[(0, None, k) for k in i])], ()
        yield "named fields of variants, ids %s" % n, [dict(kind="enum", variants=[(0, None, True), (0, named, True)])], ()
        yield "unnamed fields of variants in a module, ids %s" % n, [dict(kind="module", defs=[dict(kind="enum", variants=[(0, unnamed, True), (0, None, False)])])], ()
    yield "variants with fields", [dict(kind="enum", variants=[(1, parsing.NAMED, True), (0, parsing.UNNAMED, True), (1, parsing.NAMED, False)])], ()
    for n in (1, 2, 3):
        for left in [None] + list(range(n)):
            use = [k for k in range(n) if k != left] + ([None] if left is not None else [])
            L = "all used" if left is None else "the %d. not used" % (left + 1)
            yield "%d type parameters of a struct, %s" % (n, L), [dict(kind="struct", generics=(n,), fields=("named", [(0, True)] * n, True))], use
            yield "%d type parameters of an enum, %s" % (n, L), [dict(kind="enum", generics=(n,), variants=[(0, ("unnamed", [(True,)], False), True) for _ in range(n)])], use


def unref(I, st, v):
    while v[0] == "ref":
        v = I.deref_read(st, v)
    return v


def summed(n, top):
    def h(I, fr, st, args, m, site, stack, tys):
        a, b = (unref(I, st, x) for x in args[:2])
        if a[0] != "int" or b[0] != "int":
            return NotImplemented
        r = a[1] + b[1] if n.endswith("add") else a[1] - b[1]
        if n.startswith("checked"):
            return some(("int", r)) if 0 <= r <= top else A.NONE
        return ("int", min(max(r, 0), top) if n.startswith("saturating") else r % (top + 1))
    return h


class ClashInterp(DocInterp):
    """On a known tree, with maps and sets of known contents."""

    def __init__(self, db, doc):
        ms = maps.models()
        super().__init__(db, doc, opaque=lambda g: g.crate.name not in (CORE, "mabo_parser"), models=ms)
        self.opaque = lambda g: g.crate.name not in (CORE, "mabo_parser")
        c = "core::iter::traits::iterator::Iterator::collect"
        self.models[c] = maps.collected(self.models[c])
        base = self.models["core::default::Default::default"]

        def default(I, fr, st, args, m, site, stack, tys):
            t = (tys[0] or {}).get("s", "") if tys else I.rty
            if t.startswith(("std::collections::hash::map::HashMap<", "std::collections::hash::set::HashSet<")):
                return ("vec", ())
            return base(I, fr, st, args, m, site, stack, tys)
        self.models["core::default::Default::default"] = default

        R = "core::ops::range::RangeInclusive::"
        self.models[R + "new"] = lambda I, fr, st, args, m, site, stack, tys: T("upto", args[0], args[1])

        def within(I, fr, st, args, m, site, stack, tys):
            r, x = I.deref_read(st, args[0]), unref(I, st, args[1])
            lo, hi = (r[2], r[3]) if is_t(r, "upto") else r[4] if r[0] == "adt" and r[1].endswith("::Range") else (None, None)
            if lo is None or not (lo[0] == hi[0] == x[0] == "int"):
                return NotImplemented
            return A.TRUE if lo[1] <= x[1] < hi[1] + (1 if is_t(r) else 0) else A.FALSE
        self.models[R + "contains"] = self.models["core::ops::range::Range::contains"] = within
        for b in (8, 16, 32, 64, "size"):
            for n in ("saturating_add", "wrapping_add", "checked_add", "saturating_sub", "checked_sub"):
                self.models["core::num::<impl u%s>::%s" % (b, n)] = summed(n, 2 ** (64 if b == "size" else b) - 1)

    def eq(self, st, a, b):
        if is_t(a, "text", "num") and (is_t(b, "text", "num") or b[0] in ("str", "int")) or is_t(b, "text", "num") and a[0] in ("str", "int"):
            return A.TRUE if a == b else A.FALSE
        return super().eq(st, a, b)


def outcomes(db, f, doc, tree):
    I = ClashInterp(db, doc)
    I.tree = tree
    return I, I.run(f, [tree])


def cases(db):
    """(label, document, tree, what is wrong): one thing is wrong with each"""
    yield from tuple_cases(db)
    for label, defs, use in spec_docs():
        d = Names(db, use)
        base = value(d.schema(defs, 0))
        body = fields(db, base)["definitions"][1]
        nums = {}

        def note(x):
            if is_t(x, "num") and x not in nums:
                nums[x] = len(nums)
            return None
        change(base, note)
        # ids far apart from each other, ascending
        plainly = swap(base, {x: ("int", 10 + 20 * i) for x, i in nums.items()})
        if use and None in use:
            n = next(iter(d.params[k] for k in range(len(d.params)) if k not in [u for u in use]), None)
            yield label, d, plainly, ("unused", n)
            continue
        yield label, d, plainly, None
        for kind, els in scopes(db, body):
            for j in range(len(els)):
                for i in range(j):
                    w = "%s, %s: %d. and %d." % (label, kind, i + 1, j + 1)
                    if kind != "unnamed field":
                        a, b = (els[k] if kind == "type parameter" else name_of(db, els[k]) if kind == "definition" else fields(db, els[k])["name"] for k in (i, j))
                        x, y = (fields(db, n)["value"] for n in (a, b))
                        if kind == "type parameter" and (use or True):
                            # uses of the later one are uses of the earlier one as well
                            pass
                        yield "same name: " + w, d, swap(plainly, {y: x}), ("name", kind, i, j, a, b)
                    if kind in ("variant", "named field", "unnamed field"):
                        yield from id_clash(db, d, base, nums, w, kind, els, i, j)
            if kind in ("named field", "unnamed field"):
                for k, e in enumerate(els):
                    x = fields(db, e)["id"]
                    for own, bad in [(k, n) for n in OUT_OF_RANGE] + [(k - 1, 2 ** 29)]:
                        # an id of its own, or one derived from the element before
                        y = fields(db, els[own])["id"] if own >= 0 else A.NONE
                        if not y[4] or own < k and x[4]:
                            continue
                        n = fields(db, y[4][0])["value"]
                        at = {m: bad - (k - own) if m == n else 10 + 20 * q for m, q in nums.items()}
                        got = given_ids(db, els, at)
                        if len(set(got)) < len(got) or [g for g in got if g in OUT_OF_RANGE or g > 2 ** 29] != [bad]:
                            continue    # more than one thing is wrong
                        t = swap(base, {m: ("int", q) for m, q in at.items()})
                        yield "id %d: %s, %d. %s%s" % (bad, label, k + 1, kind, "" if own == k else ", derived"), d, t, ("range", e, bad)


def given_ids(db, els, at):
    out, last = [], 0
    for e in els:
        x = fields(db, e)["id"]
        last = at[fields(db, x[4][0])["value"]] if x[4] else last + 1
        out.append(last)
    return out


def tuple_cases(db):
    """tuples of a wrong size at every place a type can have"""
    named, unnamed = ("named", [(0, True)] * 2, True), ("unnamed", [(True,)] * 2, True)
    hosts = [("alias", dict(kind="alias"), 1), ("const", dict(kind="const"), 1), ("struct", dict(kind="struct", fields=named), 2), ("tuple struct", dict(kind="struct", fields=unnamed), 2),
             ("enum", dict(kind="enum", variants=[(0, named, True), (0, unnamed, True)]), 4)]
    wraps = [("", ())] + [("%s of " % n, (lambda b, n=n, t=t: b.t_single(n, t),)) for n, t in Builder.SINGLE if n != "non_zero"]
    wraps += [("map from ", (lambda b: b.t_map(),)), ("array of ", (lambda b: b.t_array(),)), ("tuple with ", (lambda b: b.t_tuple(2, True),)),
              ("map to ", (lambda b: b.later(b.t_map),)), ("tuple ending in ", (lambda b: b.later(lambda: b.t_tuple(2, True)),)), ("vec of map to ", (lambda b: b.t_single("vec", "Vec"), lambda b: b.later(b.t_map))),
              ("array of map from ", (lambda b: b.t_array(), lambda b: b.t_map()))]
    for h, d0, types in hosts:
        for k in range(types):
            for w, fs in wraps:
                for n in (1, 2, 12, 13):
                    for mod in (False, True):
                        if mod and (w or n != 1):
                            continue
                        d = Nth(db, k, fs, n)
                        tree = value(d.schema([dict(kind="module", defs=[d0])] if mod else [d0], 0))
                        nums = {}
                        change(tree, lambda x: nums.setdefault(x, ("int", 10 + 20 * len(nums))) and None if is_t(x, "num") else None)
                        w1 = ("tuple", span_of(db, value(d.at)), span_of(db, value(d.top)), n) if n not in (2, 12) else None
                        yield "tuple: %s%d elements, %d. type of %s%s" % (w, n, k + 1, h, " in a module" if mod else ""), d, swap(tree, nums), w1


def id_clash(db, d, base, nums, w, kind, els, i, j):
    """The explicit or derived ids of two elements made equal."""
    at = {m: 10 + 20 * q for m, q in nums.items()}

    def ids(at):
        return given_ids(db, els, at)
    xs = [fields(db, e)["id"] for e in els]
    own = [fields(db, x[4][0])["value"] if x[4] else None for x in xs]
    want = ids(at)
    if own[j] is not None:
        at[own[j]] = want[i]
    elif own[i] is not None:
        # derived: the earlier explicit one is moved, unless the later one derives from it
        at[own[i]] = want[j]
    else:
        return
    got = ids(at)
    ps = [(a, b) for b in range(len(els)) for a in range(b) if got[a] == got[b]]
    if not ps or ps[0] != (i, j):
        return
    t = swap(base, {m: ("int", q) for m, q in at.items()})
    yield "same id: " + w, d, t, ("id", kind, i, j, els[i], els[j], got[i])


def shown(I, st, v):
    v = I.deref_read(st, v)
    v = plain(v)
    if v[0] == "sbuf" and len(v[1]) == 1:
        v = plain(v[1][0])
    return v


def leaf(db, v):
    """The struct an error is about: (name of its type, fields)"""
    while True:
        if is_t(v, "from", "into"):
            v = v[-1]
        elif v[0] == "adt" and len(v[4]) == 1 and (is_t(v[4][0], "from", "into") or v[4][0][0] == "adt" and "::validate::" in v[4][0][1]):
            v = v[4][0]
        else:
            return v


def index(x):
    return x[2] if is_t(x) else x


def place(I, st, v):
    v = I.deref_read(st, v)
    if v[0] == "adt" and len(v[4]) == 2 and all(is_t(x, "at") for x in v[4]):
        return tuple(x[2] for x in v[4])
    return None


def judge(db, R, f, case):
    label, doc, tree, wrong = case
    where = "%s (%s:%s)" % (f.name, f.file if hasattr(f, "file") else "", label)
    where = "%s, %s" % (f.name, label)
    I, outs = outcomes(db, f, doc, tree)
    R.n("schemas")
    for g in I.visited:
        R.saw(g)
    for o in outs:
        if o.kind == "panic":
            R.undec("panic", "%s: %s" % (label, str(o.info)[:120]))
            return
        v = I.deref_read(o.st, o.value)
        if v[0] != "adt" or v[3] not in ("Ok", "Err"):
            R.undec("result", "%s: %s" % (label, show(v)[:120]))
            return
        key = label.split(":")[0] if wrong else "valid"
        if wrong is None or v[3] == "Ok":
            if (wrong is None) == (v[3] == "Ok"):
                continue
            # which schemas are rejected is decided by M14
            R.undec("verdict:" + key, "%s: %s" % (label, v[3]))
            continue
        e = leaf(db, v[4][0])
        if e[0] != "adt":
            R.undec("error", "%s: %s" % (label, show(e)[:120]))
            continue
        fs = fields(db, e)
        R.n("errors")
        said(db, R, I, o.st, f, label, e, fs, wrong)


def said(db, R, I, st, f, label, e, fs, wrong):
    name = e[1].rsplit("::", 1)[1]
    what = wrong[0]
    where = "%s (%s), %s" % (e[1], f.name, label)

    def spans(x):
        s = span_of(db, x)
        return s

    def check(field, want, text):
        R.n("obligations")
        if field not in fs:
            return
        got = place(I, st, fs[field])
        if got is None:
            R.undec("%s:%s" % (name, field), "%s: place %s" % (label, show(fs[field])[:100]))
        elif got not in want:
            R.v("%s:%s" % (name, field), "%s: `%s` is not the place of %s" % (where, field, text))

    def text(field, want, of):
        R.n("obligations")
        if field not in fs:
            return
        got = shown(I, st, fs[field])
        if got == want:
            return
        if is_t(got, "text", "num") or got[0] in ("int", "str"):
            R.v("%s:%s" % (name, field), "%s: `%s` is %s, not that of %s" % (where, field, show(got)[:60], of))
        else:
            R.undec("%s:%s" % (name, field), "%s: %s" % (label, show(got)[:100]))

    def belongs(*words):
        R.n("obligations")
        if not all(w in fs for w in words):
            if "first" in fs and "first" not in words or "first" in words and "first" not in fs:
                R.v("%s:kind" % what, "%s: reported as %s" % (where, name))
            else:
                R.undec("%s:kind" % name, "%s: fields %s" % (label, ", ".join(fs)))
            return False
        return True
    if what == "name":
        _, kind, i, j, a, b = wrong
        if belongs("first", "second"):
            if "id" in fs:
                R.v("name:kind", "%s: a repeated name is reported as a repeated id" % where)
                return
            check("first", [spans(a)], "the name of the earlier %s" % kind)
            check("second", [spans(b)], "the name of the later %s" % kind)
            text("name", fields(db, a)["value"], "the %ss" % kind)
    elif what == "id":
        _, kind, i, j, a, b, n = wrong
        if belongs("first", "second"):
            if "id" not in fs:
                R.v("id:kind", "%s: a repeated id is reported as a repeated name" % where)
                return
            for w, x in (("first", a), ("second", b)):
                y = fields(db, x)["id"]
                check(w, [span_of(db, y[4][0]) if y[4] else span_of(db, x)], "the %s %s with that id" % ("earlier" if w == "first" else "later", kind))
            for w, x, k in (("name", b, j), ("other_name", a, i)):
                nm = fields(db, x).get("name")
                if nm is not None:
                    text(w, fields(db, nm)["value"], "the %s %s" % ("later" if w == "name" else "earlier", kind))
            text("position", ("int", j + 1), "the later %s" % kind)
            text("other_position", ("int", i + 1), "the earlier %s" % kind)
            given(R, I, st, db, fs["id"], n, name, where, label)
    elif what == "range":
        _, x, n = wrong
        if "id" in fs and "first" not in fs:
            y = fields(db, x)["id"]
            check("used", [span_of(db, y[4][0]) if y[4] else span_of(db, x)], "the id")
            given(R, I, st, db, fs["id"], n, name, where, label)
        else:
            R.v("range:kind", "%s: an id that can't be used is reported as %s" % (where, name))
    elif what == "tuple":
        _, at, top, n = wrong
        got = place(I, st, fs["declared"]) if "amount" in fs and "declared" in fs else None
        R.n("obligations", 2)
        if "amount" not in fs:
            R.v("tuple:kind", "%s: a tuple of the wrong size is reported as %s" % (where, name))
        elif got is None:
            R.undec("tuple:declared", "%s: %s" % (label, show(fs.get("declared", A.UNIT))[:100]))
        elif not (index(top[0]) <= index(got[0]) <= index(at[0]) and index(at[1]) <= index(got[1]) <= index(top[1])):
            R.v("tuple:declared", "%s: `declared` is not a place with the tuple" % where)
        a = plain(I.deref_read(st, fs["amount"])) if "amount" in fs else A.UNIT
        if a[0] != "adt":
            R.undec("tuple:amount", "%s: %s" % (label, show(a)[:100]))
        elif a[3] != ("Single" if n == 1 else "TooLarge"):
            R.v("tuple:amount", "%s: a tuple of %d is called %s" % (where, n, a[3]))
    elif what == "unused":
        n = wrong[1]
        if "name" in fs and "first" not in fs:
            text("name", n, "the parameter that is not used")
            at = next((span_of(db, x) for x in wrong_names(db, I, n)), None)
            if at:
                check("declared", [at], "the declaration of the parameter that is not used")
        else:
            R.v("unused:kind", "%s: an unused type parameter is reported as %s" % (where, name))


def wrong_names(db, I, n):
    out = []

    def look(v):
        if short(v) == "Name" and fields(db, v)["value"] == n:
            out.append(v)
        return None
    change(I.tree, look)
    return out


def given(R, I, st, db, v, n, name, where, label):
    v = I.deref_read(st, v)
    R.n("obligations")
    x = fields(db, v).get("value") if short(v) == "Id" else v
    if x == ("int", n):
        return
    if x is not None and x[0] == "int":
        R.v("%s:id" % name, "%s: the id is given as %d instead of %d" % (where, x[1], n))
    else:
        R.undec("%s:id" % name, "%s: %s" % (label, show(v)[:100]))


def run(db, R):
    f = find_fn(db, "mabo_compiler::validate::schema")
    R.floor("schemas", 400)
    R.floor("errors", 250)
    R.floor("obligations", 800)
    if f is None:
        return
    R.saw(f)
    each(db, R, cases(db), lambda r, c: judge(db, r, f, c), None)
