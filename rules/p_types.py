"""M15: whatever is checked about data types is checked for every type in the schema, at every position and depth."""
from rules.compiler import *
from rules import punct
from rules.evalt import ev

SIZES = range(0, 21)
LEAST, MOST = 2, 12


def run(db, R):
    R.floor("nested types reached", 20)
    R.floor("type positions", 10)
    R.floor("tuple sizes", 20)
    W = [w for w in type_walkers(db, "mabo_compiler") if "mabo_compiler::simplify::" not in w[0].local_ty(0)["s"]]
    W = [w for w in W if {w2.id for w2, _ in W}]
    for w, i in W:
        descent(db, R, W, w, i)
    positions(db, R, W)
    punct.run(db, R)


def fallible(w):
    return "core::result::Result<" in w.local_ty(0)["s"]


def run_walker(db, w, i, args, variant=None, setup=None):
    """Outcomes of the walker on a type of the given variant; recursive calls are opaque."""
    I = A.Interp(db, opaque=lambda g, ids=group(db, w): g.id in ids)
    st = A.State()
    v = T("arg", "value")
    s = w.local_ty(i + 1)["s"]
    dt = fld(v, "value") if TY in s else v
    if variant is not None:
        st.refine[dt] = variant
    if setup:
        setup(st, dt)
    a = list(args)
    a[i] = v
    return I, I.run(w, a, st), dt


def group(db, w):
    """The function and those of the walkers that call it (transitively)."""
    g = getattr(db, "_groups", None)
    if g is None:
        g = db._groups = {}
    if w.id not in g:
        g[w.id] = {x.id for x, _ in type_walkers(db, w.crate.name) if x.id == w.id or (w.id in db.reach(x) and x.id in db.reach(w))}
    return g[w.id]


def reached(events, out, ids_names, x):
    """Is the nested type handed to the walker (with its failure passed on)?"""
    for e in events:
        if e[0] == "call" and e[1] in ids_names and any(a == x for a in e[2]):
            return True
    return False


def descent(db, R, W, w, i):
    R.saw(w)
    nested = nested_types(db)(T("arg", "value")) if TY in w.local_ty(i + 1)["s"] else None
    if nested is None:
        R.undec(w.name, "takes a data type without its position")
        return
    names = {g.name for g, _ in W if g.id in group(db, w)}
    for k, var in enumerate(db.variants(DT)):
        l = nested[var["name"]]
        if not l:
            continue
        try:
            I, outs, dt = run_walker(db, w, i, [T("arg", "_%d" % j) for j in range(w.argc)], k)
        except A.Unsupported as e:
            R.undec("%s:%s" % (w.name, var["name"]), str(e))
            continue
        good, bad = split_result(outs)
        for steps, x in l:
            R.n("nested types reached")

            def check(events, cs):
                for e in events:
                    if e[0] == "call" and e[1] in names and any(a == x for a in e[2]):
                        r = e[3] if len(e) > 3 else None
                        if not fallible(w):
                            return True
                        # the result of this call is looked at: rejected if it failed
                        for t, v in cs.items():
                            if is_t(t, "call") and t[2] == e[1] and any(a == x for a in t[3]) and v == "Ok":
                                return True
                return False
            if all(satisfied(g[0], steps + [("check", check)]) for g in good):
                R.sample("%s reaches %s" % (w.name, show(x)))
                continue
            if any(reached(flat(g[0]), None, names, x) for g in good) and fallible(w) and not any(reached(flat(b[0]), None, names, x) for b in bad):
                R.v("descent:%s:%s" % (short(w), var["name"]), "%s (%s): what is wrong with a type nested in %s is ignored" % (w.name, loc(w), var["name"]))
            elif any(e[0] == "call" and mentions(e, x) and not reached([e], None, names, x) and not str(e[1]).startswith("mabo_parser") for g in good for e in flat(g[0])):
                R.undec("%s:%s" % (w.name, var["name"]), "what happens with %s is not understood" % show(x))
            else:
                R.v("descent:%s:%s" % (short(w), var["name"]), "%s (%s): types nested in %s (%s) are not looked at, so whatever is wrong with them is accepted" % (
                    w.name, loc(w), var["name"], show(x)))


def short(f):
    return "::".join(f.name.split("::")[-2:])


def positions(db, R, W):
    f = find_fn(db, "mabo_compiler::validate::schema")
    if f is None:
        return
    R.saw(f)
    ids = {w.id for w, _ in W}
    names = {w.name: (w, i) for w, i in W}
    I = A.Interp(db, opaque=lambda g: g.id in ids)
    try:
        outs = I.run(f, [T("arg", "value")])
    except A.Unsupported as e:
        R.undec(f.name, str(e))
        return
    for v in I.visited:
        R.saw(v)
    good, bad = split_result(outs)
    top = fld(T("arg", "value"), "definitions")
    sizes, uses = {}, {}
    for label, steps, x, generic in type_positions(top):
        for duty in ("tuple size",) + (("use of type parameters",) if generic else ()):
            R.n("type positions")
            why = []

            def check(events, cs):
                for e in flat(events):
                    if e[0] == "call" and e[1] in names and any(strip_views(a) == x for a in e[2]):
                        w, i = names[e[1]]
                        if duty == "tuple size":
                            r = decides_size(db, R, I, w, i, e, sizes)
                            ok = r is True and any(is_t(t, "call") and t[2] == e[1] and any(a == x for a in t[3]) and v == "Ok" for t, v in cs.items())
                            if ok:
                                return True
                            if r is None:
                                why.append(None)
                            elif isinstance(r, str):
                                why.append(r)
                        else:
                            r = marks_use(db, R, I, w, i, e, uses)
                            if r is True:
                                return True
                            if r is None:
                                why.append(None)
                return False
            if generic and duty != "tuple size":
                st = steps[:generic] + [("when", generic_of(steps), "Some")] + steps[generic:]
            else:
                st = steps
            if all(satisfied(g[0], st + [("check", check)]) for g in good):
                R.sample("%s of %s is checked in every accepted schema" % (duty, label))
            elif None in why:
                R.undec("%s:%s" % (duty, label), "how it is checked is not understood")
            else:
                text = next((y for y in why if y), None)
                if text:
                    R.v("size", "%s (%s): %s" % (f.name, loc(f), text))
                else:
                    R.v("position:%s:%s" % (duty, label), "%s (%s): a schema is accepted without the %s of %s being checked" % (f.name, loc(f), duty, label))


def generic_of(steps):
    """The generics term of the definition a position belongs to."""
    for s in steps:
        if s[0] == "when" and s[2] in ("Struct", "Enum"):
            return fld(fld(s[1], s[2], "0"), "generics")


def type_positions(top):
    d = elem(top)
    S, E, L, K = (fld(d, k, "0") for k in ("Struct", "Enum", "TypeAlias", "Const"))
    v = elem(fld(E, "variants"))
    out = []
    for label, pre, fields in (("struct", [("each", top), ("when", d, "Struct")], fld(S, "fields")),
                               ("enum variant", [("each", top), ("when", d, "Enum"), ("each", fld(E, "variants"))], fld(v, "fields"))):
        for kind in ("Named", "Unnamed"):
            l = fld(fields, kind, "1")
            out.append(("%s %s field" % (label, kind.lower()), pre + [("when", fields, kind), ("each", l)], fld(elem(l), "ty"), 2))
    out.append(("type alias", [("each", top), ("when", d, "TypeAlias")], fld(L, "target"), 0))
    out.append(("constant", [("each", top), ("when", d, "Const")], fld(K, "ty"), 0))
    return out


def call_args(I, e):
    return [closure(I, a) for a in e[2]]


def decides_size(db, R, I, w, i, e, memo):
    """Does this call of a walker accept exactly the tuples of 2 to 12 elements? True / text of the mismatch / False (it does not
    look at sizes) / None (not understood)."""
    args = call_args(I, e)
    key = (w.id, tuple(repr(a)[:200] for j, a in enumerate(args) if j != i and a[0] == "clo"))
    if key in memo:
        return memo[key]
    memo[key] = None
    tup = next(k for k, v in enumerate(db.variants(DT)) if v["name"] == "Tuple")
    field = next(n for n, ty, _ in db.variants(DT)[tup]["fields"] if "Punctuated" in db.adts[DT]["crate"].tstr(ty))
    acc = []
    for n in SIZES:
        def setup(st, dt):
            st.omem[fld(dt, "Tuple", field)] = ("arr", tuple(T("ty", j) for j in range(n)))
        try:
            I2, outs, dt = run_walker(db, w, i, args, tup, setup)
        except A.Unsupported:
            return None
        R.n("tuple sizes")
        good, bad = split_result(outs)
        good = [g for g in good if all(ev(x[1], {}) in (None, int(bool(x[2]))) for x in g[0] if x[0] == "cond")]
        if any(any(is_t(t, "lt", "eq", "le") and ev(t, {}) is None for t in (x[1] for x in g[0] if x[0] == "cond")) for g in good):
            return None
        # outcomes decided by the size alone: rejected without (or accepted only with) a nested rejection
        acc.append(bool(good))
    if all(acc):
        r = False
    elif not any(acc):
        r = None
    else:
        wrong = [n for n in SIZES if acc[n] != (LEAST <= n <= MOST)]
        r = True if not wrong else "a tuple of %d elements is %s, although %d to %d elements are what tuples can have" % (
            wrong[0], "accepted" if acc[wrong[0]] else "rejected", LEAST, MOST)
    memo[key] = r
    return r


def marks_use(db, R, I, w, i, e, memo):
    """Does this call of a walker take a plainly named type out of a collection (of unused type parameters)?"""
    args = call_args(I, e)
    ext = next(k for k, v in enumerate(db.variants(DT)) if v["name"] == "External")
    key = (w.id, tuple(a[1] for j, a in enumerate(args) if j != i and a[0] == "clo"))
    if key in memo:
        return memo[key]
    memo[key] = None
    try:
        I2, outs, dt = run_walker(db, w, i, args, ext)
    except A.Unsupported:
        return None
    x = fld(dt, "External", "0")
    good, bad = split_result(outs)
    r = False
    for ev, o in good:
        cs = {t[1]: t[2] for t in ev if t[0] in ("is", "cond")}
        plain = cs.get(fld(x, "generics")) != "Some" and all(v is True for t, v in cs.items() if mentions(t, fld(x, "path")))
        if not plain:
            continue
        rem = [t for t in ev if t[0] == "call" and isinstance(t[1], str) and t[1].rsplit("::", 1)[-1] in ("remove", "swap_remove", "shift_remove", "take", "insert")
               and len(t[2]) > 1 and strip_views(t[2][1]) == fld(fld(x, "name"), "value")]
        if rem:
            r = True
        else:
            r = False
            break
    memo[key] = r
    return r
