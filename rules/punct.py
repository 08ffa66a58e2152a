"""The list type of the parser (`Punctuated`) yields every element once, in order. Other rules rely on it: they treat its
iterators as the list's elements."""
import absint as A
from absint import is_t, T, show

P = "mabo_parser::punctuated::"


def run(db, R):
    make = {}
    for f in db.fns.values():
        if f.name in (P + "Punctuated::values", P + "Punctuated::iter"):
            make[f.name.rsplit("::", 1)[1]] = f
        if f.name == P + "Punctuated::len":
            length(db, R, f)
    for what, f in sorted(make.items()):
        R.saw(f)
        for k in (0, 1, 2, 4):
            R.n("list iterations")
            try:
                bad = drive(db, R, f, what, k)
            except A.Unsupported as e:
                R.undec("list:" + what, str(e))
                break
            if bad is None:
                R.undec("list:" + what, "its steps are not understood")
                break
            if bad:
                R.v("list:" + what, "Punctuated::%s on a list of %d elements: %s; elements of definitions (fields, variants, types) would be missed or misplaced" % (what, k + 1, bad))
                break
    extra = sorted({f.item for f in db.fns.values() if f.trait and "iterator" in f.trait and P in (f.self_s or "") and f.item not in (None, "next", "len")})
    if extra:
        R.undec("list:overrides", "iterator methods %s of Punctuated are not analysed" % ", ".join(extra))


def state(k):
    st = A.State()
    p = T("arg", "self")
    st.omem[T("fld", p, "values")] = ("arr", tuple(("tup", (T("v", i), T("p", i))) for i in range(k)))
    st.omem[T("fld", p, "last")] = ("tup", (T("v", k), T("p", k)))
    return st, p


def length(db, R, f):
    R.saw(f)
    for k in (0, 1, 3):
        st, p = state(k)
        try:
            outs = A.Interp(db).call_fn(f, [p], st, ())
        except A.Unsupported as e:
            R.undec("list:len", str(e))
            return
        R.n("list iterations")
        for o in outs:
            if o.kind == "ret" and o.value[0] == "int" and o.value[1] != k + 1:
                R.v("list:len", "Punctuated::len of a list of %d elements is %d" % (k + 1, o.value[1]))
            elif o.kind == "ret" and o.value[0] != "int":
                R.undec("list:len", show(o.value)[:100])


def drive(db, R, f, what, k):
    I = A.Interp(db)
    I.stepping = True
    st, p = state(k)
    outs = I.call_fn(f, [p], st, ())
    if len(outs) != 1 or outs[0].kind != "ret":
        return None
    st, it = outs[0].st, outs[0].value
    cell = (("drv", 0), 0)
    st.cells[cell] = it
    nxt = None
    if it[0] == "adt":
        nxt = next((g for g in I.trait_impl_index().get(("core::iter::traits::iterator::Iterator", "next"), ()) if g.crate.ty(g.d["self"]).get("adt") == it[1]), None)
    if nxt is None:
        return None
    R.saw(nxt)
    seen = []
    for _ in range(k + 3):
        outs = I.call_fn(nxt, [("ref", cell, ())], st, ())
        if len(outs) != 1 or outs[0].kind != "ret" or outs[0].value[0] != "adt":
            return None
        st, v = outs[0].st, outs[0].value
        if v[2] == 0:
            break
        x = I.deref_read(st, v[4][0])
        seen.append(x)
    els = []
    for x in seen:
        if x[0] == "tup":
            if what == "values":
                return None
            x = x[1][0]
        if not is_t(x, "v"):
            return None
        els.append(x[2])
    if els == list(range(k + 1)):
        return ""
    return "it yields the elements at %s" % els


