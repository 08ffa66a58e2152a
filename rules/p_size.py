"""Computed sizes equal written bytes (runtime crate): encode_X / size_X and Encode / Size impls, per path."""
from rules.common import *
from rules import wire as W


def pairs(db):
    fns = {f.id: f for f in db.fns.values() if f.crate.key.split("-")[0] == "mabo" or f.crate.name == "mabo"}
    enc, size = {}, {}
    for f in fns.values():
        if f.crate.name != "mabo" or f.kind not in ("Fn", "AssocFn"):
            continue
        if f.kind == "Fn" and f.id.startswith("mabo::buf::"):
            if f.item.startswith("encode_"):
                enc[f.item[7:]] = f
            elif f.item.startswith("size_"):
                size[f.item[5:]] = f
        elif f.trait and f.trait.endswith("Encode") and f.item == "encode":
            enc["impl " + f.self_s] = f
        elif f.trait and f.trait.endswith("Size") and f.item == "size":
            size["impl " + f.self_s] = f
    return enc, size


ALIAS = {"id": "field_id"}
# the size of a tuple is supplied by the caller together with its prefix (checked for generated code)
NO_SIZE = {"tuple"}


def writer_of(fn):
    for i in range(fn.argc):
        if fn.locals[i + 1][1] in ("w", "writer", "buf"):
            return i
    for i in range(fn.argc):
        ty = fn.local_ty(i + 1)
        if ty["k"] == "ref" and ty["mut"]:
            return i
    return None


def is_closure_param(fn, i):
    """A generic parameter bound by Fn*: called on the paths, never a value."""
    ty = fn.local_ty(i + 1)
    return ty["k"] == "param" and any(("callv", ) == () for _ in ())


def run(db, R):
    enc, size = pairs(db)
    for key, ef in sorted(enc.items()):
        sk = ALIAS.get(key, key)
        sf = size.get(sk)
        if sf is None:
            if key in NO_SIZE:
                continue
            R.v("no-size:" + key, "%s (%s) has no matching size function" % (ef.name, loc(ef)))
            continue
        compare(db, R, key, ef, sf)
    marker(db, R)
    R.floor("encode/size pairs compared", 50)
    R.floor("end marker compared", 1)
    R.floor("path pairs compared", 54)


def calls_of(outs):
    s = set()
    for o in outs:
        for e in A.flat_events(o.events):
            if e[0] == "call" and not isinstance(e[1], str) and e[1][0] == "callv":
                s.add(root(e[1][1]))
    return s


def compare(db, R, key, ef, sf):
    I = W.interp(db)
    try:
        wi = writer_of(ef)
        eargs = I.arg_terms(ef)
        sargs = I.arg_terms(sf)
        w = T("arg", "w")
        eargs[wi] = w
        eo = [o for o in I.run(ef, eargs)]
        so = [o for o in I.run(sf, sargs)]
        R.saw(ef)
        R.saw(sf)
        clos = calls_of(eo)
        sclos = calls_of(so)
        ev = [a for i, a in enumerate(eargs) if i != wi and a not in clos]
        sv = [a for a in sargs if a not in sclos]
        # closures that are only used to compute the prefix (never called) may remain: drop by position from the end
        ren_e, ren_s = {}, {}
        if len(ev) > len(sv):
            ev = [a for i, a in enumerate(eargs) if i != wi and ef.local_ty(i + 1)["k"] != "param"]
            sv = [a for i, a in enumerate(sargs) if sf.local_ty(i + 1)["k"] != "param"]
        for i, a in enumerate(ev):
            ren_e[a] = T("arg", "v%d" % i)
        for i, a in enumerate(sv):
            ren_s[a] = T("arg", "v%d" % i)
        # an id passed packed together with its encoding
        for i, a in enumerate(ev):
            ix = eargs.index(a)
            ty = ef.local_ty(ix + 1)
            if ty["s"].endswith("FieldId") or ty["s"].endswith("VariantId"):
                ren_e[T("fld", a, "value")] = T("arg", "v%d" % i)
                R_enc = T("fld", a, "encoding")
                ren_e[R_enc] = T("arg", "enc")
        n = 0
        for o in eo:
            if o.kind != "ret":
                continue
            items = W.enc_items(I, o.events, w)
            es = A.subst(W.enc_size(items), ren_e)
            es = W.norm(A.rewrite(es) if False else rewrite(es, lambda x: T("vsize", x[2], W.vnorm(x[3])) if is_t(x, "vsize") else x))
            ge = [tuple(A.subst(x, ren_e) if isinstance(x, tuple) else x for x in g) for g in W.guards(I, o.events)]
            for p in so:
                if p.kind != "ret":
                    continue
                gs = [tuple(A.subst(x, ren_s) if isinstance(x, tuple) else x for x in g) for g in W.guards(I, p.events)]
                if W.contradict(ge, gs):
                    continue
                ss = A.subst(W.size_term(I, p.value), ren_s)
                n += 1
                R.n("path pairs compared")
                ok = es == ss
                R.sample("%s: encode writes %s; size returns %s" % (key, show(es), show(ss)))
                if not ok:
                    R.v("size:" + key, "%s writes %s bytes but %s (%s) returns %s%s" % (
                        ef.name, show(es), sf.name, loc(sf), show(ss), (" when " + ", ".join("%s is %s" % (show(g[1]), g[2]) for g in ge + gs)) if ge or gs else ""))
        R.n("encode/size pairs compared")
        if n == 0:
            R.undec(key, "no comparable path")
    except (W.Unknown, A.Unsupported) as e:
        R.undec(key, str(e))


def const(db, name):
    for f in db.fns.values():
        if f.kind == "Const" and f.crate.name == "mabo" and f.item == name:
            for o in A.Interp(db).run(f, []):
                if o.kind == "ret" and o.value[0] == "int":
                    return f, o.value[1]
    return None, None


def marker(db, R):
    """The end marker of structs is an identifier word: its announced size is that of its varint form."""
    f, v = const(db, "END_MARKER")
    g, n = const(db, "END_MARKER_SIZE")
    if f is None or g is None:
        R.undec("END_MARKER", "constants not found")
        return
    R.saw(f)
    R.saw(g)
    R.n("end marker compared")
    want = max(1, -(-v.bit_length() // 7))
    if n != want:
        R.v("size:end-marker", "END_MARKER_SIZE (%s) is %d, the end marker %d takes %d byte(s)" % (loc(g), n, v, want))
