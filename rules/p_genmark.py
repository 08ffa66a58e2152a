"""M07: the wire marker generated with a field announces the form its value really has."""
from rules.common import *
from rules.tmpl import Unknown, canon
from rules.rustgen import *
from rules.p_gentype import combos, length_cond, TUP, INTS

FIXED = {"Bool": "Fixed1", "U8": "Fixed1", "I8": "Fixed1", "F32": "Fixed4", "F64": "Fixed8"}
PREFIXED = ("String", "StringRef", "BoxString", "Bytes", "BytesRef", "BoxBytes", "Vec", "HashMap", "HashSet", "Array", "Tuple")


def marker(v):
    """The marker whose skip rule consumes exactly one value of this type as a whole field; None where there is no such marker."""
    if v in FIXED:
        return FIXED[v]
    if v in INTS:
        return "Varint"
    if v in PREFIXED:
        return "LengthPrefixed"
    return None


def run(db, R):
    g = Gen(db)
    ty, name = T("arg", "ty"), T("arg", "name")
    fn = g.data.get("encode")
    if fn is None:
        R.undec("encode", "no single recursive function from a data type to tokens found")
        R.floor("markers", 10)
        return
    R.saw(fn)
    for v, inner in combos(g):
        label = "%s<%s>" % (v, inner) if inner else v
        base = inner or v
        for bt in g.B:
            ref = {ty: g.V[v], T("fld", OPTS, "bytes_type"): g.B[bt]}
            if inner:
                ref[T("fld", ty, "NonZero", "0")] = g.V[inner]
            try:
                outs = g.outcomes(fn, g.args("encode", ty, name, ("int", 1)), ref)
            except A.Unsupported as e:
                R.undec(label, str(e))
                continue
            for o in outs:
                if o.kind != "ret":
                    continue        # M10 reports missing code
                if base == "Tuple":
                    path = T("fld", ty, "Tuple", "0") if v == "Tuple" else T("fld", T("fld", ty, "NonZero", "0"), "Tuple", "0")
                    ok = length_cond(o, path)
                    if not any(ok(n) for n in range(TUP[0], TUP[1] + 1)):
                        continue
                try:
                    val = o.value
                    if val[0] != "tup":
                        raise Unknown("result " + show(val)[:100])
                    mk = val[1][0]
                    got = canon(GenNamer(g, {ty: "ty", name: "name"}).render(mk[1] if mk[0] == "ts" else (("hole", mk),)))
                except Unknown as e:
                    R.undec(label, str(e))
                    continue
                R.n("markers")
                want = marker(base)
                if len(got) == 1 and re.match(r"⟦encode\([^`]*`.*\)\.0⟧$", got[0]):
                    R.v("marker:" + label, "%s (%s): a field of type %s is marked with the form of its component (%s), its value has the form %s" % (fn.name, loc(fn), label, got[0], marker(base)))
                    continue
                if len(got) < 3 or got[-2] != "::" or "FieldEncoding" not in got:
                    R.undec(label, "marker expression " + " ".join(got)[:100])
                    continue
                if want is None:
                    R.v("marker:" + label, "%s (%s): a field of type %s is marked %s, but its value is not written in that form: a reader that does not know the field skips the wrong bytes" % (
                        fn.name, loc(fn), label, got[-1]))
                elif got[-1] != want:
                    R.v("marker:" + label, "%s (%s): a field of type %s is marked %s, its value has the form %s" % (fn.name, loc(fn), label, got[-1], want))
                elif R.counts["markers"] % 8 == 1:
                    R.sample("%s: %s" % (label, got[-1]))
    R.floor("markers", 10)
