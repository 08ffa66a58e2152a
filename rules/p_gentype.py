"""M10: for every data type, the generated encode, decode and size expressions and the Rust type fit each other and the wire format."""
from rules.common import *
from rules.tmpl import Unknown, canon, spec, diff
from rules.rustgen import *

P = {"Bool": "bool", "U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "U128": "u128", "I8": "i8", "I16": "i16", "I32": "i32",
     "I64": "i64", "I128": "i128", "F32": "f32", "F64": "f64"}
INTS = [k for k in P if k not in ("Bool", "F32", "F64")]
STR = ("String", "StringRef")
BYT = ("Bytes", "BytesRef")
B = "::mabo::buf::"
TUP = (2, 12)


def child(mode, path, name="v"):
    if mode == "size":
        return "⟦size(%s `%s`)⟧" % (path, name)
    if mode == "encode":
        return "⟦encode(%s `%s` nested).1⟧" % (path, name)
    if mode == "decode":
        return "⟦decode(%s nested)⟧" % path
    return "⟦definition(%s)⟧" % path


def bytes_fn(bt, box=False):
    return "bytes_std" if box or bt == "VecU8" else "bytes_bytes"


def expected(mode, v, p, n, bt, root, inner=None, hasroot=True):
    """Required text. `p` is the path of the type, `n` the tokens of the value."""
    c = lambda m, sub, nm="v": child(m, p + sub, nm)
    tup = "& %s . ‹lit index %s.Tuple.0[]›" % (n.replace("⟦", "‹").replace("⟧", "›"), p)
    if mode == "encode":
        f = B + "encode_"
        if v in P:
            return "%s%s(w, *%s)" % (f, P[v], n)
        if v in STR + ("BoxString",):
            return "%sstring(w, %s)" % (f, n)
        if v in BYT + ("BoxBytes",):
            return "%s%s(w, %s)" % (f, bytes_fn(bt, v == "BoxBytes"), n)
        if v in ("Vec", "HashSet", "Array"):
            return "%s%s(w, %s, |v| { %s }, |w, v| { %s })" % (f, {"Vec": "vec", "HashSet": "hash_set", "Array": "array"}[v], n,
                                                               c("size", ".%s.0" % v), c("encode", ".%s.0" % v))
        if v == "HashMap":
            return "%shash_map(w, %s, |k| { %s }, |v| { %s }, |w, k| { %s }, |w, v| { %s })" % (
                f, n, c("size", ".HashMap.0.0", "k"), c("size", ".HashMap.0.1"), c("encode", ".HashMap.0.0", "k"), c("encode", ".HashMap.0.1"))
        if v == "Option":
            return "%soption(w, %s, |w, v| { %s })" % (f, n, c("encode", ".Option.0"))
        if v == "Tuple":
            enc = "$( ⟦encode(%s.Tuple.0[] `%s` nested).1⟧ ; )*" % (p, tup)
            if root:
                return "%stuple(w, || { $( ⟦size(%s.Tuple.0[] `%s`)⟧ ) + * }, |w| { %s })" % (f, p, tup, enc)
            return enc
        if v == "External":
            return "%s.encode(w)" % n
        if v == "NonZero":
            if inner in INTS:
                return "%s%s(w, %s.get())" % (f, P[inner], n)
            return expected(mode, inner, p + ".NonZero.0", n + " . get ( )", bt, False)
    if mode == "size":
        f = B + "size_"
        if v in P:
            return "%s%s(*%s)" % (f, P[v], n)
        if v in STR + ("BoxString",):
            return "%sstring(%s)" % (f, n)
        if v in BYT + ("BoxBytes",):
            return "%s%s(%s)" % (f, bytes_fn(bt, v == "BoxBytes"), n)
        if v in ("Vec", "HashSet", "Array"):
            return "%s%s(%s, |v| { %s })" % (f, {"Vec": "vec", "HashSet": "hash_set", "Array": "array"}[v], n, c("size", ".%s.0" % v))
        if v == "HashMap":
            return "%shash_map(%s, |k| { %s }, |v| { %s })" % (f, n, c("size", ".HashMap.0.0", "k"), c("size", ".HashMap.0.1"))
        if v == "Option":
            return "%soption(%s.as_ref(), |v| { %s })" % (f, n, c("size", ".Option.0"))
        if v == "Tuple":
            sum_ = "$( ⟦size(%s.Tuple.0[] `%s`)⟧ ) + *" % (p, tup)
            return "%stuple(|| { %s })" % (f, sum_) if root and hasroot else sum_
        if v == "External":
            return "%s.size()" % n
        if v == "NonZero":
            if inner in INTS:
                return "%s%s(%s.get())" % (f, P[inner], n)
            return expected(mode, inner, p + ".NonZero.0", n + " . get ( )", bt, False)
    if mode == "decode":
        f = B + "decode_"
        nz = ""
        q = p
        if v == "NonZero":
            nz, v, q = "non_zero_", inner, p + ".NonZero.0"
            c = lambda m, sub, nm="v": child(m, q + sub, nm)
        if v in P:
            return "%s%s%s(r)" % (f, nz, P[v])
        if v in STR:
            return "%s%sstring(r)" % (f, nz)
        if v in BYT:
            return "%s%s%s(r)" % (f, nz, bytes_fn(bt))
        if v == "BoxString":
            return "Box::<str>::decode(r)"
        if v == "BoxBytes":
            return "Box::<[u8]>::decode(r)"
        if v in ("Vec", "HashSet", "Array", "Option"):
            return "%s%s%s(r, |r| { %s })" % (f, nz, {"Vec": "vec", "HashSet": "hash_set", "Array": "array", "Option": "option"}[v], c("decode", ".%s.0" % v))
        if v == "HashMap":
            return "%s%shash_map(r, |r| { %s }, |r| { %s })" % (f, nz, c("decode", ".HashMap.0.0"), c("decode", ".HashMap.0.1"))
        if v == "Tuple":
            return "{ %s Ok::<_, ::mabo::buf::Error>(( $( ⟦decode(%s.Tuple.0[] nested)⟧ ? , )* )) }" % (
                "%su64(r)? ;" % f if root else "", p)
        if v == "External":
            return ["$( ⟦ident {0}.External.0.path[]⟧ :: )* ⟦ident {0}.External.0.name⟧ {1} :: decode(r)".format(p, g) for g in
                    ("", ":: < $( ⟦definition(%s.External.0.generics[])⟧ , )* >" % p)]
    if mode == "definition":
        if v in P:
            return P[v]
        if v in STR:
            return "String"
        if v in BYT:
            return "Vec<u8>" if bt == "VecU8" else "::mabo::buf::Bytes"
        if v == "BoxString":
            return "Box<str>"
        if v == "BoxBytes":
            return "Box<[u8]>"
        if v == "Vec":
            return "Vec<%s>" % c("definition", ".Vec.0")
        if v == "HashMap":
            return "::std::collections::HashMap<%s, %s>" % (c("definition", ".HashMap.0.0"), c("definition", ".HashMap.0.1"))
        if v == "HashSet":
            return "::std::collections::HashSet<%s>" % c("definition", ".HashSet.0")
        if v == "Option":
            return "Option<%s>" % c("definition", ".Option.0")
        if v == "Tuple":
            return "( $( ⟦definition(%s.Tuple.0[])⟧ , )* )" % p
        if v == "Array":
            return "[%s ; ⟦lit %s.Array.1⟧]" % (c("definition", ".Array.0"), p)
        if v == "External":
            return ["$( ⟦ident {0}.External.0.path[]⟧ :: )* ⟦ident {0}.External.0.name⟧ {1}".format(p, g) for g in
                    ("", "< $( ⟦definition(%s.External.0.generics[])⟧ , )* >" % p)]
        if v == "NonZero":
            q = p + ".NonZero.0"
            if inner in INTS:
                return "::std::num::NonZero%s" % P[inner].upper()
            if inner in STR:
                return "::mabo::NonZeroString"
            if inner in BYT:
                return "::mabo::NonZeroBytes" if bt == "VecU8" else "::mabo::NonZero<::mabo::buf::Bytes>"
            if inner == "Vec":
                return "::mabo::NonZeroVec<%s>" % child(mode, q + ".Vec.0")
            if inner == "HashMap":
                return "::mabo::NonZeroHashMap<%s, %s>" % (child(mode, q + ".HashMap.0.0"), child(mode, q + ".HashMap.0.1"))
            if inner == "HashSet":
                return "::mabo::NonZeroHashSet<%s>" % child(mode, q + ".HashSet.0")
    return None


def length_cond(o, path):
    """Which tuple lengths a path is for: a function over the length, or None where a condition on it is not understood."""
    tests = []
    L = T("len", path)
    for e in o.events:
        if e[0] != "cond":
            continue
        t, truth = e[1], e[2]
        if L not in list(walk(t)):
            continue

        def ev(t, n):
            if t == L:
                return n
            if t[0] == "int":
                return t[1]
            if is_t(t) and t[1] in ("lt", "le", "eq", "ne", "gt", "ge", "add", "sub", "and", "or", "not"):
                a = [ev(x, n) for x in t[2:]]
                if None in a:
                    return None
                return {"lt": lambda: a[0] < a[1], "le": lambda: a[0] <= a[1], "eq": lambda: a[0] == a[1], "ne": lambda: a[0] != a[1],
                        "gt": lambda: a[0] > a[1], "ge": lambda: a[0] >= a[1], "add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1],
                        "and": lambda: a[0] and a[1], "or": lambda: a[0] or a[1], "not": lambda: not a[0]}[t[1]]()
            return None
        tests.append((lambda n, t=t, truth=truth: None if ev(t, n) is None else bool(ev(t, n)) == truth))
    return lambda n: all(x(n) is not False for x in tests)


def empty_generics(o):
    for e in o.events:
        if e[0] == "cond" and is_t(e[1], "eq") and ("int", 0) in e[1][2:]:
            x = [y for y in e[1][2:] if y != ("int", 0)]
            if x and is_t(x[0], "len") and "generics" in show(x[0]):
                return e[2]
    return None


def combos(g):
    for v in g.variants:
        if v == "NonZero":
            for w in g.variants:
                yield v, w
        else:
            yield v, None


def run(db, R):
    g = Gen(db)
    ty = T("arg", "ty")
    name = T("arg", "name")
    for mode in MODES:
        if mode not in g.data:
            R.undec(mode, "no single recursive function from a data type to tokens found")
            continue
        fn = g.data[mode]
        R.saw(fn)
        R.n("generator functions")
        roles = g.roles[fn.name][1]
        if mode == "size" and "root" not in roles:
            R.v("size:root-tuple", "%s (%s): the size of a tuple field leaves out the length prefix that the encoder writes for a tuple that is a whole field" % (fn.name, loc(fn)))
        for v, inner in combos(g):
            for bt in g.B:
                for root in ((True, False) if "root" in roles else (True,)):
                    ref = {ty: g.V[v], T("fld", OPTS, "bytes_type"): g.B[bt]}
                    if inner:
                        ref[T("fld", ty, "NonZero", "0")] = g.V[inner]
                    label = "%s<%s>" % (v, inner) if inner else v
                    key = "%s:%s" % (mode, label)
                    args = g.args(mode, ty, name, ("int", 1 if root else 0))
                    try:
                        outs = g.outcomes(fn, args, ref)
                    except A.Unsupported as e:
                        R.undec(key, str(e))
                        continue
                    one(R, g, mode, v, inner, bt, root, key, label, outs, ty, name)
    R.floor("generator functions", 3)
    R.floor("templates", 100)


def one(R, g, mode, v, inner, bt, root, key, label, outs, ty, name):
    want = expected(mode, v, "ty", "⟦name⟧", bt, root, inner, "root" in g.roles[g.data[mode].name][1])
    nm = GenNamer(g, {ty: "ty", name: "name"})
    for o in outs:
        if v == "Tuple" or inner == "Tuple":
            path = T("fld", ty, "Tuple", "0") if v == "Tuple" else T("fld", T("fld", ty, "NonZero", "0"), "Tuple", "0")
            ok = length_cond(o, path)
            if not any(ok(n) for n in range(TUP[0], TUP[1] + 1)):
                R.n("paths for lengths that validation rejects")
                continue
        if o.kind == "panic":
            R.v("panic:%s" % label, "%s (%s): no %s code for a field of type %s: the generator panics, although the schema compiler accepts the type" % (
                g.data[mode].name, loc(g.data[mode]), mode, label))
            continue
        if o.kind != "ret":
            R.undec(key, "ends in %s" % o.kind)
            continue
        if want is None:
            R.n("templates for types without a meaning")
            continue
        val = o.value
        try:
            if mode == "encode" and val[0] == "tup":
                val = val[1][1]
            if val[0] != "ts":
                raise Unknown("result " + show(val)[:120])
            got = canon(nm.render(val[1]))
        except Unknown as e:
            R.undec(key, str(e))
            continue
        R.n("templates")
        alts = want if isinstance(want, list) else [want]
        if len(alts) == 2 and empty_generics(o) is not True:
            alts = alts[1:]
        alts = [spec(a) for a in alts]
        if got in alts:
            if R.counts["templates"] % 40 == 1:
                R.sample("%s %s %s: %s" % (mode, label, bt, " ".join(got)))
            continue
        R.v(key, "%s (%s) for %s%s%s: generates %s" % (g.data[mode].name, loc(g.data[mode]), label, " as a whole field" if root and v == "Tuple" else "",
                                                      " with the option %s" % bt if "Bytes" in label else "", diff(got, alts[0])))
