"""Varint: encode writes the documented form, size counts it, decode inverts it and stays inside its input.
Decided per integer width on bit-provenance paths: every bit of every output is an XOR of input bits."""
import absint as A
import bits as B
from absint import Unsupported, INTBITS
from rules.common import loc

UT = ["u16", "u32", "u64", "u128"]
ST = ["i16", "i32", "i64", "i128"]


def zig(x):
    n = len(x)
    return [x[n - 1]] + [B.bxor(x[i - 1], x[n - 1]) for i in range(1, n)]


def run(db, R):
    fns = {}
    for f in db.fns.values():
        if f.id.startswith("mabo::varint::") and f.id.count("::") == 2:
            fns[f.id.split("::")[2]] = f
    for ty in UT + ST:
        trio = [fns.get(k + "_" + ty) for k in ("encode", "decode", "size")]
        if any(t is None for t in trio):
            R.undec("varint " + ty, "functions not found")
            continue
        for t in trio:
            R.saw(t)
        for part, f in ((enc, trio[0]), (siz, trio[2]), (dec, trio[1])):
            try:
                part(db, R, ty, f, trio)
            except Unsupported as e:
                R.undec(f.id, str(e))
    R.floor("varint functions decided", 12)


def spec_bits(ty):
    n = INTBITS[ty]
    x = list(B.invar("x", n)[1])
    return n, x, (zig(x) if ty[0] == "i" else x)


def length_ok(I, st, z, n, L):
    """None when exactly the values on this path have encoded length L"""
    for b in z[7 * L:]:
        if I.nf(st, b) != B.ZERO:
            return "values with more than %d significant bits reach a length of %d" % (7 * L, L)
    if L > 1:
        s = st.fork()
        if all(I.assume_bit(s, b, 0) for b in z[7 * (L - 1):]):
            return "values with at most %d significant bits reach a length of %d" % (7 * (L - 1), L)
    return None


def enc_paths(db, ty, f):
    I = B.BitInterp(db)
    return I, I.run(f, [B.invar("x", INTBITS[ty])])


def enc(db, R, ty, f, trio):
    n, x, z = spec_bits(ty)
    I, outs = enc_paths(db, ty, f)
    mx = -(-n // 7)
    bad = {}
    for o in outs:
        if o.kind != "ret":
            bad["panic"] = "%s can panic (%s)" % (f.name, o.info)
            continue
        v = o.value
        if v[0] != "tup" or v[1][0][0] != "arr" or v[1][1][0] != "int":
            raise Unsupported("result of %s not a byte array with a length" % f.name)
        arr, L = v[1][0][1], v[1][1][1]
        R.n("encode paths")
        if not 1 <= L <= mx or L > len(arr):
            bad["len"] = "%s reports a length of %d" % (f.name, L)
            continue
        w = length_ok(I, o.st, z, n, L)
        if w:
            bad["len"] = "%s: %s" % (f.name, w)
            continue
        for j in range(L):
            bits = I.tobits(arr[j], 8)
            for b in range(8):
                got = I.nf(o.st, bits[b])
                want = (B.ONE if j < L - 1 else B.ZERO) if b == 7 else (I.nf(o.st, z[7 * j + b]) if 7 * j + b < n else B.ZERO)
                if got is B.UNK:
                    raise Unsupported("%s: bit %d of byte %d not resolved" % (f.name, b, j))
                if got != want:
                    bad["bit"] = "%s: byte %d of a %d-byte encoding has the wrong bit %d" % (f.name, j, L, b)
                R.n("encoded bits matched")
    done(R, f, bad)


def done(R, f, bad):
    for k, t in bad.items():
        R.v("%s/%s" % (f.id, k), "%s %s" % (loc(f), t))
    R.n("varint functions decided")


def siz(db, R, ty, f, trio):
    n, x, z = spec_bits(ty)
    I = B.BitInterp(db)
    outs = I.run(f, [B.invar("x", n)])
    bad = {}
    for o in outs:
        if o.kind != "ret":
            bad["panic"] = "%s can panic (%s)" % (f.name, o.info)
            continue
        if o.value[0] != "int":
            raise Unsupported("%s: symbolic size" % f.name)
        R.n("size paths")
        w = length_ok(I, o.st, z, n, o.value[1])
        if w:
            bad["len"] = "%s: %s" % (f.name, w)
    done(R, f, bad)


def okval(o):
    v = o.value
    if v[0] == "adt" and v[3] == "Ok":
        t = v[4][0]
        if t[0] == "tup" and t[1][1][0] == "int":
            return t[1][0], t[1][1][1]
        raise Unsupported("shape of the decoded value")
    if v[0] == "adt" and v[3] == "Err":
        return None
    raise Unsupported("shape of the decode result")


def dec(db, R, ty, f, trio):
    n, x, z = spec_bits(ty)
    mx = -(-n // 7)
    bad = {}
    # every input
    I = B.BitInterp(db)
    for o in I.run(f, [("slice", "in")]):
        if o.kind != "ret":
            bad["panic"] = "%s can panic (%s)" % (f.name, o.info)
            continue
        R.n("decode paths")
        r = okval(o)
        if r is None:
            continue
        v, c = r
        lo = o.st.facts.get("avail", (0, 0))[0]
        if not 1 <= c <= lo:
            bad["consumed"] = "%s reports %d bytes read where %d are known to exist" % (f.name, c, lo)
            continue
        for j in range(c):
            got = I.nf(o.st, (0, frozenset([("in", j, 7)])))
            want = B.ONE if j < c - 1 else B.ZERO
            if got != want:
                bad["end"] = "%s accepts %d byte(s) without having checked the end marker of byte %d" % (f.name, c, j)
        # the value is what the bytes denote, bits beyond the width dropped
        raw = [(0, frozenset([("in", i // 7, i % 7)])) if i < 7 * c else B.ZERO for i in range(n)]
        if ty[0] == "i":
            raw = [B.bxor(raw[i + 1] if i + 1 < n else B.ZERO, raw[0]) for i in range(n)]
        vb = I.tobits(v, n)
        for i in range(n):
            g = I.nf(o.st, vb[i])
            if g is B.UNK:
                raise Unsupported("%s: bit %d not resolved" % (f.name, i))
            if g != I.nf(o.st, raw[i]):
                bad["denote"] = "%s: bit %d of the value read from %d byte(s) is not the bit the format places there" % (f.name, i, c)
            R.n("decoded bits matched")
    # every input that starts with an encoded value
    E, eouts = enc_paths(db, ty, trio[0])
    for L in range(1, mx + 1):
        st = A.State()
        I = B.BitInterp(db)
        feas = True
        for b in z[7 * L:]:
            feas = feas and I.assume_bit(st, b, 0)
        for j in range(L):
            for b in range(8):
                want = (B.ONE if j < L - 1 else B.ZERO) if b == 7 else (z[7 * j + b] if 7 * j + b < n else B.ZERO)
                feas = feas and I.assume_bit(st, B.bxor((0, frozenset([("in", j, b)])), want), 0)
        if L > 1:
            feas = feas and I.assume(st, A.T("allzero", tuple(z[7 * (L - 1):])), False)
        st.facts["avail"] = (L, 10 ** 6)
        if not feas:
            raise Unsupported("infeasible length %d" % L)
        got_any = False
        for o in I.run(f, [("slice", "in")], st):
            if o.kind != "ret":
                bad["panic"] = "%s can panic on an encoded value (%s)" % (f.name, o.info)
                continue
            R.n("roundtrip paths")
            r = okval(o)
            if r is None:
                bad["reject"] = "%s rejects a valid %d-byte encoding" % (f.name, L)
                continue
            got_any = True
            v, c = r
            if c != L:
                bad["consumed2"] = "%s reads %d byte(s) of a %d-byte encoding" % (f.name, c, L)
                continue
            vb = [I.nf(o.st, b) for b in I.tobits(v, n)]
            for i in range(n):
                w = I.nf(o.st, x[i])
                if vb[i] is B.UNK:
                    raise Unsupported("%s: bit %d not resolved" % (f.name, i))
                if vb[i] != w:
                    bad["value"] = "%s: bit %d of the value is wrong after a %d-byte roundtrip" % (f.name, i, L)
                R.n("roundtrip bits matched")
        if not got_any and not bad:
            raise Unsupported("no outcome for %d bytes" % L)
    done(R, f, bad)
