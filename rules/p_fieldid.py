"""Field identifiers: id and skip marker survive packing, transport and unpacking; markers mean what the format says;
skipping consumes one encoded value. Bit-provenance over the MIR of the identifier and skip functions."""
import absint as A
import bits as B
from absint import Unsupported, T, is_t, Outcome, ok, err
from rules.common import loc
from rules import wire as W
from rules.dec import Walk
from rules.p_varint import spec_bits, length_ok
from rules.p_mirror import plain

# book/src/reference/wire-format.md, "Field identifiers"
MARKERS = {"Varint": 0, "LengthPrefixed": 1, "Fixed1": 2, "Fixed4": 3, "Fixed8": 4}
FIXED = {"Fixed1": 1, "Fixed4": 4, "Fixed8": 8}


def bit(name, i):
    return (0, frozenset([(name, i)]))


def find(db, suffix):
    fs = [f for f in db.fns.values() if ("mabo::" + f.name).endswith(suffix) and f.crate.name == "mabo"]
    return fs[0] if len(fs) == 1 else None


class WireBits(B.BitInterp):
    """encode_u32/decode_u32 (decided by M05) stand for the transport of 32 bits"""

    def __init__(self, db, src="w"):
        super().__init__(db)
        self.models["mabo::buf::encode::encode_u32"] = self.m_put
        self.models["mabo::buf::decode::decode_u32"] = self.m_take
        self.src = src

    def m_put(self, I, fr, st, args, m, site, stack, tys):
        st.ev("put", self.norm_bv(st, self.deref_read(st, args[1])))
        return A.UNIT

    def m_take(self, I, fr, st, args, m, site, stack, tys):
        s2 = st.fork()
        st.ev("take")
        return [Outcome("ret", ok(B.invar(self.src, 32)), st), Outcome("ret", err(T("decode_error")), s2)]


def adt(db, suffix):
    return next((a for k, a in db.adts.items() if k.startswith("mabo::") and k.endswith(suffix)), None)


def disc_table(db):
    """FieldEncoding variants with their discriminants, from the type definition"""
    a = adt(db, "::FieldEncoding")
    return [(v["name"], v["discr"]) for v in a["variants"]] if a else None


def run(db, R):
    vs = disc_table(db)
    if not vs:
        R.undec("markers", "field encoding type not found")
    else:
        for name, d in vs:
            if name in MARKERS:
                R.n("skip markers")
                if d is not None and int(d) != MARKERS[name]:
                    R.v("marker/" + name, "crates/mabo/src/lib.rs the skip marker %s is %s, the wire format defines %d" % (name, d, MARKERS[name]))
            elif d is not None and int(d) in MARKERS.values():
                R.v("marker/" + name, "marker value %s has a second meaning %s" % (d, name))
    names = {i: n for i, (n, d) in enumerate(vs or [])}
    for part in (pack, unpack, transport, variant_transport, size_id, size_variant, skip_varint, skip_fixed, skip_prefixed):
        try:
            part(db, R, names)
        except (Unsupported, W.Unknown) as e:
            R.undec(part.__name__, str(e))
    R.floor("skip markers", 5)
    R.floor("identifier functions decided", 4)


def fid(value, enc, names):
    return ("adt", "mabo::FieldId", 0, "FieldId", (value, enc))


def each_enc(names):
    for i, n in names.items():
        if n in MARKERS:
            yield n, ("adt", "mabo::FieldEncoding", i, n, ())


def want_packed(marker):
    m = MARKERS[marker]
    return [B.ONE if (m >> i) & 1 else B.ZERO for i in range(3)] + [bit("x", i) for i in range(29)]


def legal(I, st):
    """identifiers below 2^29"""
    for i in (29, 30, 31):
        I.assume_bit(st, bit("x", i), 0)
    st.facts["nz"] = (tuple(bit("x", i) for i in range(29)),)
    return st


def check_packed(I, o, v, marker, f, R, key, what):
    bits = [I.nf(o.st, b) for b in I.tobits(v, 32)]
    if any(b is B.UNK for b in bits):
        raise Unsupported("%s: packed bits not resolved" % f.name)
    w = [I.nf(o.st, b) for b in want_packed(marker)]
    for i in range(32):
        if bits[i] != w[i]:
            R.v(key + "/" + marker, "%s %s: bit %d of the packed identifier is wrong for %s" % (loc(f), what, i, marker))
            return False
    return True


def pack(db, R, names):
    f = find(db, "::FieldId::into_u32")
    if f is None:
        raise Unsupported("into_u32 not found")
    R.saw(f)
    for n, e in each_enc(names):
        I = B.BitInterp(db)
        st = legal(I, A.State())
        for o in I.run(f, [fid(B.invar("x", 32), e, names)], st):
            if o.kind != "ret":
                R.v("pack/panic", "%s packing a legal identifier can panic: %s" % (loc(f), o.info))
                continue
            check_packed(I, o, o.value, n, f, R, "pack", "packing")
            R.n("pack paths")
    R.n("identifier functions decided")


def opt_fid(v):
    if v[0] == "adt" and v[3] == "None":
        return None
    if v[0] == "adt" and v[3] == "Some" and v[4][0][0] == "adt":
        return v[4][0]
    raise Unsupported("shape of the unpacked identifier")


def field_of(db, a, name):
    order = {x[0]: i for i, x in enumerate(db.adts[a[1]]["variants"][0]["fields"])}
    return a[4][order[name]]


def check_unpacked(db, I, o, r, src, f, R, key):
    """r: FieldId value or None for the 32 input bits `src`"""
    low = [I.nf(o.st, bit(src, i)) for i in range(3)]
    if not all(b in (B.ZERO, B.ONE) for b in low):
        # not split completely: judge every remaining marker
        cases = [m for m in range(8) if all(b in (B.ZERO, B.ONE) and b[0] == (m >> i) & 1 or b not in (B.ZERO, B.ONE) for i, b in enumerate(low))]
        poss = []
        for m in cases:
            s = o.st.fork()
            if all(I.assume_bit(s, bit(src, i), (m >> i) & 1) for i in range(3)):
                poss.append(m)
    else:
        poss = [sum(b[0] << i for i, b in enumerate(low))]
    inv = {v: k for k, v in MARKERS.items()}
    for m in poss:
        if r is None:
            if m in inv:
                R.v("%s/reject%d" % (key, m), "%s identifiers with the marker %s are rejected" % (loc(f), inv[m]))
        else:
            e = field_of(db, r, "encoding")
            if e[0] != "adt":
                raise Unsupported("marker not resolved")
            if m not in inv:
                R.v("%s/accept%d" % (key, m), "%s identifiers with the undefined marker %d are accepted as %s" % (loc(f), m, e[3]))
            elif e[3] != inv[m]:
                R.v("%s/marker%d" % (key, m), "%s marker %d is read as %s, the wire format says %s" % (loc(f), m, e[3], inv[m]))
        R.n("marker cases")
    if r is not None:
        vb = [I.nf(o.st, b) for b in I.tobits(field_of(db, r, "value"), 32)]
        for i in range(32):
            w = I.nf(o.st, bit(src, i + 3)) if i < 29 else B.ZERO
            if vb[i] is B.UNK:
                raise Unsupported("identifier bits not resolved")
            if vb[i] != w:
                R.v(key + "/value", "%s bit %d of the unpacked identifier is wrong" % (loc(f), i))
                break


def low(I, src, m):
    """the part of the input space whose marker bits are m"""
    st = A.State()
    for i in range(3):
        I.assume_bit(st, bit(src, i), (m >> i) & 1)
    return st


def unpack(db, R, names):
    f = find(db, "::FieldId::from_u32")
    if f is None:
        raise Unsupported("from_u32 not found")
    R.saw(f)
    for m in range(8):
        I = B.BitInterp(db)
        for o in I.run(f, [B.invar("w", 32)], low(I, "w", m)):
            if o.kind != "ret":
                R.v("unpack/panic", "%s unpacking can panic: %s" % (loc(f), o.info))
                continue
            check_unpacked(db, I, o, opt_fid(o.value), "w", f, R, "unpack")
            R.n("unpack paths")
    R.n("identifier functions decided")


def transport(db, R, names):
    f, g = find(db, "buf::encode::encode_id"), find(db, "buf::decode::decode_id")
    if f is None or g is None:
        raise Unsupported("encode_id/decode_id not found")
    R.saw(f)
    R.saw(g)
    for n, e in each_enc(names):
        I = WireBits(db)
        st = legal(I, A.State())
        for o in I.run(f, [T("w"), fid(B.invar("x", 32), e, names)], st):
            if o.kind != "ret":
                R.v("encode_id/panic", "%s can panic: %s" % (loc(f), o.info))
                continue
            puts = [x for x in o.events if x[0] == "put"]
            if len(puts) != 1 or len(o.events) != 1:
                raise Unsupported("encode_id writes something other than one u32")
            check_packed(I, o, puts[0][1], n, f, R, "encode_id", "the written identifier")
    for m in range(8):
        I = WireBits(db)
        for o in I.run(g, [T("r")], low(I, "w", m)):
            if o.kind != "ret":
                R.v("decode_id/panic", "%s can panic: %s" % (loc(g), o.info))
                continue
            took = len([x for x in o.events if x[0] == "take"])
            v = o.value
            if v[0] != "adt":
                raise Unsupported("decode_id result")
            if v[3] == "Ok":
                if took != 1:
                    raise Unsupported("decode_id reads %d values" % took)
                check_unpacked(db, I, o, v[4][0], "w", g, R, "decode_id")
            elif took:
                check_unpacked(db, I, o, None, "w", g, R, "decode_id")
    R.n("identifier functions decided")


def variant_transport(db, R, names):
    f, g = find(db, "buf::encode::encode_variant_id"), find(db, "buf::decode::decode_variant_id")
    if f is None or g is None:
        raise Unsupported("variant id functions not found")
    R.saw(f)
    R.saw(g)
    I = WireBits(db)
    full = [bit("x", i) for i in range(32)]
    for o in I.run(f, [T("w"), ("adt", "mabo::VariantId", 0, "VariantId", (B.invar("x", 32),))]):
        puts = [x for x in o.events if x[0] == "put"]
        if o.kind != "ret" or len(puts) != 1:
            raise Unsupported("encode_variant_id")
        b = [I.nf(o.st, q) for q in I.tobits(puts[0][1], 32)]
        if any(q is B.UNK for q in b):
            raise Unsupported("variant id bits")
        if b != [I.nf(o.st, q) for q in full]:
            R.v("variant/encode", "%s the written variant identifier differs from the given one" % loc(f))
    I = WireBits(db, "x")
    for o in I.run(g, [T("r")]):
        if o.kind != "ret":
            R.v("variant/panic", "%s can panic" % loc(g))
            continue
        v = o.value
        took = [x for x in o.events if x[0] == "take"]
        if v[0] == "adt" and v[3] == "Ok":
            b = [I.nf(o.st, q) for q in I.tobits(v[4][0][4][0], 32)]
            if any(q is B.UNK for q in b):
                raise Unsupported("variant id bits")
            if b != [I.nf(o.st, q) for q in full]:
                R.v("variant/decode", "%s the variant identifier differs from the one read" % loc(g))
        elif v[0] == "adt" and took:
            R.v("variant/reject", "%s rejects some variant identifiers" % loc(g))
    R.n("identifier functions decided")


def size_id(db, R, names):
    f = find(db, "buf::size::size_field_id")
    if f is None:
        raise Unsupported("size_field_id not found")
    R.saw(f)
    I = B.BitInterp(db)
    st = legal(I, A.State())
    for o in I.run(f, [B.invar("x", 32)], st):
        if o.kind != "ret":
            R.v("size_id/panic", "%s can panic: %s" % (loc(f), o.info))
            continue
        if o.value[0] != "int":
            raise Unsupported("symbolic size")
        for n in MARKERS:
            w = length_ok(I, o.st, want_packed(n), 32, o.value[1])
            R.n("size paths")
            if w:
                R.v("size_id/" + n, "%s size of an identifier with marker %s: %s" % (loc(f), n, w))
    R.n("identifier functions decided")


def size_variant(db, R, names):
    f = find(db, "buf::size::size_variant_id")
    if f is None:
        raise Unsupported("size_variant_id not found")
    R.saw(f)
    I = B.BitInterp(db)
    for o in I.run(f, [B.invar("x", 32)]):
        if o.kind != "ret" or o.value[0] != "int":
            raise Unsupported("symbolic size")
        w = length_ok(I, o.st, [bit("x", i) for i in range(32)], 32, o.value[1])
        R.n("size paths")
        if w:
            R.v("size_variant", "%s %s" % (loc(f), w))
    R.n("identifier functions decided")


def skip(db, R, names, marker, st, I, extra=0):
    f = find(db, "buf::decode::decode_skip")
    if f is None:
        raise Unsupported("decode_skip not found")
    R.saw(f)
    e = dict(each_enc(names))[marker]
    st.cells[("skip", 0)] = ("slice", "in")
    outs = I.run(f, [("ref", ("skip", 0), ()), e], st)
    return f, outs


def skip_varint(db, R, names):
    for L in range(1, 20):
        I = B.BitInterp(db)
        st = A.State()
        for j in range(L):
            I.assume_bit(st, (0, frozenset([("in", j, 7)])), 1 if j < L - 1 else 0)
        st.facts["avail"] = (L, 10 ** 6)
        try:
            f, outs = skip(db, R, names, "Varint", st, I)
        except B.Endless as e:
            if e.pos <= 4 * L + 64:
                raise
            R.v("skip/Varint/endless", "decode_skip goes on reading after the end of a %d-byte varint (%d bytes and no end in sight)" % (L, e.pos))
            break
        for o in outs:
            judge(R, f, o, L, "Varint", "%d-byte varint" % L)
    R.n("identifier functions decided")


def judge(R, f, o, n, marker, what):
    R.n("skip paths")
    if o.kind != "ret":
        R.v("skip/%s/panic" % marker, "%s skipping a %s can panic: %s" % (loc(f), what, o.info))
    elif o.value[0] != "adt":
        raise Unsupported("skip result")
    elif o.value[3] != "Ok":
        R.v("skip/%s/reject" % marker, "%s skipping a complete %s fails" % (loc(f), what))
    elif o.st.facts.get("pos", 0) != n:
        R.v("skip/%s/width" % marker, "%s skipping a %s consumes %d byte(s)" % (loc(f), what, o.st.facts.get("pos", 0)))


def skip_fixed(db, R, names):
    for m, n in FIXED.items():
        I = B.BitInterp(db)
        st = A.State()
        st.facts["avail"] = (n, 10 ** 6)
        f, outs = skip(db, R, names, m, st, I)
        for o in outs:
            judge(R, f, o, n, m, "%d-byte value" % n)
    R.n("identifier functions decided")


def skip_prefixed(db, R, names):
    """a length-prefixed value: the varint length, then exactly that many bytes"""
    f = find(db, "buf::decode::decode_skip")
    if f is None:
        raise Unsupported("decode_skip not found")
    I = W.interp(db)
    e = dict(each_enc(names))["LengthPrefixed"]
    n = 0
    for o in I.run(f, [T("arg", "r"), e]):
        if o.kind != "ret":
            R.v("skip/LengthPrefixed/panic", "%s skipping a length-prefixed value can panic: %s" % (loc(f), o.info))
            continue
        if o.value[0] != "adt":
            raise Unsupported("skip result")
        if o.value[3] != "Ok":
            continue
        w = Walk(I, T("arg", "r"))
        w.run(o.events)
        n += 1
        rd = w.reads
        if not (len(rd) == 2 and rd[0][0] == "V" and rd[1][0] in ("SKIP", "RAW")):
            R.v("skip/LengthPrefixed/shape", "%s skipping a length-prefixed value reads %s" % (loc(f), [x[0] for x in rd]))
        elif rd[0][1] != "u64":
            R.v("skip/LengthPrefixed/len", "%s the length is read as %s, encoders write u64" % (loc(f), rd[0][1]))
        elif plain(rd[1][2]) != rd[0][3]:
            R.v("skip/LengthPrefixed/width", "%s skips %s bytes instead of the decoded length" % (loc(f), A.show(rd[1][2])))
        R.n("skip paths")
    if not n:
        R.v("skip/LengthPrefixed/reject", "%s never skips a length-prefixed value" % loc(f))
    R.n("identifier functions decided")

