"""Wire summaries: what an encoder writes, what a decoder reads, what a size function counts."""
import re
import absint as A
from absint import is_t, T, walk, show
from rules.common import root, rewrite, strip_views, VIEWS

PUT = "bytes::buf::buf_mut::BufMut::"
GET = "bytes::buf::buf_impl::Buf::"
VAR = "mabo::varint::"

WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "u128": 16, "i128": 16}


def interp(db):
    return A.Interp(db, opaque=lambda f: f.id.startswith("mabo::varint::"), track_assert=True)


class Unknown(Exception):
    pass


def width(meth):
    m = re.match(r"(?:put|get|try_get)_([uif]\d+)(?:_(?:le|ne))?$", meth)
    if m:
        return WIDTH[m.group(1)]
    return None


# ---------------------------------------------------------------- canonical terms
def canon_term(I, v):
    def f(x):
        if not is_t(x):
            # `&x[..]` over everything
            return x
        if x[1] == "call":
            n = x[2]
            if isinstance(n, str) and VIEWS.search(n) and len(x[3]) == 1:
                return x[3][0]
            if isinstance(n, str) and n.endswith("::from_utf8") and False:
                return x
            if len(x) > 4:
                return ("t", "call", x[2], x[3])
        if x[1] == "index_" and is_t(x[3], "elem") and x[3][2][0] == "adt" and x[3][2][1].endswith("range::Range"):
            lo, hi = x[3][2][4]
            if lo == ("int", 0) and hi == T("len", x[2]):
                return T("elem", x[2])
        if x[1] == "index_" and is_t(x[3], "accn"):
            info = I and I.acc_info.get(x[3])
            if info and info[0] == ("int", 0) and set(info[1]) == {("int", 1)}:
                return T("elem", x[2])
        if x[1] == "idx" and is_t(x[3], "accn"):
            info = I and I.acc_info.get(x[3])
            if info and info[0] == ("int", 0) and set(info[1]) == {("int", 1)}:
                return T("elem", x[2])
        if x[1] == "mut" and False:
            return x
        return x
    return rewrite(v, f)


def rooted(v):
    """Forget versions of mutable places inside a term."""
    def f(x):
        if is_t(x, "mut"):
            return x[2]
        if is_t(x, "phi"):
            return x[4]
        return x
    return rewrite(v, f)


# ---------------------------------------------------------------- encoder
def enc_items(I, events, w):
    """Wire items written through the writer named w (a term)."""
    out = []
    for e in events:
        if e[0] == "loop":
            its = []
            for it in e[2]:
                x = enc_items(I, it, w)
                conds = tuple((c[1], c[2]) for c in it if c[0] in ("cond", "is") and not loop_guard(I, c))
                its.append((conds, tuple(x)))
            if any(x for _, x in its):
                out.append(("LOOP", tuple(its)))
        elif e[0] == "call":
            name, args = e[1], e[2]
            nm = name if isinstance(name, str) else name[0]
            idx = [i for i, a in enumerate(args) if root(a) == w]
            if isinstance(name, str) and name.startswith(PUT) and args and root(args[0]) == w:
                m = name[len(PUT):]
                if m in ("put", "put_slice", "extend_from_slice"):
                    out.append(put_item(I, args[1]))
                elif width(m):
                    out.append(("F", m[4:], canon_term(I, args[1])))
                elif m == "put_bytes":
                    out.append(("REP", canon_term(I, args[1]), canon_term(I, args[2])))
                elif m in ("remaining_mut", "has_remaining_mut"):
                    pass
                else:
                    raise Unknown("writer call %s" % m)
            elif idx:
                if name[0] == "callv" or (isinstance(name, str) and name.endswith("Encode::encode")):
                    out.append(("CB", tuple(canon_term(I, a) for i, a in enumerate(args) if i not in idx and not (i == 0 and name[0] == "callv"))))
                else:
                    raise Unknown("writer handed to %s" % nm)
        elif e[0] == "panic":
            pass
    return out


def loop_guard(I, c):
    """Conditions that only steer an index loop."""
    t = c[1]
    return is_t(t, "lt") and any(is_t(x, "accn") for x in walk(t))


def put_item(I, x):
    x = canon_term(I, x)
    if is_t(x, "index_"):
        b, r = x[2], x[3]
        if is_t(b, "fld") and b[3] == "0" and is_t(b[2], "call") and str(b[2][2]).startswith(VAR + "encode_"):
            c = b[2]
            if r[0] == "adt" and r[1].endswith("RangeTo") and is_t(r[4][0], "fld") and r[4][0][2] == c and r[4][0][3] == "1":
                return ("V", c[2][len(VAR) + 7:], c[3][0])
            if r[0] == "adt" and r[1].endswith("::Range") and r[4][0] == ("int", 0) and is_t(r[4][1], "fld") and r[4][1][2] == c and r[4][1][3] == "1":
                return ("V", c[2][len(VAR) + 7:], c[3][0])
    return ("RAW", x)


def enc_size(items):
    """Symbolic number of bytes of a list of items."""
    parts = []
    for it in items:
        if it[0] == "V":
            parts.append(T("vsize", it[1], vnorm(size_term(None, it[2]))))
        elif it[0] == "F":
            parts.append(("int", width("put_" + it[1])))
        elif it[0] == "RAW":
            parts.append(length(it[1]))
        elif it[0] == "CB":
            parts.append(T("cbsize", it[1]))
        elif it[0] == "REP":
            parts.append(it[2])
        elif it[0] == "LOOP":
            for conds, x in it[1]:
                s = enc_size(x)
                if len(it[1]) > 1 or conds:
                    s = T("opt", s)
                parts.append(T("sum", s))
    return norm(A.add_of(parts)) if parts else ("int", 0)


def length(x):
    x = strip_views(x)
    if x[0] == "str":
        return ("int", len(x[1].encode()))
    return T("len", x)


def vnorm(v):
    """Varint groups are 7 bits wide: or-ing a value below 8 into the cleared low three bits never changes the width."""
    if is_t(v, "bin") and v[2] == "BitOr":
        for a, b in ((v[3], v[4]), (v[4], v[3])):
            if is_t(a, "bin") and a[2] == "Shl" and a[4] == ("int", 3) and (is_t(b, "discr") and "FieldEncoding" in str(b[3]) or b[0] == "int" and 0 <= b[1] < 8):
                return a
    if is_t(v, "add"):
        pass
    return v


def norm(v):
    """Distribute sums over additions; fold counts of constants."""
    def f(x):
        if is_t(x, "sum") and is_t(x[2], "add"):
            return A.add_of(tuple(T("sum", y) for y in x[2][2:]))
        if is_t(x, "add"):
            return A.add_of(x[2:])
        if is_t(x, "len"):
            y = strip_views(x[2])
            if y is not x[2]:
                return T("len", y)
        return x
    p = None
    while p != v:
        p = v
        v = rewrite(v, f)
    return v


def size_term(I, v):
    """Outcome of a size function in the vocabulary of enc_size."""
    def f(x):
        if is_t(x, "call"):
            n = x[2]
            if isinstance(n, str) and n.startswith(VAR + "size_"):
                return T("vsize", n[len(VAR) + 5:], vnorm(x[3][0]))
            if n[0] == "callv" and not isinstance(n, str):
                return T("cbsize", tuple(x[3][1:]))
            if isinstance(n, str) and n.endswith("Size::size"):
                return T("cbsize", tuple(x[3]))
        return x
    return norm(rewrite(canon_term(I, v), f))


def guards(I, events):
    """Choices (enum variants / conditions) on the path, outside loops."""
    g = []
    for e in events:
        if e[0] == "is":
            g.append(("is", canon_term(I, e[1]), e[2]))
        elif e[0] == "cond" and not loop_guard(I, e):
            g.append(("cond", canon_term(I, e[1]), e[2]))
    return g


def contradict(g1, g2):
    for a in g1:
        for b in g2:
            if a[0] == b[0] and a[1] == b[1] and a[2] != b[2]:
                return True
    return False
