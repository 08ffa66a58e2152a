"""Bit-provenance analysis: every integer is a vector of bits, every bit an XOR of input bits (GF(2)-affine).
Branches on such values partition the trace and add linear facts; loops are followed to their statically bounded
end. Everything stays exact or becomes `unknown` (which no rule accepts)."""
import absint as A
from absint import T, is_t, Outcome, INTBITS, wrap_int, UNIT, TRUE, FALSE, some, NONE, Unsupported
import models as M

ZERO = (0, frozenset())
ONE = (1, frozenset())
UNK = None


def mono(vs):
    """product of input bits, as an atom"""
    return next(iter(vs)) if len(vs) == 1 else ("&", vs)


def mvars(a):
    return a[1] if a[0] == "&" else frozenset([a])


def pmul(a, b):
    """product of two polynomials (algebraic normal form); unknown when it grows too large"""
    ta = list(a[1]) + ([None] if a[0] else [])
    tb = list(b[1]) + ([None] if b[0] else [])
    if len(ta) * len(tb) > 256:
        return UNK
    c, s = 0, set()
    for x in ta:
        for y in tb:
            if x is None and y is None:
                c ^= 1
                continue
            m = mono((mvars(x) if x else frozenset()) | (mvars(y) if y else frozenset()))
            s ^= {m}
    return (c, frozenset(s))


def bxor(a, b):
    if a is UNK or b is UNK:
        return UNK
    return (a[0] ^ b[0], a[1] ^ b[1])


def band(a, b):
    if a == ZERO or b == ZERO:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    if a == b:
        return a
    if a is UNK or b is UNK:
        return UNK
    return pmul(a, b)


def bor(a, b):
    if a == ONE or b == ONE:
        return ONE
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    if a == b:
        return a
    return bxor(bxor(a, b), band(a, b))


def bnot(a):
    return UNK if a is UNK else (a[0] ^ 1, a[1])


def cbits(v, n):
    return tuple(ONE if (v >> i) & 1 else ZERO for i in range(n))


def bv(bits, signed=False):
    bits = tuple(bits)
    if all(b in (ZERO, ONE) for b in bits):
        v = sum(b[0] << i for i, b in enumerate(bits))
        if signed and bits and bits[-1] == ONE:
            v -= 1 << len(bits)
        return ("int", v)
    return ("bv", bits)


def invar(name, n, const=None):
    return ("bv", tuple((0, frozenset([(name, i)])) for i in range(n)))


class Endless(Unsupported):
    """A path that did not end; .pos: input consumed by then"""

    def __init__(self, text, pos):
        super().__init__(text)
        self.pos = pos


class BitInterp(A.Interp):
    def __init__(self, db, **kw):
        super().__init__(db, **kw)
        self.track_assert = True
        self.tyenv = {}
        self.pending = None
        self.steps = 0
        mm = self.models
        it = "core::iter::traits::iterator::Iterator::"
        for n in ("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
                  "core::array::<impl [T; N]>::iter"):
            mm[n] = self.m_iter
        for n in ("cloned", "copied", "by_ref", "fuse"):
            mm[it + n] = lambda I, fr, st, args, m, site, stack, tys: args[0]
        mm[it + "enumerate"] = self.stage("enum")
        mm[it + "take"] = self.stage("take")
        mm[it + "skip"] = self.stage("skip")
        mm[it + "rev"] = self.stage("rev")
        mm[it + "zip"] = self.stage("zip")
        mm[it + "map"] = self.stage("map")
        mm[it + "next"] = self.m_next
        mm["core::slice::<impl [T]>::get"] = self.m_get
        mm["core::slice::<impl [T]>::first"] = lambda I, fr, st, args, m, site, stack, tys: self.m_get(I, fr, st, [args[0], ("int", 0)], m, site, stack, tys)
        mm["core::slice::<impl [T]>::len"] = self.m_len
        mm["core::slice::<impl [T]>::is_empty"] = self.m_empty
        for n in ("u8", "u16", "u32", "u64", "u128", "usize", "i16", "i32", "i64", "i128", "i8"):
            p = "core::num::<impl %s>::" % n
            mm[p + "leading_zeros"] = self.m_lz
            mm[p + "div_ceil"] = self.m_divceil
            mm[p + "wrapping_neg"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.neg_bv(st, I.deref_read(st, args[0]), n)
            mm[p + "wrapping_shl"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.binop(fr, st, "Shl", I.deref_read(st, args[0]), I.deref_read(st, args[1]), {"k": "int", "s": n})
            mm[p + "wrapping_shr"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.binop(fr, st, "Shr", I.deref_read(st, args[0]), I.deref_read(st, args[1]), {"k": "int", "s": n})
            for b in ("cast_unsigned", "cast_signed"):
                mm[p + b] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.recast(I.deref_read(st, args[0]), n, (n.replace("i", "u") if n[0] == "i" else n.replace("u", "i", 1)))
            mm[p + "rotate_left"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.rot(st, args, n, 1)
            mm[p + "rotate_right"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.rot(st, args, n, -1)
            mm[p + "swap_bytes"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.perm(st, args, n, lambda b: [x for i in range(len(b) // 8 - 1, -1, -1) for x in b[8 * i:8 * i + 8]])
            mm[p + "reverse_bits"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.perm(st, args, n, lambda b: list(reversed(b)))
            mm[p + "trailing_zeros"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.perm(st, args, n, None)
            mm[p + "checked_shl"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.chk_shift(fr, st, args, n, "Shl")
            mm[p + "checked_shr"] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.chk_shift(fr, st, args, n, "Shr")
            for e in ("to_le_bytes", "to_ne_bytes"):
                mm[p + e] = lambda I, fr, st, args, m, site, stack, tys, n=n: I.as_bytes(st, args, n)
            mm[p + "to_be_bytes"] = lambda I, fr, st, args, m, site, stack, tys, n=n: ("arr", tuple(reversed(I.as_bytes(st, args, n)[1])))
            mm[p + "wrapping_add"] = mm[p + "wrapping_sub"] = lambda I, fr, st, args, m, site, stack, tys: T("unknown")
        bb = "bytes::buf::buf_impl::Buf::"
        mm[bb + "get_u8"] = self.m_get_u8
        mm[bb + "get_i8"] = self.m_get_u8
        mm[bb + "remaining"] = lambda I, fr, st, args, m, site, stack, tys: T("slen", st.facts.get("pos", 0)) if self.deref_read(st, args[0])[0] == "slice" else NotImplemented
        mm[bb + "has_remaining"] = lambda I, fr, st, args, m, site, stack, tys: T("avail", st.facts.get("pos", 0)) if self.deref_read(st, args[0])[0] == "slice" else NotImplemented
        mm[bb + "advance"] = self.m_advance
        mm[bb + "chunk"] = self.m_chunk
        mm["core::mem::size_of"] = self.m_sizeof
        mm["core::cmp::Ord::max"] = self.m_max
        mm["core::cmp::max"] = self.m_max
        mm["core::cmp::Ord::min"] = self.m_min
        mm["core::cmp::min"] = self.m_min
        mm["core::convert::From::from"] = self.m_from
        mm["core::convert::Into::into"] = self.m_from

    def loops(self, fr):
        return {}

    def explore(self, fr, start, st, within, active):
        self.steps += 1
        return super().explore(fr, start, st, within, active)

    def term(self, fr, st, t, work, outs):
        self.steps += 1
        if self.steps > 400000:
            raise Endless("unbounded loop in %s" % fr.fn.id, st.facts.get("pos", 0))
        if t[0] == "assert":
            # the failing side is a panic path, kept when it is feasible
            cond = self.norm_bv(st, self.deref_read(st, self.operand(fr, st, t[1])))
            if cond[0] == "bv" and len(cond[1]) == 1:
                cond = T("not", T("allzero", cond[1]))
            bad = st.fork()
            if self.assume(bad, cond, not t[2]):
                outs.append(Outcome("panic", None, bad, (t[3][0], fr.fn.id, t[5])))
            if self.assume(st, cond, bool(t[2])):
                work.append((t[4], st, False))
            return
        return super().term(fr, st, t, work, outs)

    # -------------------------------------------------- generics
    def invoke_fn(self, fr, st, m, f, args, tys, site, stack):
        env = []
        for a in m.get("resargs") or m.get("args") or []:
            if isinstance(a, int):
                t = fr.fn.crate.ty(a)
                env.append(self.resolve_ty(fr, t))
            else:
                env.append(None)
        self.pending = env
        return super().invoke_fn(fr, st, m, f, args, tys, site, stack)

    def resolve_ty(self, fr, t):
        if t["k"] == "param":
            e = self.tyenv.get(fr.fid)
            if e:
                ix = fr.fn.generics.index(t["s"]) if t["s"] in fr.fn.generics else 0
                return e[ix] if ix < len(e) else None
            return None
        return t["s"]

    def call_fn(self, fn, args, st, stack, body=None):
        if self.pending is not None:
            self.tyenv[self.next_fid + 1] = self.pending
            self.pending = None
        return super().call_fn(fn, args, st, stack, body)

    def m_sizeof(self, I, fr, st, args, m, site, stack, tys):
        a = m.get("args") or []
        t = fr.fn.crate.ty(a[0]) if a and isinstance(a[0], int) else None
        s = self.resolve_ty(fr, t) if t else None
        if s in INTBITS:
            return ("int", INTBITS[s] // 8)
        return T("sizeof", str(s))

    # -------------------------------------------------- linear facts
    def nf(self, st, b):
        """Normal form of a bit under the path's linear facts."""
        if b is UNK:
            return b
        env = st.facts.get("lin") or {}
        c, s = b
        for _ in range(200):
            hit = [v for v in s if v in env]
            if not hit:
                break
            for v in hit:
                ec, es = env[v]
                c ^= ec
                s = (s ^ frozenset([v])) ^ es
        ms = [v for v in s if v[0] == "&" and any(x in env for x in v[1])]
        if ms:
            r = (c, s - frozenset(ms))
            for m in ms:
                q = ONE
                for x in m[1]:
                    q = band(q, env[x] if x in env else (0, frozenset([x])))
                    if q is UNK:
                        return UNK
                r = bxor(r, q)
            return self.nf(st, r)
        return (c, s)

    def norm_bv(self, st, v):
        if v[0] == "bv":
            return bv([self.nf(st, b) for b in v[1]])
        return v

    def assume_bit(self, st, b, val):
        b = self.nf(st, b)
        if b is UNK:
            raise Unsupported("condition on an unknown bit")
        c, s = b
        if not s:
            return c == val
        if any(v[0] == "&" for v in s):
            raise Unsupported("condition on a product of bits")
        p = max(s)
        env = dict(st.facts.get("lin") or {})
        env[p] = (c ^ val, s - {p})
        for k in list(env):
            if k != p and p in env[k][1]:
                ec, es = env[k]
                env[k] = (ec ^ env[p][0], (es - {p}) ^ env[p][1])
        st.facts["lin"] = env
        # disjunctive facts
        for d in st.facts.get("nz", ()):
            if all(self.nf(st, x) == ZERO for x in d):
                return False
        return True

    def assume(self, st, cond, val):
        if cond[0] == "int":
            return bool(cond[1]) == val
        if is_t(cond, "not"):
            return self.assume(st, cond[2], not val)
        if is_t(cond, "allzero"):
            bits = [self.nf(st, b) for b in cond[2]]
            if val:
                for b in bits:
                    if not self.assume_bit(st, b, 0):
                        return False
                return True
            bits = [b for b in bits if b != ZERO]
            if not bits:
                return False
            if any(b == ONE for b in bits):
                return True
            if any(b is UNK for b in bits):
                raise Unsupported("condition on an unknown bit")
            if len(bits) == 1:
                return self.assume_bit(st, bits[0], 1)
            st.facts["nz"] = st.facts.get("nz", ()) + (tuple(bits),)
            return True
        if is_t(cond, "bin") and cond[2] in ("BitAnd", "BitOr"):
            return super().assume(st, cond, val)
        if is_t(cond, "avail"):
            # slice index cond[2] exists
            av = st.facts.get("avail", (0, 10 ** 6))
            lo, hi = av
            i = cond[2]
            if val:
                if i >= hi:
                    return False
                st.facts["avail"] = (max(lo, i + 1), hi)
            else:
                if i < lo:
                    return False
                st.facts["avail"] = (lo, min(hi, i))
            return True
        raise Unsupported("condition %s" % A.show(cond))

    # -------------------------------------------------- arithmetic
    def tobits(self, v, n):
        if v[0] == "int":
            return cbits(v[1] & ((1 << n) - 1), n)
        if v[0] == "bv" and len(v[1]) == n:
            return v[1]
        return (UNK,) * n

    def neg_bv(self, st, v, ty):
        n = INTBITS[ty]
        if v[0] == "int":
            return ("int", wrap_int(-v[1], ty))
        b = [self.nf(st, x) for x in self.tobits(v, n)]
        if all(x == ZERO for x in b[1:]):
            return bv([b[0]] * n, ty[0] == "i")
        return ("bv", (UNK,) * n)

    def rot(self, st, args, ty, sign):
        n = INTBITS[ty]
        k = self.norm_bv(st, self.deref_read(st, args[1]))
        if k[0] != "int":
            raise Unsupported("rotation by a variable amount")
        b = list(self.tobits(self.norm_bv(st, self.deref_read(st, args[0])), n))
        k = (sign * k[1]) % n
        return bv(b[n - k:] + b[:n - k], ty[0] == "i")

    def perm(self, st, args, ty, f):
        if f is None:
            raise Unsupported("trailing_zeros")
        return bv(f(list(self.tobits(self.norm_bv(st, self.deref_read(st, args[0])), INTBITS[ty]))), ty[0] == "i")

    def as_bytes(self, st, args, ty):
        b = self.tobits(self.norm_bv(st, self.deref_read(st, args[0])), INTBITS[ty])
        return ("arr", tuple(bv(b[i:i + 8]) for i in range(0, len(b), 8)))

    def chk_shift(self, fr, st, args, ty, op):
        k = self.norm_bv(st, self.deref_read(st, args[1]))
        if k[0] != "int":
            raise Unsupported("shift by a variable amount")
        if not 0 <= k[1] < INTBITS[ty]:
            return NONE
        return some(self.binop(fr, st, op, args[0], k, {"k": "int", "s": ty}))

    def recast(self, v, sty, dty):
        if v[0] == "int":
            return ("int", wrap_int(v[1], dty))
        if v[0] != "bv":
            return v
        n = INTBITS[dty]
        b = v[1]
        if len(b) >= n:
            return bv(b[:n], dty[0] == "i")
        fill = b[-1] if sty[0] == "i" else ZERO
        return bv(tuple(b) + (fill,) * (n - len(b)), dty[0] == "i")

    def rvalue(self, fr, st, r, dest):
        if r[0] == "cast" and r[1] == "IntToInt":
            v = self.operand(fr, st, r[2])
            if v[0] == "bv" or v[0] == "int":
                return self.recast(v, self.operand_ty(fr, r[2])["s"], fr.fn.crate.ty(r[3])["s"])
        if r[0] == "un":
            v = self.norm_bv(st, self.operand(fr, st, r[2]))
            if v[0] == "bv":
                ty = self.operand_ty(fr, r[2])
                if r[1] == "Not":
                    return bv([bnot(self.nf(st, b)) for b in v[1]], ty["s"][0] == "i")
                if r[1] == "Neg":
                    return self.neg_bv(st, v, ty["s"])
        if r[0] == "un" and r[1] == "PtrMetadata":
            v = self.operand(fr, st, r[2])
            v = self.deref_read(st, v)
            if v[0] == "slice":
                return T("slen", 0)
        return super().rvalue(fr, st, r, dest)

    def binop(self, fr, st, op, a, b, ty):
        a = self.norm_bv(st, self.deref_read(st, a))
        b = self.norm_bv(st, self.deref_read(st, b))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        wo = op.endswith("WithOverflow")
        if is_t(a, "slen") or is_t(b, "slen"):
            return self.slen_cmp(base, a, b)
        if a[0] == "bv" or b[0] == "bv":
            n = len(a[1]) if a[0] == "bv" else (INTBITS.get(ty["s"]) or len(b[1]))
            sg = ty["s"][:1] == "i"
            v = None
            if base in ("Shl", "Shr"):
                if b[0] == "int" and a[0] == "bv":
                    k = b[1] & (n - 1)
                    bits = a[1]
                    if base == "Shl":
                        v = bv((ZERO,) * k + bits[:n - k], sg)
                    else:
                        v = bv(bits[k:] + ((bits[-1] if sg else ZERO),) * k, sg)
                else:
                    v = ("bv", (UNK,) * n)
            elif base in ("BitAnd", "BitOr", "BitXor"):
                f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[base]
                v = bv([f(x, y) for x, y in zip(self.tobits(a, n), self.tobits(b, n))], sg)
            elif base in ("Eq", "Ne"):
                d = tuple(bxor(x, y) for x, y in zip(self.tobits(a, n), self.tobits(b, n)))
                r = T("allzero", d)
                return r if base == "Eq" else T("not", r)
            elif base in ("Lt", "Le", "Gt", "Ge"):
                return self.cmp(st, base, a, b, n, sg)
            elif base == "Mul" and b[0] == "int" and b[1] > 0 and b[1] & (b[1] - 1) == 0 and a[0] == "bv":
                k = b[1].bit_length() - 1
                v = bv((ZERO,) * k + a[1][:n - k], sg)
                if wo and not sg and k:
                    return ("tup", (v, T("not", T("allzero", a[1][n - k:]))))
            elif base == "Add":
                # disjoint bits: no carries
                x, y = self.tobits(a, n), self.tobits(b, n)
                if all(p == ZERO or q == ZERO for p, q in zip(x, y)):
                    v = bv([bor(p, q) for p, q in zip(x, y)], sg)
                    if wo and not sg:
                        return ("tup", (v, FALSE))
                else:
                    v = ("bv", (UNK,) * n)
            elif base == "Sub" and a == ("int", 0):
                v = self.neg_bv(st, b, ty["s"])
            elif base == "Div" and b[0] == "int" and b[1] > 0 and b[1] & (b[1] - 1) == 0 and not sg:
                k = b[1].bit_length() - 1
                v = bv(a[1][k:] + (ZERO,) * k, sg)
            elif base == "Rem" and b[0] == "int" and b[1] > 0 and b[1] & (b[1] - 1) == 0 and not sg:
                k = b[1].bit_length() - 1
                v = bv(a[1][:k] + (ZERO,) * (n - k), sg)
            else:
                v = ("bv", (UNK,) * n)
            return ("tup", (v, T("ovf", base))) if wo else v
        return super().binop(fr, st, op, a, b, ty)

    def cmp(self, st, base, a, b, n, sg):
        """unsigned comparison against a power of two (or signed against zero)"""
        if sg:
            if a[0] == "bv" and b == ("int", 0) and base in ("Lt", "Ge"):
                r = T("not", T("allzero", (a[1][-1],)))
                return r if base == "Lt" else r[2]
            if b[0] == "bv" and a == ("int", 0) and base in ("Gt", "Le"):
                r = T("not", T("allzero", (b[1][-1],)))
                return r if base == "Gt" else r[2]
            return T("unknown")
        neg = False
        if a[0] == "bv" and b[0] == "int":
            x, c = a, b[1]
            if base == "Lt":
                k, neg = c, False
            elif base == "Ge":
                k, neg = c, True
            elif base == "Le":
                k, neg = c + 1, False
            else:
                k, neg = c + 1, True
        elif b[0] == "bv" and a[0] == "int":
            x, c = b, a[1]
            if base == "Gt":        # c > x
                k, neg = c, False
            elif base == "Le":      # c <= x
                k, neg = c, True
            elif base == "Ge":      # c >= x
                k, neg = c + 1, False
            else:                   # c < x
                k, neg = c + 1, True
        else:
            return T("unknown")
        if k > 0 and k & (k - 1) == 0:
            s = k.bit_length() - 1
            r = T("allzero", tuple(x[1][s:])) if s < n else TRUE
            return self.neg(r) if neg else r
        return T("unknown")

    def slen_cmp(self, base, a, b):
        if is_t(b, "slen") and a[0] == "int":
            i = a[1] + b[2]
            if i < 0 and base in ("Lt", "Le"):
                return TRUE
            if base == "Lt":
                return T("avail", i)
            if base == "Ge":
                return T("not", T("avail", i))
            if base == "Le":
                return T("avail", i - 1) if i > 0 else TRUE
            if base == "Gt":
                return T("not", T("avail", i - 1)) if i > 0 else FALSE
        if is_t(a, "slen") and b[0] == "int":
            i = b[1] + a[2]
            if base == "Gt":
                return T("avail", i)
            if base == "Le":
                return T("not", T("avail", i))
            if base == "Ge":
                return T("avail", i - 1) if i > 0 else TRUE
            if base == "Lt":
                return T("not", T("avail", i - 1)) if i > 0 else FALSE
            if base == "Eq" and b[1] == 0:
                return T("not", T("avail", i))
            if base == "Ne" and b[1] == 0:
                return T("avail", i)
        raise Unsupported("slice length used in arithmetic")

    def switch(self, fr, st, t, work):
        v = self.norm_bv(st, self.deref_read(st, self.operand(fr, st, t[1])))
        if v[0] == "bv":
            ty = fr.fn.crate.ty(t[5])
            so = st.fork()
            okk = True
            for tv, bb in t[2]:
                d = T("allzero", tuple(bxor(x, y) for x, y in zip(v[1], cbits(tv, len(v[1])))))
                s = st.fork()
                if self.assume(s, d, True):
                    work.append((bb, s, False))
                if okk:
                    okk = self.assume(so, d, False)
            if okk:
                work.append((t[3], so, False))
            return
        if is_t(v, "allzero") or is_t(v, "not") or is_t(v, "avail"):
            for val in (False, True):
                s = st.fork()
                if self.assume(s, v, val):
                    tgt = t[3]
                    for tv, bb in t[2]:
                        if bool(tv) == val:
                            tgt = bb
                    work.append((tgt, s, False))
            return
        if v[0] not in ("int", "adt") and not is_t(v, "discr"):
            raise Unsupported("branch on %s" % A.show(v))
        return super().switch(fr, st, t, work)

    # -------------------------------------------------- iterators
    def m_iter(self, I, fr, st, args, m, site, stack, tys):
        a = args[0]
        v = self.deref_read(st, a)
        if v[0] == "xiter":
            return a if a[0] == "ref" else v
        if v[0] == "adt" and v[1].endswith("range::Range"):
            return ("xiter", v, ("int", 0), ())
        if v[0] == "adt" and v[1].endswith("RangeInclusive"):
            return T("unknown")
        if v[0] in ("arr", "slice", "repeatv"):
            mut = m["name"].endswith("iter_mut") or (tys and tys[0] is not None and tys[0]["k"] == "ref" and tys[0]["mut"])
            return ("xiter", a if (a[0] == "ref" and mut) else v, ("int", 0), ())
        return NotImplemented

    def stage(self, name):
        def h(I, fr, st, args, m, site, stack, tys):
            it = self.deref_read(st, args[0])
            if it[0] != "xiter":
                return NotImplemented
            extra = tuple(self.deref_read(st, x) if not (x[0] == "ref") else x for x in args[1:2])
            if name == "zip":
                extra = (self.m_iter(I, fr, st, [args[1]], m, site, stack, None),)
            return ("xiter", it[1], it[2], it[3] + ((name, it[2][1]) + extra,))
        return h

    def m_next(self, I, fr, st, args, m, site, stack, tys):
        it = self.deref_read(st, args[0])
        if it[0] != "xiter":
            raise Unsupported("next() on %s" % A.show(it))
        src, pos, stages = it[1], it[2][1], it[3]
        skip = sum(s[2][1] for s in stages if s[0] == "skip" and s[2][0] == "int")
        base = self.deref_read(st, src)
        for s in stages:
            if s[0] == "take":
                if s[2][0] != "int":
                    raise Unsupported("take(%s)" % A.show(s[2]))
                if pos - s[1] >= s[2][1]:
                    return NONE
        outs = []
        i = pos + skip
        rev = any(s[0] == "rev" for s in stages)
        if base[0] == "arr" and rev:
            i = len(base[1]) - 1 - pos
        if base[0] == "adt":
            lo, hi = base[4]
            lo, hi = self.deref_read(st, lo), self.deref_read(st, hi)
            if lo[0] != "int" or hi[0] != "int":
                raise Unsupported("symbolic range")
            if lo[1] + i >= hi[1]:
                return NONE
            el = [(("int", lo[1] + i if not rev else hi[1] - 1 - pos), st)]
        elif base[0] == "arr":
            if i >= len(base[1]) or i < 0:
                return NONE
            if src[0] == "ref":
                el = [(("ref", src[1], src[2] + (("i", ("int", i)),)), st)]
            else:
                el = [(base[1][i], st)]
        elif base[0] == "slice":
            if rev:
                raise Unsupported("reverse over a slice of unknown length")
            s2 = st.fork()
            el = []
            if self.assume(st, T("avail", i), True):
                el = [(self.byte(base, i), st)]
            if self.assume(s2, T("avail", i), False):
                outs.append(Outcome("ret", NONE, s2))
        else:
            raise Unsupported("iteration over %s" % A.show(base))
        for v, s in el:
            if args[0][0] == "ref":
                self.store(s, ("cell", args[0][1], args[0][2]), ("xiter", src, ("int", pos + 1), stages))
            cur = [(v, s)]
            for sg in stages:
                if sg[0] == "enum":
                    cur = [(("tup", (("int", pos - sg[1]), x)), y) for x, y in cur]
                elif sg[0] == "map":
                    nx = []
                    for x, y in cur:
                        for o in self.call_value(fr, y, sg[2], [x], site, stack):
                            nx.append((o.value, o.st)) if o.kind == "ret" else outs.append(o)
                    cur = nx
                elif sg[0] == "zip":
                    z = sg[2]
                    nx = []
                    for x, y in cur:
                        zb = self.deref_read(y, z[1])
                        if zb[0] == "arr":
                            if pos - sg[1] >= len(zb[1]):
                                outs.append(Outcome("ret", NONE, y))
                                continue
                            w = ("ref", z[1][1], z[1][2] + (("i", ("int", pos - sg[1])),)) if z[1][0] == "ref" else zb[1][pos - sg[1]]
                            nx.append((("tup", (x, w)), y))
                        elif zb[0] == "adt":
                            nx.append((("tup", (x, ("int", zb[4][0][1] + pos - sg[1]))), y))
                        else:
                            raise Unsupported("zip")
                    cur = nx
            for x, y in cur:
                outs.append(Outcome("ret", some(x), y))
        return outs

    def m_get_u8(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] != "slice":
            raise Unsupported("get_u8 on %s" % A.show(v))
        p = st.facts.get("pos", 0)
        bad = st.fork()
        outs = []
        if self.assume(bad, T("avail", p), False):
            outs.append(Outcome("panic", None, bad, ("read past the end",) + tuple(site)))
        if self.assume(st, T("avail", p), True):
            st.facts["pos"] = p + 1
            outs.append(Outcome("ret", self.byte(v, p), st))
        return outs

    def m_advance(self, I, fr, st, args, m, site, stack, tys):
        v, k = self.deref_read(st, args[0]), self.norm_bv(st, self.deref_read(st, args[1]))
        if v[0] != "slice" or k[0] != "int":
            raise Unsupported("advance by %s" % A.show(k))
        p = st.facts.get("pos", 0)
        bad = st.fork()
        outs = []
        if k[1] and self.assume(bad, T("avail", p + k[1] - 1), False):
            outs.append(Outcome("panic", None, bad, ("advance past the end",) + tuple(site)))
        if not k[1] or self.assume(st, T("avail", p + k[1] - 1), True):
            st.facts["pos"] = p + k[1]
            outs.append(Outcome("ret", UNIT, st))
        return outs

    def m_chunk(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] != "slice" or st.facts.get("pos", 0) != 0:
            raise Unsupported("chunk")
        return v

    def byte(self, sl, i):
        return ("bv", tuple((0, frozenset([(sl[1], i, b)])) for b in range(8)))

    def proj1(self, st, v, p):
        if p[0] == "i" and isinstance(v, tuple) and v[0] == "slice" and p[1][0] == "int":
            return self.byte(v, p[1][1])
        return super().proj1(st, v, p)

    def m_get(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        i = self.deref_read(st, args[1])
        if v[0] == "arr" and i[0] == "int":
            return some(v[1][i[1]]) if i[1] < len(v[1]) else NONE
        if v[0] == "slice" and i[0] == "int":
            outs = []
            s2 = st.fork()
            if self.assume(st, T("avail", i[1]), True):
                outs.append(Outcome("ret", some(self.byte(v, i[1])), st))
            if self.assume(s2, T("avail", i[1]), False):
                outs.append(Outcome("ret", NONE, s2))
            return outs
        raise Unsupported("get")

    def m_len(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] == "arr":
            return ("int", len(v[1]))
        if v[0] == "slice":
            return T("slen", 0)
        raise Unsupported("len of %s" % A.show(v))

    def m_empty(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] == "slice":
            return T("not", T("avail", 0))
        if v[0] == "arr":
            return TRUE if not v[1] else FALSE
        raise Unsupported("is_empty")

    def m_lz(self, I, fr, st, args, m, site, stack, tys):
        v = self.norm_bv(st, self.deref_read(st, args[0]))
        if v[0] == "int":
            n = INTBITS.get(m["name"].split("<impl ")[1].split(">")[0], 64)
            return ("int", n - (v[1] & ((1 << n) - 1)).bit_length())
        if v[0] != "bv":
            raise Unsupported("leading_zeros of %s" % A.show(v))
        outs = []
        n = len(v[1])
        for k in range(n + 1):
            s = st.fork()
            okk = True
            for j in range(k):
                if not self.assume_bit(s, v[1][n - 1 - j], 0):
                    okk = False
                    break
            if okk and k < n:
                okk = self.assume_bit(s, v[1][n - 1 - k], 1)
            if okk:
                outs.append(Outcome("ret", ("int", k), s))
        return outs

    def m_divceil(self, I, fr, st, args, m, site, stack, tys):
        a, b = self.deref_read(st, args[0]), self.deref_read(st, args[1])
        if a[0] == "int" and b[0] == "int" and b[1] > 0:
            return ("int", -(-a[1] // b[1]))
        raise Unsupported("div_ceil")

    def m_max(self, I, fr, st, args, m, site, stack, tys):
        a, b = self.deref_read(st, args[0]), self.deref_read(st, args[1])
        if a[0] == "int" and b[0] == "int":
            return ("int", max(a[1], b[1]))
        raise Unsupported("max")

    def m_min(self, I, fr, st, args, m, site, stack, tys):
        a, b = self.deref_read(st, args[0]), self.deref_read(st, args[1])
        if a[0] == "int" and b[0] == "int":
            return ("int", min(a[1], b[1]))
        raise Unsupported("min")

    def m_from(self, I, fr, st, args, m, site, stack, tys):
        a = m.get("args") or []
        ts = [self.resolve_ty(fr, fr.fn.crate.ty(x)) if isinstance(x, int) else None for x in a]
        v = self.deref_read(st, args[0])
        if v[0] in ("bv", "int") and len(ts) >= 2:
            dst, src = (ts[0], ts[1]) if m["name"].endswith("From::from") or m["name"].endswith("::from") else (ts[1], ts[0])
            if dst in INTBITS and src in INTBITS:
                return self.recast(v, src, dst)
            if dst in INTBITS and v[0] == "bv":
                return self.recast(v, "u8", dst)
        return v
