"""Operations of the standard library on numbers, texts and lists that are known: their results."""
import absint as A
import models as M


def known(v):
    return v[0] == "arr" and all(isinstance(x, tuple) and x[0] not in ("rep", "spread", "acc") for x in v[1]) or M.literal_vec(v)


def add(I):
    mm = I.models

    def ints(g):
        def make(base):
            def h(J, fr, st, args, m, site, stack, tys):
                xs = [I.deref_read(st, I.deref_read(st, x)) if x[0] == "ref" else x for x in args[:2]]
                if all(x[0] == "int" for x in xs) and len(xs) == 2:
                    return g(xs[0][1], xs[1][1])
                return base(J, fr, st, args, m, site, stack, tys) if base else NotImplemented
            return h
        return make
    num = lambda r: ("int", r)
    mm["core::cmp::Ord::min"] = ints(lambda a, b: num(min(a, b)))(mm.get("core::cmp::Ord::min"))
    mm["core::cmp::Ord::max"] = ints(lambda a, b: num(max(a, b)))(mm.get("core::cmp::Ord::max"))
    for b in (8, 16, 32, 64, "size"):
        top = 2 ** (64 if b == "size" else b) - 1
        n = "core::num::<impl u%s>::" % b
        inside = lambda r, top=top: num(min(max(r, 0), top))
        some = lambda r, top=top: A.some(num(r)) if 0 <= r <= top else A.NONE
        for k, g in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b), ("mul", lambda a, b: a * b)):
            for w, h in (("saturating", inside), ("checked", some), ("wrapping", lambda r, top=top: num(r % (top + 1)))):
                q = "%s%s_%s" % (n, w, k)
                mm[q] = ints(lambda a, b, g=g, h=h: h(g(a, b)))(mm.get(q))
        q = n + "abs_diff"
        mm[q] = ints(lambda a, b: num(abs(a - b)))(mm.get(q))

    def bounds(r, n):
        k = r[1].rsplit("::", 1)[-1] if r[0] == "adt" else None
        if k not in ("Range", "RangeTo", "RangeFrom", "RangeFull") or any(x[0] != "int" for x in r[4]):
            return None
        xs = [x[1] for x in r[4]]
        lo, hi = {"Range": lambda: xs, "RangeTo": lambda: (0, xs[0]), "RangeFrom": lambda: (xs[0], n), "RangeFull": lambda: (0, n)}[k]()
        return (lo, hi) if 0 <= lo <= hi <= n else None

    def index(base):
        def h(J, fr, st, args, m, site, stack, tys):
            v, r = I.deref_read(st, args[0]), I.deref_read(st, args[1])
            if known(v):
                if r[0] == "int" and r[1] < len(v[1]):
                    return v[1][r[1]]
                b = bounds(r, len(v[1]))
                if b:
                    return (v[0], v[1][b[0]:b[1]])
            return base(J, fr, st, args, m, site, stack, tys) if base else NotImplemented
        return h
    mm["core::ops::index::Index::index"] = index(mm.get("core::ops::index::Index::index"))

    def joined(J, fr, st, args, m, site, stack, tys):
        v = I.deref_read(st, args[0])
        sep = I.deref_read(st, args[1]) if len(args) > 1 else ("str", "")
        if not known(v) or sep[0] not in ("str", "sbuf"):
            return NotImplemented
        out = []
        for i, x in enumerate(v[1]):
            x = I.deref_read(st, x)
            if x[0] not in ("str", "sbuf"):
                return NotImplemented
            out += (M.text_pieces(sep) if i else []) + M.text_pieces(x)
        return ("sbuf", tuple(out))
    for n in ("join", "concat"):
        mm["alloc::slice::<impl [T]>::" + n] = joined

    def to_vec(J, fr, st, args, m, site, stack, tys):
        v = I.deref_read(st, args[0])
        return ("vec", v[1]) if v[0] in ("vec", "arr") else NotImplemented
    for n in ("alloc::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::into_vec", "core::slice::<impl [T]>::to_vec"):
        mm[n] = to_vec

    def while_(keep):
        def h(J, fr, st, args, m, site, stack, tys):
            it = M.mk_iter(I, st, args[0])
            if it[1][0] not in ("vec", "arr") or it[2] or any(x[0] in ("rep", "spread", "acc") for x in it[1][1]):
                return NotImplemented
            cur, outs = [((), st)], []
            for i, x in enumerate(it[1][1]):
                nxt = []
                for acc, s in cur:
                    for o in I.call_value(fr, s, args[1], [x], site, stack):
                        if o.kind != "ret":
                            outs.append(o)
                        elif o.value in (A.TRUE, ("int", 1)):
                            nxt.append((acc + (x,), o.st))
                        elif o.value in (A.FALSE, ("int", 0)):
                            outs.append(M.ret(("iter", ("arr", acc if keep else it[1][1][i:]), ()), o.st))
                        else:
                            from rules.lsp import Undecided
                            raise Undecided("condition %s" % A.show(o.value)[:60])
                cur = nxt
            return outs + [M.ret(("iter", ("arr", acc if keep else ()), ()), s) for acc, s in cur]
        return h
    mm["core::iter::traits::iterator::Iterator::take_while"] = while_(True)
    mm["core::iter::traits::iterator::Iterator::skip_while"] = while_(False)

    def on_text(n, g):
        base = mm.get("core::str::<impl str>::" + n)

        def h(J, fr, st, args, m, site, stack, tys):
            v = I.deref_read(st, args[0])
            if v[0] == "str":
                return g(v[1])
            return base(J, fr, st, args, m, site, stack, tys) if base else NotImplemented
        mm["core::str::<impl str>::" + n] = h
    for n, g in (("trim", str.strip), ("trim_end", str.rstrip), ("trim_start", str.lstrip)):
        on_text(n, lambda s, g=g: ("str", g(s)))
    on_text("is_empty", lambda s: A.TRUE if not s else A.FALSE)
    on_text("len", lambda s: num(len(s.encode())))

    def with_text(n, g):
        """operations with a known pattern"""
        q = "core::str::<impl str>::" + n
        base = mm.get(q)

        def h(J, fr, st, args, m, site, stack, tys):
            v, w = I.deref_read(st, args[0]), I.deref_read(st, args[1])
            w = w[1] if w[0] == "str" else chr(w[1]) if w[0] == "int" and 0 < w[1] < 0x110000 else None
            if v[0] == "str" and w:
                return g(v[1], w)
            return base(J, fr, st, args, m, site, stack, tys) if base else NotImplemented
        mm[q] = h
    items = lambda xs: ("iter", ("arr", tuple(("str", x) for x in xs)), ())
    both = lambda x: A.some(("tup", (("str", x[0]), ("str", x[2])))) if x[1] else A.NONE
    yes = lambda b: A.TRUE if b else A.FALSE
    for n, g in (("split", lambda s, w: items(s.split(w))), ("rsplit", lambda s, w: items(s.split(w)[::-1])), ("split_once", lambda s, w: both(s.partition(w))),
                 ("rsplit_once", lambda s, w: both(s.rpartition(w))), ("contains", lambda s, w: yes(w in s)), ("starts_with", lambda s, w: yes(s.startswith(w))),
                 ("ends_with", lambda s, w: yes(s.endswith(w))), ("strip_prefix", lambda s, w: A.some(("str", s[len(w):])) if s.startswith(w) else A.NONE),
                 ("strip_suffix", lambda s, w: A.some(("str", s[:len(s) - len(w)])) if s.endswith(w) else A.NONE)):
        with_text(n, g)

    def listed(it, n):
        """the values of an iterator: those of a known list, or n numbers of an open range"""
        xs = M.exactly(I, it)
        if xs is not None:
            return xs, it
        r = it[1]
        if n is not None and not it[2] and r[0] == "adt" and r[1].endswith("::RangeFrom") and r[4][0][0] == "int":
            xs = tuple(num(r[4][0][1] + i) for i in range(n))
            return xs, ("iter", ("arr", xs), ())
        return None, it

    def zipped(base):
        def h(J, fr, st, args, m, site, stack, tys):
            its = [M.mk_iter(I, st, a) for a in args[:2]]
            known_ = [M.exactly(I, it) for it in its]
            n = next((len(x) for x in known_ if x is not None), None)
            (xs, a), (ys, b) = (listed(it, n) for it in its)
            if xs is None or ys is None:
                return base(J, fr, st, args, m, site, stack, tys) if base else NotImplemented
            outs = []
            each = lambda acc, v, s: [(acc + (v,), s)]
            for p, s in M.step_through(I, fr, st, a, xs, site, stack, (), each)[0]:
                for q, s1 in M.step_through(I, fr, s, b, ys, site, stack, (), each)[0]:
                    outs.append(M.ret(("iter", ("arr", tuple(("tup", z) for z in zip(p, q))), ()), s1))
            return outs
        return h
    for q in ("core::iter::traits::iterator::Iterator::zip", "core::iter::adapters::zip::zip"):
        mm[q] = zipped(mm.get(q))
