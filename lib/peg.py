"""Symbolic parsing: runs parser combinators over texts whose pieces are character classes, not characters.

A text is a list of pieces: one character out of a class, any number of characters out of a class, a number, or a
nested element that is only known by the class of its first character (its own parser is checked on its own, so it
may be assumed where it is called at exactly that place). Reading a piece refines its class; where the outcome
depends on the characters, the trace partitions. The positions that spans refer to are pieces, so spans are exact.
"""
import re
import absint as A
import models as M
from absint import T, is_t, Outcome, UNIT, TRUE, FALSE, some, NONE, ok, err, Unsupported

MAXCH = 0x10FFFF
ERRMODE = "winnow::error::ErrMode"


# ------------------------------------------------------------------ character classes
def cs(*parts):
    out = []
    for p in parts:
        if isinstance(p, int):
            out.append((p, p))
        elif isinstance(p, str):
            out.extend((ord(c), ord(c)) for c in p)
        else:
            out.append((ord(p[0]), ord(p[1])) if isinstance(p[0], str) else p)
    return norm(out)


def norm(rs):
    out = []
    for lo, hi in sorted(rs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def inter(a, b):
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            if max(l1, l2) <= min(h1, h2):
                out.append((max(l1, l2), min(h1, h2)))
    return norm(out)


def compl(a):
    out, at = [], 0
    for lo, hi in a:
        if lo > at:
            out.append((at, lo - 1))
        at = hi + 1
    if at <= MAXCH:
        out.append((at, MAXCH))
    return tuple(out)


def diff(a, b):
    return inter(a, compl(b))


def union(*a):
    return norm([r for x in a for r in x])


def single(a):
    return len(a) == 1 and a[0][0] == a[0][1]


ANY = ((0, MAXCH),)
SPACE = cs(" \t")
MSPACE = cs(" \t\r\n")
DIGIT = cs(("0", "9"))
LOWER = cs(("a", "z"))
UPPER = cs(("A", "Z"))
ALNUM = union(DIGIT, LOWER, UPPER)
HEX = cs(("0", "9"), ("a", "f"), ("A", "F"))


def show_cs(c):
    if c == ANY:
        return "any"
    d = lambda x: chr(x) if 32 < x < 127 else "\\x%02x" % x
    return "[" + "".join(d(a) if a == b else "%s-%s" % (d(a), d(b)) for a, b in c) + "]"


def fits(info, bits):
    """(whether the number may be, may not be within the given bits); ("ge", n): a number of 2^n or more"""
    if isinstance(info, tuple):
        return bits > info[1], True
    return True, info > bits


class Item:
    """one: a character of cls; many: any number of them; num: a number `val` of `bits` bits; nest: element `val` of kind `nest`"""
    __slots__ = ("id", "kind", "cls", "val", "info")

    def __init__(self, id, kind, cls, val=None, info=None):
        self.id, self.kind, self.cls, self.val, self.info = id, kind, cls, val, info

    def show(self):
        if self.kind == "one":
            return chr(self.cls[0][0]) if single(self.cls) else show_cs(self.cls)
        if self.kind == "many":
            return show_cs(self.cls) + "*"
        return "<%s>" % (self.info if self.kind == "nest" else self.val,)


class Text:
    __slots__ = ("items", "ix", "alias")

    def __init__(self, items, alias=None):
        self.items = tuple(items)
        self.ix = {it.id: i for i, it in enumerate(self.items)}
        self.ix["$"] = len(self.items)
        self.alias = alias or {}

    def pos(self, p):
        while p in self.alias:
            p = self.alias[p][0]
        return self.ix[p]

    def at(self, i):
        return self.items[i].id if i < len(self.items) else "$"

    def replace(self, id, new):
        i = self.ix[id]
        items = self.items[:i] + tuple(new) + self.items[i + 1:]
        alias = dict(self.alias)
        nxt = new[0].id if new else (self.items[i + 1].id if i + 1 < len(self.items) else "$")
        if nxt != id or len(new) != 1:
            alias[id] = (nxt, tuple(x.id for x in new))
        return Text(items, alias)

    def expand(self, ids):
        """the pieces that the pieces `ids` have been refined to"""
        out = []
        for i in ids:
            if i in self.alias:
                out.extend(self.expand(self.alias[i][1]))
            else:
                out.append(i)
        return tuple(out)

    def show(self, upto=None):
        return "".join(it.show() for it in self.items[:upto])


class Unsure(Unsupported):
    pass


class Ty(dict):
    """a type, usable inside terms"""

    def __hash__(self):
        return hash(self["s"])

    def __eq__(self, o):
        return self is o or (isinstance(o, dict) and self["s"] == o["s"])

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return self["s"]


# ------------------------------------------------------------------ generic environments
class GenInterp(A.Interp):
    """Interpreter that follows type parameters: associated constants and trait functions of them resolve."""

    def __init__(self, db, **kw):
        super().__init__(db, **kw)
        self.tyenv = {}
        self.cloenv = {}
        self.pending = None
        self.steps = 0
        self.max_steps = 600000
        self.stepping = True
        self.models["core::convert::Into::into"] = self.m_into
        self.models["alloc::vec::Vec::pop"] = self.m_pop
        self.models["core::convert::From::from"] = self.m_into
        self._assoc = None

    def loops(self, fr):
        return {}

    def term(self, fr, st, t, work, outs):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsure("no end in sight in %s" % fr.fn.id)
        return super().term(fr, st, t, work, outs)

    # types
    def rty_of(self, fr, a):
        """the type with index `a` in the frame, with the type parameters replaced"""
        if not isinstance(a, int):
            return None
        t = self.subst_ty(fr, fr.fn.crate.ty(a))
        return t if t is None or isinstance(t, Ty) else Ty(t)

    def subst_ty(self, fr, t):
        if t["k"] == "param":
            env = self.tyenv.get(fr.fid)
            names = [g for g in fr.fn.generics if not g.startswith("'")]
            if env and t["s"] in names:
                i = names.index(t["s"])
                if i < len(env):
                    return env[i]
            return None
        return t

    def const(self, fr, c):
        if "fn" in c:
            m = c["fn"]
            args = tuple(self.rty_of(fr, a) for a in (m.get("resargs") or m.get("args") or ()))
            m2 = dict(m, targs=args, tself=self.rty_of(fr, m["args"][0]) if m.get("args") else None,
                      oargs=tuple(self.rty_of(fr, a) for a in (m.get("args") or ())))
            k = (m["id"], m.get("res") or "", ",".join((x or {"s": "?"})["s"] for x in m2["oargs"]))
            self.fnmeta.setdefault(k, m2)
            if "targs" not in self.fnmeta[k]:
                self.fnmeta[k] = m2
            return ("fn", k)
        if "uneval" in c and "promoted" not in c and c.get("uargs"):
            t = self.rty_of(fr, c["uargs"][0])
            if t is not None:
                f = self.assoc(c["uneval"].rsplit("::", 1)[-1], t)
                if f is not None:
                    return self.const_body(f, f.body)
        v = super().const(fr, c)
        if isinstance(v, tuple) and v[0] == "clo":
            self.cloenv.setdefault(v, self.tyenv.get(fr.fid))
        return v

    def assoc(self, name, ty):
        if self._assoc is None:
            self._assoc = {}
            for f in self.db.fns.values():
                if f.kind == "AssocConst" and f.self_s and f.trait:
                    self._assoc[(f.item, f.self_s.split("<")[0])] = f
        return self._assoc.get((name, ty["s"].split("<")[0]))

    def rvalue(self, fr, st, r, dest):
        v = super().rvalue(fr, st, r, dest)
        if isinstance(v, tuple) and v and v[0] == "clo":
            self.cloenv[v] = self.tyenv.get(fr.fid)
        return v

    def invoke_fn(self, fr, st, m, f, args, tys, site, stack):
        self.pending = m.get("targs")
        return super().invoke_fn(fr, st, m, f, args, tys, site, stack)

    def invoke_closure(self, fr, st, clo, selfval, args, site, stack):
        self.pending = self.cloenv.get(clo)
        return super().invoke_closure(fr, st, clo, selfval, args, site, stack)

    def call_fn(self, fn, args, st, stack, body=None):
        if self.pending is not None:
            self.tyenv[self.next_fid + 1] = self.pending
            self.pending = None
        return super().call_fn(fn, args, st, stack, body)

    def by_receiver(self, st, m, args):
        r = super().by_receiver(st, m, args)
        if r is None and "trait" in m and m.get("tself"):
            t = m["tself"]
            for fn in self.trait_impl_index().get((m["trait"], m["method"]), ()):
                d = fn.d
                if t.get("adt") and fn.crate.ty(d["self"]).get("adt") == t["adt"]:
                    return fn
            d = self.db.fns.get(m["id"])
            if d is not None and t.get("adt", "").startswith("mabo"):
                return d
        if r is None and "trait" in m and args:
            v = self.deref_read(st, args[0])
            d = self.db.fns.get(m["id"])
            if v[0] == "adt" and v[1].startswith("mabo") and d is not None:
                return d
        return r

    def m_pop(self, I, fr, st, args, m, site, stack, tys):
        r = args[0]
        v = self.deref_read(st, r)
        if v[0] == "vec" and r[0] == "ref" and not any(x[0] in ("rep", "spread", "acc") for x in v[1]):
            if not v[1]:
                return NONE
            self.store(st, ("cell", r[1], r[2]), ("vec", v[1][:-1]))
            return some(v[1][-1])
        return M.MODELS["alloc::vec::Vec::pop"](I, fr, st, args, m, site, stack, tys) if "alloc::vec::Vec::pop" in M.MODELS else NotImplemented

    # conversions
    def m_into(self, I, fr, st, args, m, site, stack, tys):
        a = list(m.get("oargs") or ())
        if m["name"].endswith("From::from"):
            a.reverse()
        if len(a) < 2 or a[1] is None or not a[1].get("adt", "").startswith("mabo"):
            return self.other_into(st, args, a)
        return self.convert(fr, st, args[0], a[0], a[1], site, stack)

    def other_into(self, st, args, a):
        return self.deref_read(st, args[0])

    def convert(self, fr, st, v, src, dst, site, stack):
        cands = [f for f in self.trait_impl_index().get(("core::convert::From", "from"), ()) if f.crate.ty(f.d["self"]).get("adt") == dst["adt"]]
        if not cands:
            return v if not src or src.get("adt") == dst["adt"] else NotImplemented
        strip = lambda s: re.sub(r"'\w+ ?|<'\w+>|, '\w+", "", s)
        if len(cands) > 1 and src:
            c2 = [f for f in cands if strip(f.local_ty(1)["s"]) == strip(src["s"])]
            if not c2:
                c2 = [f for f in cands if f.local_ty(1).get("adt") == src.get("adt") and f.local_ty(1)["k"] == src["k"]]
            cands = c2 or cands
        return self.call_fn(cands[0], [v], st, stack)


class PrintInterp(GenInterp):
    """Runs the code that writes a syntax tree, down to the characters; numbers, names and nested elements stay unknown."""

    def __init__(self, db, **kw):
        super().__init__(db, **kw)
        self.step_vecs = True
        self.models["core::fmt::rt::Argument::new_display"] = self.m_argument
        self.models["core::fmt::Display::fmt"] = self.m_display
        for n in ("alloc::str::<impl str>::repeat", "core::str::<impl str>::repeat"):
            self.models[n] = self.m_repeat
        for n in ("core::f64", "std::f64", "core::num", "std::num", "core::num::f64", "std::num::f64"):
            self.models[n + "::<impl f64>::fract"] = self.m_fract

    def spell(self, v, ty):
        while ty and ty["k"] == "ref":
            ty = ty.get("e2") or ty.get("e") if isinstance(ty.get("e2") or ty.get("e"), dict) else {"k": "?", "s": ty["s"].lstrip("&")}
        n = ty["s"].replace("&", "") if ty else ""
        if v[0] == "int" and n == "char":
            return ("str", chr(v[1]))
        if v[0] == "int" and n == "bool":
            return ("str", "true" if v[1] else "false")
        return v

    def m_argument(self, I, fr, st, args, m, site, stack, tys):
        o = [x for x in (m.get("oargs") or ()) if x is not None]
        return ("fmtarg", "display", self.spell(self.deref_read(st, args[0]), o[-1] if o else None))

    def m_display(self, I, fr, st, args, m, site, stack, tys):
        v = self.spell(self.deref_read(st, args[0]), m.get("tself"))
        outs = []
        for p, s in M.expand_piece(I, fr, st, ("ph", "display", v), site, stack):
            M.emit(I, fr, s, args[1], p, site)
            outs += M.fmt_result(I, s)
        return outs

    def m_repeat(self, I, fr, st, args, m, site, stack, tys):
        a, b = (self.deref_read(st, x) for x in args[:2])
        if a[0] == "str" and b[0] == "int":
            return ("str", a[1] * b[1])
        return NotImplemented

    def m_fract(self, I, fr, st, args, m, site, stack, tys):
        return T("fract", self.deref_read(st, args[0]))

    def binop(self, fr, st, op, a, b, ty):
        if op in ("Eq", "Ne"):
            x, y = self.deref_read(st, a), self.deref_read(st, b)
            for p, q in ((x, y), (y, x)):
                if is_t(p, "fract") and is_t(p[2], "float"):
                    if not iszero(q):
                        raise Unsure("fraction compared with %s" % A.show(q)[:60])
                    r = p[2][4] == T("zero")
                    return TRUE if r == (op == "Eq") else FALSE
        return super().binop(fr, st, op, a, b, ty)


def iszero(q):
    return q[0] in ("int", "float", "flt") and q[1] in (0, 0.0) or is_t(q, "const") and str(q[2]) in ("0", "0.0", "0f64", "0.0f64")


# ------------------------------------------------------------------ parsing
OKK, BT, CUT, PANIC = "ok", "bt", "cut", "panic"
PERR = T("perr")


class PegInterp(GenInterp):
    def __init__(self, db, nests=(), **kw):
        """nests: {type name: kind}, elements whose parser consumes a nested piece as a whole"""
        super().__init__(db, **kw)
        self.nests = dict(nests)
        self.nest_fns = None          # the functions that parse nested elements (None: by their type)
        self.reserved = set()
        self.used = set()             # names of the combinators that were interpreted
        self.fired = set()
        self.fresh = 0
        self.follow = {}              # nest kind -> set of what came after it
        mm = self.models
        for n in list(COMB):
            mm[n] = self.ctor(n)
        for n in PRIM:
            mm[n] = self.prim(n)
        mm["winnow::parser::Parser::parse_next"] = self.m_parse_next
        mm["winnow::parser::Parser::parse"] = self.m_parse
        mm["winnow::combinator::debug::trace"] = lambda I, fr, st, args, m, site, stack, tys: args[1]
        mm["winnow::error::ErrMode::map"] = self.m_errmap
        mm["winnow::error::ErrMode::cut"] = lambda I, fr, st, args, m, site, stack, tys: self.errmode(st, args[0], 2)
        mm["winnow::error::ErrMode::backtrack"] = lambda I, fr, st, args, m, site, stack, tys: self.errmode(st, args[0], 1)
        mm["winnow::error::ParserError::assert"] = lambda I, fr, st, args, m, site, stack, tys: ("adt", ERRMODE, 2, "Cut", (T("passert"),))
        mm["winnow::error::ParseError::into_inner"] = lambda I, fr, st, args, m, site, stack, tys: PERR
        mm["winnow::stream::Stream::checkpoint"] = lambda I, fr, st, args, m, site, stack, tys: T("pos", st.facts["at"])
        mm["winnow::stream::Location::current_token_start"] = lambda I, fr, st, args, m, site, stack, tys: T("pos", st.facts["at"])
        mm["winnow::stream::Location::previous_token_end"] = lambda I, fr, st, args, m, site, stack, tys: T("pos", st.facts["at"])
        mm["winnow::stream::Stream::reset"] = self.m_reset
        mm["winnow::stream::Stream::eof_offset"] = lambda I, fr, st, args, m, site, stack, tys: T("left", st.facts["at"])
        mm["core::ops::try_trait::FromResidual::from_residual"] = self.m_residual
        mm["core::num::<impl u32>::from_str_radix"] = self.m_radix
        mm["core::char::from_u32"] = mm["core::char::methods::<impl char>::from_u32"] = mm["core::char::convert::from_u32"] = self.m_from_u32
        mm["core::result::Result::map_err"] = self.m_map_err
        mm["core::f64::<impl f64>::is_finite"] = mm["core::num::<impl f64>::is_finite"] = mm["core::f64::is_finite"] = self.m_finite
        mm["core::str::<impl str>::is_empty"] = self.m_is_empty
        mm["core::str::<impl str>::parse"] = self.m_str_parse
        for n, c in CHARS.items():
            mm["core::char::methods::<impl char>::" + n] = mm["core::char::" + n] = lambda I, fr, st, args, m, site, stack, tys, c=c: self.m_char(st, args, c)
        mm["winnow::stream::AsChar::is_alphanum"] = lambda I, fr, st, args, m, site, stack, tys: self.m_char(st, args, ALNUM)

    def m_char(self, st, args, c):
        v = self.deref_read(st, args[0])
        if is_t(v, "ch"):
            return T("chin", v[2], c)
        if v[0] == "int":
            return TRUE if inter(norm([(v[1], v[1])]), c) else FALSE
        return NotImplemented

    def is_input(self, v):
        return True

    def opaque_call(self, fr, st, name, args, tys, site, target=None, impure=False):
        return super().opaque_call(fr, st, name, args, tys, site, target, impure)

    # -- terms
    def ctor(self, name):
        short = name.rsplit("::", 1)[-1]

        def h(I, fr, st, args, m, site, stack, tys):
            return T("P", short, tuple(self.deref_read(st, a) for a in args), m.get("oargs") or ())
        return h

    def prim(self, name):
        """primitives are called on the input directly, or used as function values"""
        short = name.rsplit("::", 1)[-1]

        def h(I, fr, st, args, m, site, stack, tys):
            outs = []
            for s, k, v in self.run_prim(st, short, m):
                outs.append(self.to_outcome(s, k, v))
            return outs
        return h

    def to_outcome(self, s, k, v):
        if k == OKK:
            return Outcome("ret", ok(v), s)
        if k == PANIC:
            return Outcome("panic", None, s, v)
        return Outcome("ret", err(("adt", ERRMODE, 1 if k == BT else 2, "Backtrack" if k == BT else "Cut", (v,))), s)

    def from_outcome(self, o):
        if o.kind != "ret":
            return (o.st, PANIC, o.info)
        v = o.value
        if v[0] == "adt" and v[3] == "Ok":
            return (o.st, OKK, v[4][0])
        if v[0] == "adt" and v[3] == "Err":
            e = v[4][0]
            if e[0] == "adt" and e[1] == ERRMODE:
                return (o.st, BT if e[2] == 1 else CUT, e[4][0])
        raise Unsure("result of a parser: %s" % A.show(v)[:200])

    def errmode(self, st, e, i):
        e = self.deref_read(st, e)
        if e[0] != "adt":
            raise Unsure("error of a parser")
        return ("adt", ERRMODE, i, "Backtrack" if i == 1 else "Cut", e[4])

    def m_errmap(self, I, fr, st, args, m, site, stack, tys):
        e = self.deref_read(st, args[0])
        if e[0] != "adt":
            return NotImplemented
        return ("adt", ERRMODE, e[2], e[3], (PERR,))

    def m_map_err(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] != "adt":
            return NotImplemented
        if v[3] == "Ok":
            return v
        if v[4][0] == PERR or is_t(v[4][0], "perr"):
            return v
        outs = []
        for o in self.call_value(fr, st, args[1], [v[4][0]], site, stack):
            outs.append(Outcome("ret", err(o.value), o.st) if o.kind == "ret" else o)
        return outs

    def m_residual(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] == "adt" and v[3] == "Err" and (v[4][0][0] == "adt" and v[4][0][1] == ERRMODE or v[4][0] == PERR):
            return v
        return M.from_residual(I, fr, st, args, m, site, stack, tys)

    def m_reset(self, I, fr, st, args, m, site, stack, tys):
        p = self.deref_read(st, args[1])
        if not is_t(p, "pos"):
            raise Unsure("reset")
        st.facts["at"] = p[2]
        return UNIT

    def m_parse_next(self, I, fr, st, args, m, site, stack, tys):
        p = self.deref_read(st, args[0])
        outs = []
        for s, k, v in self.parse(fr, st, p, args[1], site, stack):
            outs.append(self.to_outcome(s, k, v))
        return outs

    def m_parse(self, I, fr, st, args, m, site, stack, tys):
        p = self.deref_read(st, args[0])
        outs = []
        for s, k, v in self.parse(fr, st, p, T("input"), site, stack):
            if k == PANIC:
                outs.append(Outcome("panic", None, s, v))
            elif k != OKK:
                outs.append(Outcome("ret", err(PERR), s))
            else:
                for s2, it in self.head(s):
                    if it is None:
                        outs.append(Outcome("ret", ok(v), s2))
                    else:
                        s2.facts["rest"] = True
                        outs.append(Outcome("ret", err(PERR), s2))
        return outs

    # -- text
    def begin(self, st, items):
        st.facts["txt"] = Text(items)
        st.facts["at"] = st.facts["txt"].at(0)

    def name(self, base):
        self.fresh += 1
        return "%s'%d" % (base, self.fresh)

    def head(self, st):
        """[(state, next piece or None at the end)]; pieces that may be empty are decided"""
        tx = st.facts["txt"]
        i = tx.pos(st.facts["at"])
        if i >= len(tx.items):
            st.facts["at"] = "$"
            return [(st, None)]
        it = tx.items[i]
        st.facts["at"] = it.id
        if it.kind != "many":
            return [(st, it)]
        s2 = st.fork()
        s2.facts["txt"] = tx.replace(it.id, [])
        s2.facts["at"] = s2.facts["txt"].at(i)
        h = Item(self.name(it.id), "one", it.cls)
        t = Item(self.name(it.id), "many", it.cls)
        st.facts["txt"] = tx.replace(it.id, [h, t])
        st.facts["at"] = h.id
        return [(st, h)] + self.head(s2)

    def advance(self, st):
        tx = st.facts["txt"]
        st.facts["at"] = tx.at(tx.pos(st.facts["at"]) + 1)

    def narrow(self, st, it, cls):
        tx = st.facts["txt"]
        if cls != it.cls:
            st.facts["txt"] = tx.replace(it.id, [Item(it.id, "one", cls)])

    def split_head(self, st, cls):
        """[(state, piece)] where the piece is in cls or disjoint from it (None at the end); yes/no flag"""
        out = []
        for s, it in self.head(st):
            if it is None:
                out.append((s, None, False))
                continue
            y = inter(it.cls, cls)
            if not y:
                out.append((s, it, False))
            elif y == it.cls:
                out.append((s, it, True))
            elif it.kind == "one":
                s2 = s.fork()
                self.narrow(s, it, y)
                self.narrow(s2, it, diff(it.cls, cls))
                out.append((s, it, True))
                out.append((s2, it, False))
            else:
                raise Unsure("a %s read as %s" % (it.show(), show_cs(cls)))
        return out

    def one(self, st, cls):
        """one character of the class"""
        out = []
        for s, it, yes in self.split_head(st, cls):
            if not yes:
                out.append((s, BT, PERR))
            elif it.kind == "one":
                self.advance(s)
                out.append((s, OKK, self.chval(s, it.id)))
            else:
                raise Unsure("a part of %s" % it.show())
        return out

    def chval(self, s, id):
        it = s.facts["txt"].items[s.facts["txt"].pos(id)]
        return ("int", it.cls[0][0]) if single(it.cls) else T("ch", id)

    def span_text(self, st, a, b):
        tx = st.facts["txt"]
        return T("text", tuple(x.id for x in tx.items[tx.pos(a):tx.pos(b)]))

    def many(self, st, cls, lo, hi):
        """take_while: at least lo, at most hi characters of the class"""
        out = []
        work = [(st, 0, st.facts["at"])]
        rounds = 0
        while work:
            s, n, start = work.pop()
            rounds += 1
            if rounds > 400:
                raise Unsure("too many ways to read a piece")
            tx = s.facts["txt"]
            i = tx.pos(s.facts["at"])
            it = tx.items[i] if i < len(tx.items) else None
            if hi is not None and n >= hi:
                out.append((s, OKK, self.span_text(s, start, s.facts["at"])))
                continue
            if it is not None and it.kind == "many" and hi is None:
                y = inter(it.cls, cls)
                if y == it.cls and n >= lo:
                    self.advance(s)
                    work.append((s, n, start))
                    continue
                if y and y != it.cls:
                    s2 = s.fork()
                    a = Item(self.name(it.id), "many", y)
                    s.facts["txt"] = tx.replace(it.id, [a])
                    b = [Item(self.name(it.id), "many", y), Item(self.name(it.id), "one", diff(it.cls, cls)), Item(self.name(it.id), "many", it.cls)]
                    s2.facts["txt"] = tx.replace(it.id, b)
                    for x in (s, s2):
                        x.facts["at"] = x.facts["txt"].at(i)
                        work.append((x, n, start))
                    continue
            if it is not None and it.kind == "num" and inter(it.cls, cls) == it.cls and hi is None:
                if inter(DIGIT, cls) != DIGIT:
                    raise Unsure("part of a number")
                self.advance(s)
                work.append((s, n + 1, start))
                if lo > n + 1:
                    raise Unsure("length of a number")
                continue
            if it is not None and it.kind == "hex" and inter(it.cls, cls) == it.cls and n == 0:
                if hi is not None and hi < it.info:     # a longer one
                    s2 = s.fork()
                    s2.facts["txt"] = tx.replace(it.id, [Item(self.name(it.id), "hex", it.cls, T("part", it.id), hi), Item(self.name(it.id), "one", it.cls), Item(self.name(it.id), "many", it.cls)])
                    s2.facts["at"] = s2.facts["txt"].at(i)
                    work.append((s2, 0, start))
                if lo > 1:      # a shorter one
                    s2 = s.fork()
                    s2.facts["txt"] = tx.replace(it.id, [Item(self.name(it.id), "one", it.cls)])
                    s2.facts["at"] = s2.facts["txt"].at(i)
                    work.append((s2, 0, start))
                self.advance(s)
                work.append((s, it.info if hi is None else hi, start))
                continue
            for s2, it2, yes in self.split_head(s, cls):
                if not yes:
                    if n >= lo:
                        out.append((s2, OKK, self.span_text(s2, start, s2.facts["at"])))
                    else:
                        out.append((s2, BT, PERR))
                elif it2.kind == "one":
                    self.advance(s2)
                    work.append((s2, n + 1, start))
                else:
                    raise Unsure("a part of %s" % it2.show())
        return out

    def lit(self, st, chars):
        rs = [(st, OKK, None)]
        start = st.facts["at"]
        for c in chars:
            nxt = []
            for s, k, v in rs:
                if k != OKK:
                    nxt.append((s, k, v))
                else:
                    nxt.extend(self.one(s, cs(c)))
            rs = nxt
        return [(s, k, self.span_text(s, start, s.facts["at"]) if k == OKK else v) for s, k, v in rs]

    # -- sets of characters as written in the source
    def cls_of(self, fr, st, v, site, stack):
        v = self.deref_read(st, v)
        if v[0] == "int":
            return cs(v[1])
        if v[0] in ("tup", "arr", "vec"):
            return union(*[self.cls_of(fr, st, x, site, stack) for x in v[1]])
        if v[0] == "str":
            return cs(v[1])
        if is_t(v, "call") and str(v[2]).endswith("RangeInclusive::new"):
            a, b = v[3]
            if a[0] == "int" and b[0] == "int":
                return norm([(a[1], b[1])])
        if v[0] == "adt" and "ops::range::Range" in v[1]:
            f = [self.deref_read(st, x) for x in v[4]]
            n = v[1].rsplit("::", 1)[-1]
            if all(x[0] == "int" for x in f[:2]):
                if n == "RangeInclusive":
                    return norm([(f[0][1], f[1][1])])
                if n == "Range":
                    return norm([(f[0][1], f[1][1] - 1)])
                if n == "RangeFrom":
                    return norm([(f[0][1], MAXCH)])
        if v[0] == "fn":
            n = A.strip_generics(self.fnmeta[v[1]]["name"]).rsplit("::", 1)[-1]
            c = dict(CHARS, is_alphanum=ALNUM, is_dec_digit=DIGIT, is_hex_digit=HEX, is_alpha=union(LOWER, UPPER), is_space=SPACE).get(n)
            if c is not None:
                return c
        if v[0] in ("clo", "fn"):
            return self.cls_fn(fr, st, v, site, stack)
        raise Unsure("set of characters %s" % A.show(v)[:120])

    def cls_fn(self, fr, st, f, site, stack):
        """the characters a predicate accepts: run it on an unknown character"""
        s = A.State()
        s.cells = dict(st.cells)
        it = Item("probe", "one", ANY)
        self.begin(s, [it])
        yes = ()
        for o in self.call_value(fr, s, f, [T("ch", "probe")], site, stack):
            if o.kind != "ret":
                raise Unsure("predicate")
            for s2, val in self.bools(o.st, o.value):
                if val:
                    yes = union(yes, s2.facts["txt"].items[0].cls)
        return yes

    def bools(self, st, v):
        v = self.deref_read(st, v)
        if v[0] == "int":
            return [(st, bool(v[1]))]
        out = []
        s2 = st.fork()
        if self.assume(st, v, True):
            out.append((st, True))
        if self.assume(s2, v, False):
            out.append((s2, False))
        return out

    # -- comparisons of characters and slices
    def eq(self, st, a, b):
        a = self.deref_read(st, a)
        b = self.deref_read(st, b)
        for x, y in ((a, b), (b, a)):
            if is_t(x, "ch"):
                if y[0] == "int":
                    return T("chin", x[2], norm([(y[1], y[1])]))
            if is_t(x, "text") and y[0] == "str":
                return self.text_eq(st, x, y[1])
            if is_t(x, "left") and is_t(y, "left"):
                tx = st.facts["txt"]
                i, j = sorted((tx.pos(x[2]), tx.pos(y[2])))
                if i == j:
                    return TRUE
                if any(k.kind != "many" for k in tx.items[i:j]):
                    return FALSE
                raise Unsure("whether something was read")
        return super().eq(st, a, b)

    def text_eq(self, st, x, s):
        tx = st.facts["txt"]
        its = [tx.items[tx.ix[i]] for i in tx.expand(x[2])]
        if all(it.kind == "one" for it in its):
            if len(its) != len(s) or any(not inter(it.cls, cs(c)) for it, c in zip(its, s)):
                return FALSE
            if all(single(it.cls) for it in its):
                return TRUE
        else:
            need = sum(1 for it in its if it.kind == "one")
            if need > len(s):
                return FALSE
            # a prefix or suffix that cannot match
            for seq, txt in ((its, s), (its[::-1], s[::-1])):
                for it, c in zip(seq, txt):
                    if it.kind != "one":
                        break
                    if not inter(it.cls, cs(c)):
                        return FALSE
        # names are assumed not to be one of the words of the language
        self.reserved.add(s)
        return FALSE

    def binop(self, fr, st, op, a, b, ty):
        a2, b2 = self.deref_read(st, a), self.deref_read(st, b)
        if op in ("Le", "Lt", "Ge", "Gt", "Eq", "Ne") and (is_t(a2, "ch") or is_t(b2, "ch")):
            flip = {"Le": "Ge", "Lt": "Gt", "Ge": "Le", "Gt": "Lt", "Eq": "Eq", "Ne": "Ne"}
            if is_t(b2, "ch"):
                a2, b2, op = b2, a2, flip[op]
            if b2[0] == "int":
                n = b2[1]
                r = {"Le": [(0, n)], "Lt": [(0, n - 1)], "Ge": [(n, MAXCH)], "Gt": [(n + 1, MAXCH)], "Eq": [(n, n)], "Ne": None}[op]
                return T("chin", a2[2], norm(r) if r is not None else compl(((n, n),)))
        if op in ("Eq", "Ne") and is_t(a2, "left"):
            e = self.eq(st, a2, b2)
            return e if op == "Eq" else self.neg(e)
        return super().binop(fr, st, op, a, b, ty)

    def assume(self, st, cond, val):
        if is_t(cond, "chin"):
            tx = st.facts["txt"]
            it = tx.items[tx.pos(cond[2])]
            c = inter(it.cls, cond[3]) if val else diff(it.cls, cond[3])
            if not c:
                return False
            if it.kind == "one":
                self.narrow(st, it, c)
            elif c != it.cls:
                raise Unsure("the first character of %s" % it.show())
            return True
        if is_t(cond, "not") and is_t(cond[2], "chin"):
            return self.assume(st, cond[2], not val)
        if is_t(cond) and cond not in st.facts and not (is_t(cond, "not") or is_t(cond, "isvar") or is_t(cond, "bin") and cond[2] in ("BitAnd", "BitOr")):
            raise Unsure("condition %s" % A.show(cond)[:120])
        return super().assume(st, cond, val)

    def refine_to(self, st, v, adt, idx):
        self.known(st, v)
        return super().refine_to(st, v, adt, idx)

    def refine_not(self, st, v, adt, idx):
        self.known(st, v)
        return super().refine_not(st, v, adt, idx)

    def known(self, st, v):
        if v not in st.refine and not is_t(v, "arg"):
            raise Unsure("case of %s" % A.show(v)[:120])

    def switch(self, fr, st, t, work):
        v = self.deref_read(st, self.operand(fr, st, t[1]))
        if is_t(v, "ch") or is_t(v, "chin"):
            if is_t(v, "chin"):
                return super().switch(fr, st, t, work)
            rest = st.fork()
            alive = True
            for tv, bb in t[2]:
                s = st.fork()
                c = T("chin", v[2], ((tv, tv),))
                if self.assume(s, c, True):
                    work.append((bb, s, False))
                if alive:
                    alive = self.assume(rest, c, False)
            if alive:
                work.append((t[3], rest, False))
            return
        if is_t(v) and not is_t(v, "isvar") and not is_t(v, "discr") and fr.fn.crate.name == "mabo_parser":
            raise Unsure("choice by %s" % A.show(v)[:120])
        return super().switch(fr, st, t, work)

    # -- elementary parsers
    def run_prim(self, st, n, m):
        self.used.add(n)
        if n == "space0":
            return self.many(st, SPACE, 0, None)
        if n == "space1":
            return self.many(st, SPACE, 1, None)
        if n == "multispace0":
            return self.many(st, MSPACE, 0, None)
        if n == "multispace1":
            return self.many(st, MSPACE, 1, None)
        if n == "newline":
            return self.one(st, cs("\n"))
        if n == "digit1":
            return self.many(st, DIGIT, 1, None)
        if n == "digit0":
            return self.many(st, DIGIT, 0, None)
        if n == "hex_digit1":
            return self.many(st, HEX, 1, None)
        if n == "alpha0":
            return self.many(st, union(LOWER, UPPER), 0, None)
        if n == "alpha1":
            return self.many(st, union(LOWER, UPPER), 1, None)
        if n == "alphanumeric0":
            return self.many(st, ALNUM, 0, None)
        if n == "alphanumeric1":
            return self.many(st, ALNUM, 1, None)
        if n == "any":
            out = []
            for s, it in self.head(st):
                if it is None:
                    out.append((s, BT, PERR))
                elif it.kind == "one":
                    self.advance(s)
                    out.append((s, OKK, self.chval(s, it.id)))
                else:
                    # only its first character: nothing behind it can be read any more
                    s.facts["at"] = "inside " + it.id
                    out.append((s, OKK, T("ch", it.id)))
            return out
        if n == "empty":
            return [(st, OKK, UNIT)]
        if n == "fail":
            return [(st, BT, PERR)]
        if n == "eof":
            return [(s, OKK if it is None else BT, T("text", ()) if it is None else PERR) for s, it in self.head(st)]
        if n == "rest":
            start = st.facts["at"]
            st.facts["at"] = "$"
            return [(st, OKK, self.span_text(st, start, "$"))]
        if n == "dec_uint":
            return self.dec_uint(st, m)
        if n == "line_ending":
            out = []
            for s, k, v in self.one(st, cs("\n")):
                if k == OKK:
                    out.append((s, k, v))
                else:
                    out.extend(self.lit(s, "\r\n"))
            return out
        raise Unsure("parser %s" % n)

    def dec_uint(self, st, m):
        o = [x for x in (m.get("oargs") or ()) if x is not None]
        bits = next((A.INTBITS[x["s"]] for x in o if x["s"] in A.INTBITS), None)
        out = []
        for s, it, yes in self.split_head(st, DIGIT):
            if not yes:
                out.append((s, BT, PERR))
            elif it.kind == "num":
                if bits is None:
                    raise Unsure("type of a number")
                self.advance(s)
                may, over = fits(it.info, bits)
                if over:
                    out.append((s.fork(), BT, PERR))
                if may:
                    out.append((s, OKK, it.val))
            elif it.kind == "one" and single(it.cls):
                # digits spelled out
                tx = s.facts["txt"]
                i = tx.pos(it.id)
                ds = []
                while i < len(tx.items) and tx.items[i].kind == "one" and single(tx.items[i].cls) and inter(tx.items[i].cls, DIGIT):
                    ds.append(chr(tx.items[i].cls[0][0]))
                    i += 1
                if i < len(tx.items) and inter(tx.items[i].cls, DIGIT):
                    raise Unsure("digits")
                if ds[0] == "0":
                    ds = ["0"]
                    i = tx.pos(it.id) + 1
                s.facts["at"] = tx.at(i)
                n = int("".join(ds))
                out.append((s, OKK, ("int", n)) if bits is None or n < 1 << bits else (s, BT, PERR))
            else:
                raise Unsure("digits")
        return out

    # -- combinators
    def parse(self, fr, st, p, inp, site, stack):
        p = self.deref_read(st, p)
        k = p[0]
        if k == "int":
            return self.one(st, cs(p[1]))
        if k == "str":
            return self.lit(st, p[1])
        if k == "tup":
            if not p[1]:
                return [(st, OKK, UNIT)]
            return self.seq(fr, st, p[1], inp, site, stack, lambda vs: ("tup", tuple(vs)))
        if is_t(p, "P"):
            self.used.add(p[2])
            f = getattr(self, "c_" + p[2], None)
            if f is None:
                raise Unsure("combinator %s" % p[2])
            return f(fr, st, p[3], p[4], inp, site, stack)
        if k == "fn":
            m = self.fnmeta[p[1]]
            name = A.strip_generics(m["name"])
            if name in PRIM:
                return self.run_prim(st, name.rsplit("::", 1)[-1], m)
            if name in COMB and "winnow" in name:
                raise Unsure("combinator %s as a value" % name)
            target = self.db.fn(m.get("res") or m["id"])
            if target is not None:
                kind = self.nest_kind(target)
                if kind is not None:
                    tx = st.facts["txt"]
                    i = tx.pos(st.facts["at"])
                    if i < len(tx.items) and tx.items[i].kind == "nest" and tx.items[i].info == kind:
                        it = tx.items[i]
                        st.facts["at"] = tx.at(i + 1)
                        seen = self.follow.setdefault(kind, set())
                        for nx in tx.items[i + 1:]:
                            seen.update(nx.cls)
                            if nx.kind != "many":
                                break
                        return [(st, OKK, it.val)]
            return [self.from_outcome(o) for o in self.call_value(fr, st, p, [inp], site, stack)]
        if k == "clo":
            self.fresh += 1
            key = ("parser", self.fresh)
            st.cells[key] = p
            return [self.from_outcome(o) for o in self.call_value(fr, st, ("ref", key, ()), [inp], site, stack)]
        if k == "adt":
            for fn in self.trait_impl_index().get(("winnow::parser::Parser", "parse_next"), ()):
                if fn.crate.ty(fn.d["self"]).get("adt") == p[1]:
                    self.fresh += 1
                    key = ("parser", self.fresh)
                    st.cells[key] = p
                    return [self.from_outcome(o) for o in self.call_fn(fn, [("ref", key, ()), inp], st, stack)]
        raise Unsure("parser %s %s" % (str(p[:2])[:300], A.show(p)[:150]))

    def nest_kind(self, target):
        r = target.__dict__.get("_nest") if hasattr(target, "__dict__") else None
        if r is None:
            r = ""
            if target.argc == 1 and target.crate.name == "mabo_parser":
                s = target.local_ty(0)["s"]
                g = re.match(r"^(?:core::result::)?Result<([\w:]+)", s)
                if g and g.group(1) in self.nests:
                    r = self.nests[g.group(1)]
            try:
                target._nest = r
            except AttributeError:
                pass
        if self.nest_fns is not None and target.id not in self.nest_fns:
            return None
        return r or None

    def bind(self, rs, f):
        out = []
        for s, k, v in rs:
            out.extend(f(s, v) if k == OKK else [(s, k, v)])
        return out

    def seq(self, fr, st, ps, inp, site, stack, done):
        rs = [(st, OKK, ())]
        for p in ps:
            rs = self.bind(rs, lambda s, vs, p=p: [(s2, k, vs + (v,) if k == OKK else v) for s2, k, v in self.parse(fr, s, p, inp, site, stack)])
        return [(s, k, done(v) if k == OKK else v) for s, k, v in rs]

    def c_preceded(self, fr, st, a, o, inp, site, stack):
        return self.seq(fr, st, a, inp, site, stack, lambda v: v[1])

    def c_terminated(self, fr, st, a, o, inp, site, stack):
        return self.seq(fr, st, a, inp, site, stack, lambda v: v[0])

    def c_delimited(self, fr, st, a, o, inp, site, stack):
        return self.seq(fr, st, a, inp, site, stack, lambda v: v[1])

    def c_separated_pair(self, fr, st, a, o, inp, site, stack):
        return self.seq(fr, st, a, inp, site, stack, lambda v: ("tup", (v[0], v[2])))

    def c_literal(self, fr, st, a, o, inp, site, stack):
        return self.parse(fr, st, a[0], inp, site, stack)

    def c_cut_err(self, fr, st, a, o, inp, site, stack):
        return [(s, CUT if k == BT else k, v) for s, k, v in self.parse(fr, st, a[0], inp, site, stack)]

    def c_backtrack_err(self, fr, st, a, o, inp, site, stack):
        return [(s, BT if k == CUT else k, v) for s, k, v in self.parse(fr, st, a[0], inp, site, stack)]

    def c_opt(self, fr, st, a, o, inp, site, stack):
        start = st.facts["at"]
        out = []
        for s, k, v in self.parse(fr, st, a[0], inp, site, stack):
            if k == OKK:
                out.append((s, OKK, some(v)))
            elif k == BT:
                s.facts["at"] = start
                out.append((s, OKK, NONE))
            else:
                out.append((s, k, v))
        return out

    def c_peek(self, fr, st, a, o, inp, site, stack):
        start = st.facts["at"]
        out = []
        for s, k, v in self.parse(fr, st, a[0], inp, site, stack):
            if k == OKK:
                s.facts["at"] = start
            out.append((s, k, v))
        return out

    def c_not(self, fr, st, a, o, inp, site, stack):
        start = st.facts["at"]
        out = []
        for s, k, v in self.parse(fr, st, a[0], inp, site, stack):
            s.facts["at"] = start
            out.append((s, BT, PERR) if k == OKK else (s, OKK, UNIT) if k == BT else (s, k, v))
        return out

    def c_alt(self, fr, st, a, o, inp, site, stack):
        alts = a[0][1] if a[0][0] in ("tup", "arr") else None
        if alts is None:
            raise Unsure("alternatives")
        start = st.facts["at"]
        rs = [(st, BT, PERR)]
        for p in alts:
            nxt = []
            for s, k, v in rs:
                if k == BT:
                    s.facts["at"] = start
                    nxt.extend(self.parse(fr, s, p, inp, site, stack))
                else:
                    nxt.append((s, k, v))
            rs = nxt
        return rs

    def bounds(self, st, v):
        v = self.deref_read(st, v)
        if v[0] == "int":
            return v[1], v[1]
        if is_t(v, "call") and str(v[2]).endswith("RangeInclusive::new"):
            a, b = v[3]
            if a[0] == "int" and b[0] == "int":
                return a[1], b[1]
        if v[0] == "adt":
            n = v[1].rsplit("::", 1)[-1]
            f = [self.deref_read(st, x) for x in v[4]]
            if n == "RangeFrom" and f[0][0] == "int":
                return f[0][1], None
            if n == "RangeFull":
                return 0, None
            if n == "Range" and f[0][0] == f[1][0] == "int":
                return f[0][1], f[1][1] - 1
            if n == "RangeInclusive" and f[0][0] == f[1][0] == "int":
                return f[0][1], f[1][1]
            if n == "RangeTo" and f[0][0] == "int":
                return 0, f[0][1] - 1
        raise Unsure("range %s" % A.show(v)[:80])

    def repeat_all(self, fr, st, lo, hi, p, inp, site, stack):
        """[(state, kind, list of values)]"""
        out = []
        work = [(st, ())]
        rounds = 0
        while work:
            s, vs = work.pop()
            rounds += 1
            if rounds > 500:
                raise Unsure("too many repetitions")
            if hi is not None and len(vs) >= hi:
                out.append((s, OKK, vs))
                continue
            start = s.facts["at"]
            for s2, k, v in self.parse(fr, s, p, inp, site, stack):
                if k == OKK:
                    if self.eq(s2, T("left", start), T("left", s2.facts["at"])) == TRUE:
                        out.append((s2, CUT, T("passert")))
                    else:
                        work.append((s2, vs + (v,)))
                elif k == BT:
                    if len(vs) >= lo:
                        s2.facts["at"] = start
                        out.append((s2, OKK, vs))
                    else:
                        out.append((s2, BT, PERR))
                else:
                    out.append((s2, k, v))
        return out

    def c_repeat(self, fr, st, a, o, inp, site, stack):
        lo, hi = self.bounds(st, a[0])
        coll = next((x for x in o if x and x.get("adt", "") in ("alloc::vec::Vec", "alloc::string::String")), None)
        unit = o and len(o) > 2 and o[2] and o[2]["s"] == "()"
        rs = self.repeat_all(fr, st, lo, hi, a[1], inp, site, stack)
        return [(s, k, (UNIT if unit and not coll else ("vec", tuple(v))) if k == OKK else v) for s, k, v in rs]

    def c_fold(self, fr, st, a, o, inp, site, stack):
        rep, init, f = a
        if not is_t(rep, "P", ) or rep[2] != "repeat":
            raise Unsure("fold")
        lo, hi = self.bounds(st, rep[3][0])
        out = []
        for s, k, vs in self.repeat_all(fr, st, lo, hi, rep[3][1], inp, site, stack):
            if k != OKK:
                out.append((s, k, vs))
                continue
            rs = [(o2.st, OKK, o2.value) if o2.kind == "ret" else (o2.st, PANIC, o2.info) for o2 in self.call_value(fr, s, init, [], site, stack)]
            for v in vs:
                rs = self.bind(rs, lambda s3, acc, v=v: [(o3.st, OKK, o3.value) if o3.kind == "ret" else (o3.st, PANIC, o3.info)
                                                         for o3 in self.call_value(fr, s3, f, [acc, v], site, stack)])
            out.extend(rs)
        return out

    def c_separated(self, fr, st, a, o, inp, site, stack):
        lo, hi = self.bounds(st, a[0])
        if hi is not None:
            raise Unsure("bounded list")
        start0 = st.facts["at"]
        out = []
        work = []
        for s, k, v in self.parse(fr, st, a[1], inp, site, stack):
            if k == OKK:
                work.append((s, (v,)))
            elif k == BT and lo == 0:
                s.facts["at"] = start0
                out.append((s, OKK, ("vec", ())))
            else:
                out.append((s, k, v))
        rounds = 0
        while work:
            s, vs = work.pop()
            rounds += 1
            if rounds > 500:
                raise Unsure("too many repetitions")
            start = s.facts["at"]

            def stop(s2):
                s2.facts["at"] = start
                out.append((s2, OKK, ("vec", vs)) if len(vs) >= lo else (s2, BT, PERR))
            for s2, k, v in self.parse(fr, s, a[2], inp, site, stack):
                if k == BT:
                    stop(s2)
                elif k != OKK:
                    out.append((s2, k, v))
                else:
                    for s3, k3, v3 in self.parse(fr, s2, a[1], inp, site, stack):
                        if k3 == OKK:
                            work.append((s3, vs + (v3,)))
                        elif k3 == BT:
                            stop(s3)
                        else:
                            out.append((s3, k3, v3))
        return out

    def c_one_of(self, fr, st, a, o, inp, site, stack):
        return self.one(st, self.cls_of(fr, st, a[0], site, stack))

    def c_none_of(self, fr, st, a, o, inp, site, stack):
        return self.one(st, compl(self.cls_of(fr, st, a[0], site, stack)))

    def c_take_while(self, fr, st, a, o, inp, site, stack):
        lo, hi = self.bounds(st, a[0])
        return self.many(st, self.cls_of(fr, st, a[1], site, stack), lo, hi)

    def c_take_till(self, fr, st, a, o, inp, site, stack):
        lo, hi = self.bounds(st, a[0])
        return self.many(st, compl(self.cls_of(fr, st, a[1], site, stack)), lo, hi)

    def c_map(self, fr, st, a, o, inp, site, stack):
        return self.bind(self.parse(fr, st, a[0], inp, site, stack),
                         lambda s, v: [(o2.st, OKK, o2.value) if o2.kind == "ret" else (o2.st, PANIC, o2.info) for o2 in self.call_value(fr, s, a[1], [v], site, stack)])

    def c_value(self, fr, st, a, o, inp, site, stack):
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), lambda s, v: [(s, OKK, a[1])])

    def c_void(self, fr, st, a, o, inp, site, stack):
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), lambda s, v: [(s, OKK, UNIT)])

    def c_take(self, fr, st, a, o, inp, site, stack):
        start = st.facts["at"]
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), lambda s, v: [(s, OKK, self.span_text(s, start, s.facts["at"]))])

    def c_with_taken(self, fr, st, a, o, inp, site, stack):
        start = st.facts["at"]
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), lambda s, v: [(s, OKK, ("tup", (v, self.span_text(s, start, s.facts["at"]))))])

    def mkrange(self, a, b):
        return ("adt", "core::ops::range::Range", 0, "Range", (T("pos", a), T("pos", b)))

    def c_span(self, fr, st, a, o, inp, site, stack):
        start = st.facts["at"]
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), lambda s, v: [(s, OKK, self.mkrange(start, s.facts["at"]))])

    def c_with_span(self, fr, st, a, o, inp, site, stack):
        start = st.facts["at"]
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), lambda s, v: [(s, OKK, ("tup", (v, self.mkrange(start, s.facts["at"]))))])

    def c_output_into(self, fr, st, a, o, inp, site, stack):
        # targs of the method: [Self, I, O, E, O2]
        dst = next((x for x in reversed(o) if x and x.get("adt", "").startswith("mabo")), None)

        def conv(s, v):
            if dst is None:
                raise Unsure("conversion of a parser's output")
            r = self.convert(fr, s, v, None, dst, site, stack)
            if r is NotImplemented:
                raise Unsure("conversion of a parser's output")
            if isinstance(r, list):
                return [(x.st, OKK, x.value) if x.kind == "ret" else (x.st, PANIC, x.info) for x in r]
            return [(s, OKK, r)]
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), conv)

    def c_err_into(self, fr, st, a, o, inp, site, stack):
        return self.parse(fr, st, a[0], inp, site, stack)

    def c_by_ref(self, fr, st, a, o, inp, site, stack):
        return self.parse(fr, st, a[0], inp, site, stack)

    def c_context(self, fr, st, a, o, inp, site, stack):
        return self.parse(fr, st, a[0], inp, site, stack)

    def c_verify(self, fr, st, a, o, inp, site, stack):
        start = st.facts["at"]

        def chk(s, v):
            out = []
            for o2 in self.call_value(fr, s, a[1], [v], site, stack):
                if o2.kind != "ret":
                    out.append((o2.st, PANIC, o2.info))
                    continue
                for s2, val in self.bools(o2.st, o2.value):
                    if not val:
                        s2.facts["at"] = start
                    out.append((s2, OKK, v) if val else (s2, BT, PERR))
            return out
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), chk)

    def c_verify_map(self, fr, st, a, o, inp, site, stack):
        def chk(s, v):
            out = []
            for o2 in self.call_value(fr, s, a[1], [v], site, stack):
                r = o2.value
                if o2.kind != "ret":
                    out.append((o2.st, PANIC, o2.info))
                elif r[0] == "adt" and r[3] == "Some":
                    out.append((o2.st, OKK, r[4][0]))
                elif r[0] == "adt" and r[3] == "None":
                    out.append((o2.st, BT, PERR))
                else:
                    raise Unsure("condition on a parsed value: %s" % A.show(r)[:100])
            return out
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), chk)

    def c_try_map(self, fr, st, a, o, inp, site, stack):
        def chk(s, v):
            out = []
            for o2 in self.call_value(fr, s, a[1], [v], site, stack):
                r = o2.value
                if o2.kind != "ret":
                    out.append((o2.st, PANIC, o2.info))
                elif r[0] == "adt" and r[3] == "Ok":
                    out.append((o2.st, OKK, r[4][0]))
                elif r[0] == "adt" and r[3] == "Err":
                    out.append((o2.st, BT, PERR))
                else:
                    raise Unsure("condition on a parsed value: %s" % A.show(r)[:100])
            return out
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), chk)

    def c_and_then(self, fr, st, a, o, inp, site, stack):
        raise Unsure("and_then")

    def c_parse_to(self, fr, st, a, o, inp, site, stack):
        ts = [x["s"] for x in o if x]
        kind = next((t for t in reversed(ts) if t in A.INTBITS or t in ("f64", "f32")), None)

        def conv(s, v):
            if not is_t(v, "text") or kind is None:
                raise Unsure("number")
            r = self.parse_number(s, v, kind)
            return [(s2, OKK, x) if x is not None else (s2, BT, PERR) for s2, x in r]
        return self.bind(self.parse(fr, st, a[0], inp, site, stack), conv)

    def parse_number(self, s, v, kind):
        """[(state, value or None)]; a signed number piece stands for its absolute value"""
        tx = s.facts["txt"]
        its = [tx.items[tx.ix[i]] for i in tx.expand(v[2])]
        neg = False
        body = its
        if body and body[0].kind == "one" and single(body[0].cls) and chr(body[0].cls[0][0]) in "+-":
            neg = chr(body[0].cls[0][0]) == "-"
            body = body[1:]
        if kind in A.INTBITS:
            if len(body) == 1 and body[0].kind == "num":
                bits = A.INTBITS[kind] - (kind[0] == "i")
                may, over = fits(body[0].info, bits)
                out = []
                if may:
                    out.append((s, T("neg", body[0].val) if neg else body[0].val))
                if over or (neg and kind[0] == "u"):
                    out.append((s.fork(), None))
                return out
            raise Unsure("number")
        ch = lambda it: chr(it.cls[0][0]) if it.kind == "one" and single(it.cls) else ""
        if len(body) >= 3 and body[0].kind == "num" and ch(body[1]) == "." and (body[2].kind == "num" or ch(body[2]) == "0"):
            frac = body[2].val if body[2].kind == "num" else T("zero")
            if len(body) == 3:
                return [(s, T("float", neg, body[0].val, frac))]
            if ch(body[3]) in ("e", "E"):
                sign = ch(body[4]) if len(body) > 4 else ""
                rest = body[5:] if sign in ("+", "-") and sign else body[4:]
                if len(rest) == 1 and rest[0].kind == "num":
                    return [(s, T("floate", neg, body[0].val, frac, sign == "-", rest[0].val))]
        raise Unsure("number")

    def m_radix(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        r = self.deref_read(st, args[1])
        if is_t(v, "text"):
            tx = st.facts["txt"]
            its = [tx.items[tx.ix[i]] for i in tx.expand(v[2])]
            if len(its) == 1 and its[0].kind == "hex" and r == ("int", 16):
                return ok(its[0].val)
            if its and all(x.kind == "one" and single(x.cls) for x in its) and r[0] == "int":
                t = "".join(chr(x.cls[0][0]) for x in its)
                try:
                    n = int(t, r[1])
                except ValueError:
                    return err(PERR)
                if n < 2 ** 32 and not t[0] in "+-":
                    return ok(("int", n))
        raise Unsure("number in another base")

    def m_str_parse(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        o = [x["s"] for x in (m.get("oargs") or ()) if x]
        kind = next((t for t in o if t in A.INTBITS or t in ("f64", "f32")), None)
        if is_t(v, "text") and kind is not None:
            return [Outcome("ret", ok(x) if x is not None else err(PERR), s2) for s2, x in self.parse_number(st, v, kind)]
        raise Unsure("number")

    def m_from_u32(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if is_t(v, "charcode"):
            return some(T("char", v[2]))
        if v[0] == "int":
            return some(v) if v[1] < 0x110000 and not 0xd800 <= v[1] < 0xe000 else NONE
        raise Unsure("character of a code")

    def m_finite(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if is_t(v, "float"):
            return TRUE
        if is_t(v, "floate"):
            s2 = st.fork()
            s2.facts["big"] = "exponent"
            return [Outcome("ret", TRUE, st), Outcome("ret", FALSE, s2)]
        return NotImplemented

    def m_is_empty(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if is_t(v, "text"):
            tx = st.facts["txt"]
            its = [tx.items[tx.ix[i]] for i in tx.expand(v[2])]
            if any(it.kind != "many" for it in its):
                return FALSE
            if not its:
                return TRUE
            raise Unsure("whether a slice is empty")
        return NotImplemented


CHARS = {"is_ascii_digit": DIGIT, "is_ascii_lowercase": LOWER, "is_ascii_uppercase": UPPER, "is_ascii_alphanumeric": ALNUM, "is_ascii_alphabetic": union(LOWER, UPPER),
         "is_ascii_hexdigit": HEX, "is_ascii": ((0, 127),), "is_ascii_whitespace": cs(" \t\n\r\x0c"), "is_ascii_control": ((0, 31), (127, 127)),
         "is_ascii_graphic": ((33, 126),), "is_ascii_punctuation": norm([(33, 47), (58, 64), (91, 96), (123, 126)])}
PRIM = {"winnow::ascii::" + n for n in "space0 space1 multispace0 multispace1 newline line_ending digit0 digit1 hex_digit1 alpha0 alpha1 alphanumeric0 alphanumeric1 dec_uint".split()} | \
       {"winnow::token::" + n for n in "any rest".split()} | {"winnow::combinator::core::" + n for n in "fail empty eof".split()}
COMB = {"winnow::combinator::sequence::" + n for n in "preceded terminated delimited separated_pair".split()} | \
       {"winnow::combinator::core::" + n for n in "opt peek cut_err backtrack_err not".split()} | \
       {"winnow::combinator::multi::" + n for n in "repeat separated".split()} | {"winnow::combinator::multi::Repeat::fold"} | \
       {"winnow::combinator::branch::alt"} | {"winnow::token::" + n for n in "one_of none_of take_while take_till literal".split()} | \
       {"winnow::parser::Parser::" + n for n in "map value void take with_taken span with_span output_into err_into by_ref context verify verify_map try_map parse_to and_then".split()}
