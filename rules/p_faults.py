"""M35: a rejected schema is reported as a fault of the definition that breaks the language, at places where it does."""
import re
import absint as A
import models as M
from absint import is_t, show, err, ok, Outcome, T, some
from peg import Unsure, PegInterp, PERR, OKK, PANIC, BT, CUT, ERRMODE
from rules.common import loc, Report, spread
from rules.parsing import *
from rules.syntax import NESTS


class FaultInterp(PegInterp):
    """keeps where and why a parser failed"""

    def __init__(self, db, **kw):
        super().__init__(db, **kw)
        mm = self.models
        mm["winnow::error::ParseError::into_inner"] = lambda I, fr, st, args, m, site, stack, tys: self.inner(st, args[0])
        mm["winnow::stream::Stream::offset_for"] = lambda I, fr, st, args, m, site, stack, tys: some(T("distance", st.facts["at"]))
        mm["winnow::error::ParserError::from_input"] = lambda I, fr, st, args, m, site, stack, tys: T("perr", st.facts["at"])

    def inner(self, st, v):
        v = self.deref_read(st, v)
        if not is_t(v, "failed"):
            raise Unsure("error of the parser")
        return v[2]

    def stamp(self, rs):
        for s, k, v in rs:
            at = s.facts.get("at")
            tx = s.facts.get("txt")
            if tx is not None and not str(at).startswith("inside "):
                far = s.facts.get("far")
                if far is None or tx.pos(at) > tx.pos(far):
                    s.facts["far"] = at
        return [(s, k, T("perr", s.facts["at"]) if v == PERR else v) for s, k, v in rs]

    def parse(self, fr, st, p, inp, site, stack):
        return self.stamp(super().parse(fr, st, p, inp, site, stack))

    def run_prim(self, st, n, m):
        return self.stamp(super().run_prim(st, n, m))

    def back(self, rs, start):
        for s, k, v in rs:
            if k == BT:
                s.facts["at"] = start
        return rs

    def lit(self, st, chars):
        start = st.facts["at"]
        return self.back(super().lit(st, chars), start)

    def dec_uint(self, st, m):
        start = st.facts["at"]
        return self.back(super().dec_uint(st, m), start)

    def mapped(self, fr, st, f, e, site, stack, wrap):
        outs = []
        for o in self.call_value(fr, st, f, [e], site, stack):
            outs.append(Outcome("ret", wrap(o.value), o.st) if o.kind == "ret" else o)
        return outs

    def m_errmap(self, I, fr, st, args, m, site, stack, tys):
        e = self.deref_read(st, args[0])
        if e[0] != "adt" or e[1] != ERRMODE:
            return NotImplemented
        return self.mapped(fr, st, args[1], e[4][0], site, stack, lambda v: ("adt", ERRMODE, e[2], e[3], (v,)))

    def m_map_err(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] != "adt":
            return NotImplemented
        if v[3] == "Ok":
            return v
        return self.mapped(fr, st, args[1], v[4][0], site, stack, err)

    def m_parse(self, I, fr, st, args, m, site, stack, tys):
        p = self.deref_read(st, args[0])
        outs = []
        for s, k, v in self.parse(fr, st, p, T("input"), site, stack):
            if k == PANIC:
                outs.append(Outcome("panic", None, s, v))
            elif k != OKK:
                outs.append(Outcome("ret", err(T("failed", v)), s))
            else:
                for s2, it in self.head(s):
                    outs.append(Outcome("ret", ok(v) if it is None else err(T("failed", T("perr", s2.facts["at"]))), s2))
        return outs

    # how far into the text a place is depends on what stands before

    def afar(self, st, v):
        return is_t(v) and v[1] in ("lt", "le", "gt", "ge", "eq", "ne", "not", "bin") and not any(is_t(x, "isvar") for x in v) \
            and re.search(r"\bpos\(", show(v)) is not None and re.search(r"\b(ch|chin|left)\(", show(v)) is None

    def assume(self, st, cond, val):
        if self.afar(st, cond):
            return super(PegInterp, self).assume(st, cond, val)
        return super().assume(st, cond, val)

    def switch(self, fr, st, t, work):
        if self.afar(st, self.deref_read(st, self.operand(fr, st, t[1]))):
            return super(PegInterp, self).switch(fr, st, t, work)
        return super().switch(fr, st, t, work)

    def call_fn(self, fn, args, st, stack, *a, **k):
        # a copy of the input has its own position
        own = any(fn.local_ty(i + 1).get("adt", "").endswith("LocatingSlice") for i in range(fn.argc) if i + 1 < 10)
        at = st.facts.get("at")
        outs = super().call_fn(fn, args, st, stack, *a, **k)
        if own:
            for o in outs:
                o.st.facts["at"] = at
        return outs


def interp(L):
    I = FaultInterp(L.db, nests=NESTS)
    I.nest_fns = {f.id for f in (L.type_fn, L.lit_fn) if f is not None}
    I.refn = I.reclo = 6
    I.max_depth = 160
    return I


KIND = {"struct": "Struct", "enum": "Enum", "alias": "Alias", "const": "Const", "import": "Import", "module": "Module"}
WORD = {"struct": "struct", "enum": "enum", "alias": "type", "const": "const", "import": "use", "module": "mod"}


def expected(label, mods):
    """the cause that a reader is told, where the language has one for it"""
    m = re.match(r"(.*?)( name that starts wrong| without a name)$", label)
    if m:
        w = m.group(1)
        if w == "variant":
            return ("InvalidVariantName",)
        if w == "field":
            return ("Fields", "InvalidName")
        if w == "type parameter":
            return ("Generics", "InvalidName")
        if w == "import":
            return ("InvalidSegmentName",)
        if w.split()[-1] in KIND:
            return ("InvalidName",)
    if label in ("const without semicolon", "const with a comma for the semicolon"):
        return ("UnexpectedChar",)
    return ()


class Fault:
    """an error of the parser, taken apart"""

    def __init__(self, I, st, v):
        self.ranges, self.names, self.leaf = [], [], None
        self.walk(I, st, v, None)

    def place(self, I, st, v):
        v = I.deref_read(st, v)
        if is_t(v, "pos") or is_t(v, "perr"):
            return v[2]
        if v[0] == "int" or is_t(v):
            return v
        raise Unsure("position %s" % show(v)[:80])

    def walk(self, I, st, v, owner):
        v = I.deref_read(st, v)
        if is_t(v, "perr"):
            self.leaf = (None, [v[2]])
            return
        if v[0] == "adt" and v[1].endswith("boxed::Box") and len(v[4]) >= 1:
            return self.walk(I, st, v[4][0], owner)
        if v[0] == "box":
            return self.walk(I, st, v[1], owner)
        if v[0] != "adt":
            raise Unsure("error %s" % show(v)[:80])
        fs = [I.deref_read(st, x) for x in v[4]]
        rs = [x for x in fs if x[0] == "adt" and "ops::range::Range" in x[1]]
        nested = [x for x in fs if x not in rs and (x[0] in ("adt", "box") or is_t(x, "perr"))]
        for x in rs:
            self.ranges.append((self.names[-1] if self.names else "", self.place(I, st, x[4][0]), self.place(I, st, x[4][1])))
        if not rs:
            self.names.append(v[3])
        if len(nested) > 1:
            raise Unsure("error with several causes")
        if nested:
            return self.walk(I, st, nested[0], v)
        if rs:
            raise Unsure("error without a cause")
        # a cause with positions of its own
        tys = [f[1].get('s') if isinstance(f[1], dict) else f[1] for f in I.db.variants(v[1])[v[2]]["fields"]]
        ps = [x for x, t in zip(fs, tys) if re.search(r"\b(pos|perr)\(", show(x)) or is_t(x) and x[1] in ("add", "sub", "bin") or x[0] == "int" and t == "usize"]
        self.leaf = (v[3], [self.place(I, st, x) for x in ps])
        self.fields = fs


def starts(tx):
    """[(place, kind)] where the text has the word of a definition, at the start of a line or of the text"""
    out = []
    it = tx.items
    one = [i.cls[0][0] if i.kind == "one" and len(i.cls) == 1 and i.cls[0][0] == i.cls[0][1] else None for i in it]
    for i in range(len(it)):
        if i and one[i - 1] not in (10, 32, 123, 125, 59):
            continue
        for k, w in WORD.items():
            n = len(w)
            if one[i:i + n] == [ord(c) for c in w] and i + n < len(it) and one[i + n] in (32, 9):
                out.append((i, k))
    return out


def judge(db, R, L, label, ds, mods, style, c=0, kind="Schema"):
    b = Builder(db, style, mods)
    if kind == "Schema":
        b.schema(ds, c)
        outs = L.parse_schema(b.items)
    else:
        ds(b)
        outs = L.parse_elem(kind, b.items)
    fn = {"Schema": L.entry, "Type": L.type_fn, "Literal": L.lit_fn}[kind]
    I = L.last
    R.n("rejected texts")
    want = expected(label.split(", in ")[0], mods)
    for o in outs:
        if o.kind != "ret" or o.value[0] != "adt" or o.value[3] != "Err":
            continue        # not of this property
        st = o.st
        tx = st.facts["txt"]
        e = I.deref_read(st, o.value[4][0])
        if e[0] != "adt":
            raise Unsure("error of a schema: %s" % show(e)[:60])
        if kind != "Schema":
            if e[1] != ERRMODE:
                raise Unsure("error of a %s" % kind)
        cause = [x for x in (I.deref_read(st, y) for y in e[4]) if x[0] == "adt" or is_t(x, "perr")]
        if len(cause) != 1:
            raise Unsure("error of a schema")
        f = Fault(I, st, cause[0])
        R.n("errors")
        far = tx.pos(st.facts["far"])
        defs = [(i, k) for i, k in starts(tx) if i <= far]
        low = defs[-1][0] if defs and defs[-1][0] != far else 0
        kinds = [n for n in f.names if n in KIND.values()]
        who = "/".join(f.names) or "general"
        text = tx.show()

        def at(p):
            return tx.pos(p) if isinstance(p, str) else None

        def bad(key, msg):
            R.v(key, "%s (%s): %s: %r" % (fn.name, loc(fn), msg, text[:160]))
        places = [("start of the %s error" % (n or "outer"), "start:" + n, s) for n, s, _ in f.ranges]
        places += [("end of the %s error" % (n or "outer"), "end:" + n, s) for n, _, s in f.ranges]
        places += [("position of the cause %s" % (f.leaf[0] or "(general)"), "cause:%s:%s" % (kinds[-1] if kinds else "", f.leaf[0]), p) for p in f.leaf[1]]
        for what, key, p in places:
            R.n("positions")
            i = at(p)
            if i is None:
                if "distance" in show(p):
                    # measured from the start of the error, but used as if from the start of the text
                    if not defs or re.search(r"\bpos\(", show(p)) is None:
                        bad("end:relative", "%s: the %s, %s, is a distance and not a place in the text" % (label, what, show(p)))
                    continue
                bad("place:" + key, "%s: the %s, %s, is not a place at which the parser stands" % (label, what, show(p)))
            elif i > far:
                bad("late:" + key, "%s: the %s is %r, behind the place %r that stops the parser" % (label, what, p, st.facts["far"]))
            elif i < low and not key.startswith("end:"):
                if key.startswith("start:") and any(x == i for x, _ in defs):
                    continue        # of an enclosing module
                bad("early:" + key, "%s: the %s is %r, before the definition at fault" % (label, what, p))
        for n, s, t in f.ranges:
            if at(s) is not None and at(t) is not None and at(t) < at(s):
                bad("range:" + n, "%s: the %s error ends before it starts" % (label, n))
        if f.leaf[0] is not None and f.leaf[0].startswith(("Invalid", "Unexpected")) and f.leaf[1] and kind == "Schema":
            R.n("characters at fault")
            for p in f.leaf[1]:
                if at(p) is not None and at(p) != far:
                    bad("char:" + f.leaf[0], "%s: %s names the character at %r, the one at fault is at %r" % (label, f.leaf[0], p, st.facts["far"]))
        if want:
            R.n("causes")
            if not all(w in f.names for w in want) or f.names[-1] != want[-1]:
                bad("cause:%s" % "/".join(want), "%s is reported as %s instead of %s" % (label, who, "/".join(want)))
        # the error is of the definition that the text stops in
        open_ = [k for i, k in defs if i != far]
        if f.leaf[0] is None and not f.names and any(i == far for i, k in starts(tx)):
            bad("general", "%s: a definition begins where a general error is reported" % label)
        for k in kinds:
            R.n("definitions at fault")
            if k not in [KIND[x] for _, x in defs]:
                bad("kind:" + k, "%s is reported as an error of a definition of another kind, %s" % (label, k))


def companions(label, ds, mods):
    """the same fault behind another definition, in a module, and behind a comment"""
    ks = set(mods)
    if len(ds) != 1 or any(k.startswith(("keyword", "comment", "attr")) for k in ks):
        return
    other = S if not ks & {"first:struct", "bad:struct"} else KINDS["const"]
    yield label + ", in the second definition", [other, ds[0]], 0
    if not any(k.startswith("comment") for k in ks) and ds[0]["kind"] != "import":
        yield label + ", in a definition with a comment", [other, dict(ds[0], comment=2)], 1
    if not any("module" in k for k in ks):
        yield label + ", in a module", [dict(kind="module", defs=[other, ds[0]])], 0
        yield label + ", in two modules", [other, dict(kind="module", defs=[dict(kind="module", defs=[ds[0]])])], 0


def run(db, R):
    L = Lang(db)
    if L.entry is None or L.type_fn is None or L.lit_fn is None:
        R.undec("parser", "no single parser function of schemas, types and literals")
        return

    def one_interp():
        L.last = interp(L)
        return L.last
    L.interp = one_interp
    R.saw(L.entry)
    todo = []
    for label, ds, mods in broken():
        for style in ("canon", "tight"):
            todo.append((label, ds, mods, style, 0))
        for l, d, c in companions(label, ds, mods):
            todo.append((l, d, mods, "canon", c))

    for kind, it in (("Type", broken_types()), ("Literal", broken_literals())):
        for label, f, mods in it:
            todo.append(("%s: %s" % (kind.lower(), label), f, mods, "tight", 0, kind))

    def one(i):
        label, ds, mods, style, c, kind = (todo[i] + ("Schema",))[:6]
        r = Report(R.prop, R.tier)
        try:
            judge(db, r, L, label, ds, mods, style, c, kind)
        except (A.Unsupported, Unsure, Gap) as x:
            if "read as" not in str(x):
                r.undec(label, "%s: %s" % (type(x).__name__, str(x)[:160]))
        return r.viol, r.counts, r.undecided, set(L.fns)
    keys, und = set(), set()
    for i, res in enumerate(spread(one, len(todo))):
        if res is None:
            R.undec(todo[i][0], "the analysis of this case takes too long")
            continue
        viol, counts, undec, fns = res
        for k, t in viol:
            if k not in keys:
                keys.add(k)
                R.v(k, t)
        for k, n in counts.items():
            R.n(k, n)
        for u in undec:
            w = u.split(": ", 1)[-1]
            if w not in und:
                und.add(w)
                R.undecided.append(u)
        for i in fns:
            f = db.fns.get(i)
            if f is not None and f.crate.name == CR:
                R.saw(f)
    leaves(db, R, L)
    R.floor("errors", 500)
    R.floor("characters at fault", 50)


def leaves(db, R, L):
    """a general error stands where the parser stands"""
    for f in db.fns.values():
        if f.crate.name != CR or f.item != "from_input" or not (f.trait or "").endswith("ParserError"):
            continue
        R.saw(f)
        R.n("general errors")
        I = L.interp()
        st = A.State()
        I.begin(st, [])
        st.facts["at"] = "$"
        try:
            outs = I.call_fn(f, [T("input")], st, ())
            for o in outs:
                v = show(o.value)
                ps = re.findall(r"(?:pos|perr)\([^()]*\)", v)
                if o.kind != "ret" or not ps:
                    raise Unsure("general error %s" % v[:80])
                if re.search(r"\b(add|sub|bin|mul)\(", v):
                    R.v("general:" + (f.self_s or ""), "%s (%s): the position of a general error is %s" % (f.name, loc(f), v[:120]))
        except (A.Unsupported, Unsure) as x:
            R.undec(f.name, str(x)[:120])
