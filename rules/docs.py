"""Documents for the rules about the language server: every form of every definition with its text, and what the server knows about it."""
from rules.lsp import *
from rules.syntax import Builder, Gap
from rules import parsing
from peg import cs

NL = cs("\n")


class Doc(Builder):
    """A whole document: types and values inside definitions are small concrete ones, or the one that is looked at."""

    def __init__(self, db, ty=None, lit=None):
        super().__init__(db, "canon")
        self.ty, self.lit_ = ty, lit
        self.ty_used = 0

    def nest(self, kind):
        if kind == "Type":
            f, self.ty = self.ty, None
            return self.wrap_type(f and (lambda: f(self)) or (lambda: self.t_basic("u8", "U8")))
        f, self.lit_ = self.lit_, None
        return self.wrap_literal(f and (lambda: f(self)) or (lambda: self.l_bool(True)))

    def line(self, i):
        """The line a place in the text is on."""
        return sum(1 for it in self.items[:i] if it.kind == "one" and it.cls == NL)


def documents(db):
    """(label, document, its tree)"""
    for label, defs, comment in list(parsing.definitions()) + list(parsing.pairs()):
        d = Doc(db)
        yield label, d, value(d.schema(defs, comment))
    S = dict(kind="struct", fields=("named", [(0, True), (0, False)], True))
    U = dict(kind="struct", fields=("unnamed", [(True,), (False,)], True))
    N = ("no", "one", "two", "three")
    for k in (1, 2, 3):
        for kind in ("named", "unnamed"):
            for ids in ([True] * k, [False] * k, [i % 2 == 0 for i in range(k)]):
                fs = (kind, [(i % 2, x) if kind == "named" else (x,) for i, x in enumerate(ids)], k == 2)
                d = Doc(db)
                yield "%s %s fields of a struct" % (N[k], kind), d, value(d.schema([dict(kind="struct", fields=fs)], 0))
                for vs in ([fs], [None, fs], [fs, None], [fs, fs], [None, fs, None]):
                    d = Doc(db)
                    yield "%s %s fields of a variant, %s variants" % (N[k], kind, N[len(vs)]), d, value(d.schema([dict(kind="enum", variants=[(i % 2, v, ids[0]) for i, v in enumerate(vs)])], 0))
    for label, f in parsing.data_types():
        for d0 in (S, U, dict(kind="alias"), dict(kind="enum", variants=[(0, S["fields"], True), (0, U["fields"], True)])):
            d = Doc(db, ty=f)
            yield "%s in %s" % (label, d0["kind"]), d, value(d.schema([d0], 0))
    for label, f in parsing.literals():
        d = Doc(db, lit=f)
        yield label, d, value(d.schema([dict(kind="const", comment=1), dict(kind="const")], 0))


def value(v):
    """A tree as the interpreter takes it: places are terms."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "mark":
        return T("at", v[1])
    if v and v[0] in ("any", "texts", "chars"):
        return T("other", *(x if not isinstance(x, tuple) else repr(x) for x in v))
    return tuple(value(x) for x in v)


def named(v):
    """The name of a token type or modifier."""
    if is_t(v, "const") and "SemanticToken" in str(v[2]):
        w = v[2].rsplit("::", 1)[1].split("_")
        return w[0].lower() + "".join(x.capitalize() for x in w[1:])
    if is_t(v, "call") and "SemanticToken" in str(v[2]) and str(v[2]).endswith("::new") and v[3][0][0] == "str":
        return v[3][0][1]
    return None


class DocInterp(LspInterp):
    """Places in the text: the line is known, the column is not."""

    def __init__(self, db, doc, opaque=None, models=None):
        self.doc = doc
        ms = {"line_index::LineIndex::line_col": self.line_col, "line_index::LineIndex::try_line_col": self.line_col}
        P = "mabo_parser::punctuated::Punctuated::"
        ms.update({P + "iter": self.listed, P + "values": self.listed, P + "len": self.listed})
        ms.update(models or {})
        super().__init__(db, models=ms)
        self.opaque = opaque or (lambda g: g.crate.name not in (CRATE, "mabo_parser") or compiles(g))
        self.refn = self.reclo = 8
        self.max_depth = 160
        n = "core::iter::traits::collect::IntoIterator::into_iter"
        base = self.models[n]

        def into(I, fr, st, args, m, site, stack, tys):
            v = self.list_of(I.deref_read(st, args[0]))
            return ("iter", ("arr", v), ()) if v is not None else base(I, fr, st, args, m, site, stack, tys)
        self.models[n] = into
        for w in ("write_fmt", "write_str", "write_char"):
            self.models["core::fmt::Write::" + w] = grown(self.models["core::fmt::Write::" + w])
        n1 = "core::default::Default::default"
        base1 = self.models.get(n1)

        def default(I, fr, st, args, m, site, stack, tys):
            t = (tys[0] or {}).get("s", "") if tys else I.rty
            if t.startswith(("alloc::boxed::Box<[", "alloc::vec::Vec<")):
                return ("vec", ())
            return base1(I, fr, st, args, m, site, stack, tys) if base1 else NotImplemented
        self.models[n1] = default
        n2 = "core::slice::<impl [T]>::contains"

        def contains(I, fr, st, args, m, site, stack, tys):
            l, x = I.deref_read(st, args[0]), named(I.deref_read(st, args[1]))
            if x is None or l[0] not in ("vec", "arr"):
                return NotImplemented
            ns = [named(I.deref_read(st, y)) for y in l[1]]
            return NotImplemented if None in ns else A.TRUE if x in ns else A.FALSE
        self.models[n2] = contains

    # columns of different lines: which pair of them is the same, and which pairs the code has asked about
    world = None

    def eq(self, st, a, b):
        x, y = named(a), named(b)
        if x is not None and y is not None:
            return A.TRUE if x == y else A.FALSE
        x, y = (only(linear(plain(v)) or {}) if is_t(plain(v)) else None for v in (a, b))
        if x is not None and y is not None and x != y and self.doc is not None and self.doc.line(x) != self.doc.line(y):
            self.asked = getattr(self, "asked", set()) | {(min(x, y), max(x, y))}
            return A.TRUE if self.world == (min(x, y), max(x, y)) else A.FALSE
        return super().eq(st, a, b)

    def list_of(self, v):
        """The pairs of elements and commas of a list of the syntax tree."""
        if v[0] != "adt" or not v[1].endswith("punctuated::Punctuated"):
            return None
        if len(v[4]) != 2 or v[4][0][0] != "vec":
            return None
        return tuple(("tup", (x[1][0], some(x[1][1]))) for x in v[4][0][1]) + (v[4][1],)

    def listed(self, I, fr, st, args, m, site, stack, tys):
        v = self.list_of(I.deref_read(st, args[0]))
        if v is None:
            return NotImplemented
        n = I.fname(m).rsplit("::", 1)[1]
        return ("int", len(v)) if n == "len" else ("iter", ("arr", v if n == "iter" else tuple(x[1][0] for x in v)), ())

    def line_col(self, I, fr, st, args, m, site, stack, tys):
        at = plain(I.deref_read(st, args[1]))
        while is_t(at, "cast"):
            at = next(x for x in at[2:] if is_t(x))
        if at == ("int", 0):
            v = adt(self.db, "line_index::LineCol", line=at, col=at)
            return some(v) if "try_" in I.fname(m) else v
        if not is_t(at, "at"):
            return NotImplemented
        v = adt(self.db, "line_index::LineCol", line=("int", self.doc.line(at[2])), col=T("col", at[2]))
        return some(v) if "try_" in I.fname(m) else v


def grown(base):
    """A text of the document can be copied and written behind."""
    def h(I, fr, st, args, m, site, stack, tys):
        r = args[0]
        while isinstance(r, tuple) and r and r[0] == "ref":
            v = I.read_lv(st, r)
            if is_t(v, "text"):
                I.store(st, ("cell", r[1], r[2]), ("sbuf", (("ph", "display", v),)))
            r = v
        return base(I, fr, st, args, m, site, stack, tys)
    return h


def known_file(db, tree, simplified=None):
    """A document the server keeps, without problems."""
    from rules import p_units
    own = p_units.index_type(db)
    ix = ("adt", own, 0, db.variants(own)[0]["name"], tuple(A.NONE if "WideEncoding" in t else T("arg", "lines") for t in p_units.types(db, own)))
    return ("file", (T("arg", "rope"), ix, T("arg", "content"), ok(tree), ok(simplified if simplified is not None else T("arg", "simplified"))))


def ask(db, f, doc, file, params, opaque=None, models=None, interp=DocInterp):
    """What the handler of a request answers about a document: the outcomes."""
    from rules import p_units
    hm = "std::collections::hash::map::HashMap::"

    def lookup(I, fr, st, args, m, site, stack, tys):
        key(I.deref_read(st, args[1]))
        return some(file) if file is not None else A.NONE

    def key(k):
        if plain(k) != T("arg", "uri"):
            raise Undecided("the document that is looked up: %s" % show(k)[:100])
    ms = {k: v for k, v in p_units.UNIT_MODELS.items() if "contains" not in k}
    ms.update({hm + "get": lookup, hm + "get_mut": lookup})
    ms.update(models or {})
    I = interp(db, doc, opaque=opaque, models=ms)
    base = M.MODELS.get("core::ops::index::Index::index")

    def ix(I, fr, st, args, m, site, stack, tys):
        if "HashMap<" in ((tys[0] or {}).get("s", "") if tys else ""):
            key(I.deref_read(st, args[1]))
            if file is None:
                return [A.Outcome("panic", None, st, ("missing key", site[0], site[1]))]
            return file
        l, k = I.deref_read(st, args[0]), I.deref_read(st, args[1])
        if l[0] in ("vec", "arr") and k[0] == "int" and 0 <= k[1] < len(l[1]):
            return l[1][k[1]]
        return base(I, fr, st, args, m, site, stack, tys) if base else NotImplemented
    I.models["core::ops::index::Index::index"] = ix
    outs = I.run(f, [T("arg", "state"), params])
    return I, outs


def text_document(db):
    return adt(db, "lsp_types::TextDocumentIdentifier", uri=T("arg", "uri"))


def each(db, R, cases, judge, seen):
    """judge(report, case) for every case, in several processes; every key is reported once"""
    from rules.common import Report, spread
    cases = list(cases)

    def one(i):
        r = Report(R.prop, R.tier)
        try:
            judge(r, cases[i])
        except (A.Unsupported, Undecided, Gap) as x:
            r.undec(cases[i][0], str(x)[:200])
        return r.viol, r.counts, r.undecided, set(r.functions)
    keys, und = {k for k, _ in R.viol}, set()
    for i, res in enumerate(spread(one, len(cases))):
        if res is None:
            R.undec(cases[i][0], "the analysis of this case takes too long")
            continue
        viol, counts, undec, fns = res
        for k, t in viol:
            if k not in keys:
                keys.add(k)
                R.v(k, t)
        for k, c in counts.items():
            R.n(k, c)
        for u in undec:
            w = u.split(": ", 1)[-1]
            if w not in und:
                und.add(w)
                R.undecided.append(u)
        for g in fns:
            R.saw(g)


def linear(v):
    """A number as {column: factor, None: constant}, or None."""
    if v[0] == "int":
        return {None: v[1]} if v[1] else {}
    if is_t(v, "col"):
        return {v[2]: 1}
    if is_t(v, "cast"):
        return linear(next(x for x in v[2:] if isinstance(x, tuple) and x and x[0] in ("t", "int")))
    if is_t(v, "bin") and v[2] in ("Sub", "Add"):
        a, b = linear(v[3]), linear(v[4])
        sign = -1 if v[2] == "Sub" else 1
    elif is_t(v, "add"):
        r = {}
        for x in v[2:]:
            a = linear(x) if isinstance(x, tuple) else None
            if a is None:
                return None
            r = plus(r, a, 1)
        return r
    else:
        return None
    return None if a is None or b is None else plus(a, b, sign)


def plus(a, b, sign):
    r = dict(a)
    for k, n in b.items():
        r[k] = r.get(k, 0) + sign * n
    return {k: n for k, n in r.items() if n}


def only(d):
    """The one column a number is, or None."""
    return next(iter(d)) if len(d) == 1 and None not in d and list(d.values()) == [1] else None


# ------------------------------------------------------------------ the elements of a document
KEYWORDS = {"Struct", "Enum", "Mod", "Const", "Use", "Type"}
POINTS = {"Comma": "comma", "Colon": "colon", "Semicolon": "semicolon", "DoubleColon": "doubleColon", "Equal": "equal", "Pound": "pound"}
PAIRS = {"Brace": "brace", "Bracket": "bracket", "Parenthesis": "parenthesis", "Angle": "angle"}
DECL = frozenset({"declaration"})
NAMED_AS = {"Struct": ("struct", DECL), "Enum": ("enum", DECL), "TypeAlias": ("typeAlias", DECL), "Const": ("variable", frozenset({"declaration", "static", "constant"})),
            "Module": ("namespace", DECL), "Variant": ("enumMember", DECL), "NamedField": ("property", DECL), "Generics": ("typeParameter", DECL)}
PRE = "mabo_parser::"


def short(v):
    return v[1][len(PRE):] if isinstance(v, tuple) and len(v) == 5 and v[0] == "adt" and v[1].startswith(PRE) else None


def fields(db, v):
    return dict(zip([f[0] for f in db.variants(v[1])[v[2]]["fields"]], v[4]))


def span_of(db, v):
    f = fields(db, v)
    s = f.get("span") or next((x for x in v[4] if short(x) == "Span"), None)
    return None if s is None else tuple(x[2] for x in s[4])


def elements(db, v, owner=None, role=None):
    """(start, end, what it is, token type, modifiers, is a highlighting required)"""
    n = short(v)
    if n is None:
        if isinstance(v, tuple) and v and v[0] in ("vec", "arr", "tup"):
            for x in v[1]:
                yield from elements(db, x, owner, role)
        elif isinstance(v, tuple) and v and v[0] == "adt" and v[1] == A.OPTION:
            for x in v[4]:
                yield from elements(db, x, owner, role)
        return
    if n.startswith("token::"):
        t = n[7:]
        if t in PAIRS:
            for w, s in fields(db, v).items():
                if short(s) == "Span":
                    yield s[4][0][2], s[4][1][2], "%s %s" % (w, PAIRS[t]), PAIRS[t], frozenset(), False
            return
        s = span_of(db, v)
        if t in KEYWORDS:
            yield s + ("keyword %s" % t.lower(), "keyword", frozenset(), True)
        elif t in POINTS:
            yield s + (POINTS[t], POINTS[t], frozenset(), False)
        return
    if n == "Name":
        ty, mods = NAMED_AS.get(owner, (None, None))
        if owner == "ExternalType":
            ty, mods = ("type" if role == "name" else "namespace"), frozenset()
        if owner == "Import":
            ty, mods = ("type" if role == "element" else "namespace"), frozenset()
        if ty:
            yield span_of(db, v) + ("name of %s" % {"ExternalType": "type or path", "Import": "imported %s" % role}.get(owner, owner), ty, mods, True)
        return
    if n == "CommentLine":
        yield span_of(db, v) + ("comment line of %s" % owner, "comment", frozenset({"documentation"}), owner != "Schema")
        return
    if n == "Id":
        yield span_of(db, v) + ("id of %s" % owner, "identifier", frozenset(), True)
        return
    if n == "Literal":
        k = fields(db, v)["value"][3]
        t = {"Bool": "boolean", "Int": "number", "Float": "number"}.get(k)
        yield span_of(db, v) + ("%s literal" % k.lower(), t, frozenset(), t is not None)
        return
    f = fields(db, v)
    if n == "Type":
        d = f["value"]
        if not d[4]:
            yield span_of(db, v) + ("type", "builtinType", frozenset(), True)
        yield from elements(db, d, "Type")
        return
    if n == "DataType" and "span" in f:
        yield tuple(x[2] for x in f["span"][4]) + ("type", "builtinType", frozenset(), True)
    who = owner if n in ("Comment", "punctuated::Punctuated") else n
    for k, x in f.items():
        if (n, k) in (("Import", "full"), ) or n in ("Attributes",):
            continue
        yield from elements(db, x, who, k)
