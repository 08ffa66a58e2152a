"""M26: positions are counted in the unit that was agreed on with the editor."""
from rules.lsp import *
from rules import p_edits
from rules.common import loc
from rules.trace import flat

PEK = "lsp_types::PositionEncodingKind"
UNITS = {"utf-8": None, "utf-16": "Utf16", "utf-32": "Utf32"}


def kind(name):
    return T("const", PEK + "::" + name.upper().replace("-", ""), ()) if name in UNITS else T("kind", name)


def unit(v):
    """The name of an encoding."""
    if is_t(v, "kind"):
        return v[2]
    if is_t(v, "const") and v[2].startswith(PEK + "::UTF"):
        return "utf-" + v[2].rsplit("UTF", 1)[1]
    if is_t(v, "call") and str(v[2]).startswith(PEK) and str(v[2]).endswith("::new") and v[3][0][0] == "str":
        return v[3][0][1]
    return None


class UnitInterp(LspInterp):
    def eq(self, st, a, b):
        x, y = unit(a), unit(b)
        if x is not None and y is not None:
            return A.TRUE if x == y else A.FALSE
        return super().eq(st, a, b)


def as_str(I, fr, st, args, m, site, stack, tys):
    u = unit(I.deref_read(st, args[0]))
    return ("str", u) if u is not None else NotImplemented


def contains(I, fr, st, args, m, site, stack, tys):
    l, x = I.deref_read(st, args[0]), unit(I.deref_read(st, args[1]))
    if x is None or l[0] not in ("vec", "arr") or any(unit(I.deref_read(st, y)) is None for y in l[1]):
        return NotImplemented
    return A.TRUE if x in [unit(I.deref_read(st, y)) for y in l[1]] else A.FALSE


def range_new(I, fr, st, args, m, site, stack, tys):
    return adt(I.db, "lsp_types::Range", start=args[0], end=args[1])


def position_new(I, fr, st, args, m, site, stack, tys):
    return adt(I.db, "lsp_types::Position", line=args[0], character=args[1])


UNIT_MODELS = {PEK + "::as_str": as_str, "core::slice::<impl [T]>::contains": contains, "lsp_types::Range::new": range_new,
               "lsp_types::Position::new": position_new,
               "std::fs::read_to_string": lambda I, fr, st, args, m, site, stack, tys: ok(T("arg", "content")),
               "mabo_project::discover": lambda I, fr, st, args, m, site, stack, tys: ok(("vec", (adt(I.db, "mabo_project::Project", files=("vec", (T("arg", "path"),))),)))}


def interp(db):
    I = UnitInterp(db)
    I.models.update(UNIT_MODELS)
    return I


OFFERS = [None, [], ["utf-8"], ["utf-16"], ["utf-32"], ["utf-8", "utf-16"], ["utf-16", "utf-8"], ["utf-32", "utf-8"], ["utf-32", "utf-16"],
          ["utf-7"], ["utf-7", "utf-8"], ["utf-7", "utf-32", "utf-16"], ["utf-8", "utf-16", "utf-32"]]


def run(db, R):
    own = index_type(db)
    for f in handlers(db, "lsp_types::InitializeParams"):
        R.saw(f)
        for offer in OFFERS:
            try:
                agree(db, R, f, own, offer)
            except (A.Unsupported, Undecided) as x:
                R.undec("%s:%s" % (f.name, offer), str(x))
    for p in (p_edits.OPEN, p_edits.CHANGE):
        for f in handlers(db, p):
            R.saw(f)
            for u in UNITS:
                try:
                    documents(db, R, f, own, p, u)
                except (A.Unsupported, Undecided) as x:
                    R.undec("%s:%s" % (f.name, u), str(x))
    for f in sorted(db.fns.values(), key=lambda g: g.id):
        if f.crate.name != CRATE or f.kind not in ("Fn", "AssocFn") or not f.argc or not points(f):
            continue
        R.saw(f)
        for u in UNITS:
            try:
                convert(db, R, f, own, u)
            except (A.Unsupported, Undecided) as x:
                R.undec("%s:%s" % (f.name, u), str(x))
    R.floor("offers", 10)
    R.floor("documents", 6)
    R.floor("conversions", 6)


def index_type(db):
    c = [a for a in db.adts if a.startswith(CRATE) and db.adts[a].get("variants") and len(db.variants(a)) == 1
         and "line_index::LineIndex" in types(db, a) and any("WideEncoding" in t for t in types(db, a))]
    if len(c) != 1:
        raise Undecided("the type of line indices")
    return c[0]


def types(db, a):
    """The types of the fields of a struct of the server."""
    c = next(f.crate for f in db.fns.values() if f.crate.name == CRATE)
    return [(c.ty(x[1]) or {}).get("s", "") if isinstance(x[1], int) else "" for x in db.variants(a)[0]["fields"]]


def unit_of(db, own, st, ix):
    """The encoding a line index converts with."""
    if ix[0] != "adt" or ix[1] != own:
        raise Undecided("index %s" % show(ix)[:80])
    for t, x in zip(types(db, own), ix[4]):
        if "WideEncoding" in t:
            if x == A.NONE:
                return "utf-8"
            if x[0] == "adt" and x[1] == A.OPTION and x[4][0][0] == "adt":
                return {v: k for k, v in UNITS.items()}.get(x[4][0][3])
            raise Undecided("encoding %s" % show(x)[:80])
    raise Undecided("encoding")


def agree(db, R, f, own, offer):
    where = "%s (%s)" % (f.name, loc(f))
    pe = A.NONE if offer is None else some(("vec", tuple(kind(o) for o in offer)))
    params = adt(db, "lsp_types::InitializeParams", workspace_folders=some(("vec", (T("arg", "folder"),))),
                 capabilities=adt(db, "lsp_types::ClientCapabilities", general=some(adt(db, "lsp_types::GeneralClientCapabilities", position_encodings=pe))))
    I = interp(db)
    outs = I.run(f, [T("arg", "state"), params])
    R.n("offers")
    what = "the editor offers %s" % (", ".join(offer) if offer else "no encodings")
    for o in outs:
        if o.kind != "ret" or o.value[0] != "adt" or o.value[3] != "Ok":
            continue
        R.n("paths")
        caps = get(db, o.value[4][0], "capabilities")
        said = get(db, caps, "position_encoding")
        if said == A.NONE or said == T("default") or is_t(said, "fld") and is_t(said[2]) and said[2] == T("default"):
            said = "utf-16"
        elif said[0] == "adt" and said[1] == A.OPTION:
            said = unit(said[4][0])
        else:
            said = None
        kept = [v for k, v in o.st.omem.items() if is_t(k, "fld") and k[2] == T("arg", "state") and k[3] == "encoding"]
        if said is None:
            raise Undecided("announced encoding")
        R.n("obligations", 3)
        if said not in UNITS:
            R.v("unsupported", "%s: %s and the server announces %s, which it cannot convert" % (where, what, said))
        elif offer and said not in offer and said != "utf-16":
            R.v("refused", "%s: %s and the server announces %s" % (where, what, said))
        elif not offer and said != "utf-16":
            R.v("default", "%s: %s and the server announces %s" % (where, what, said))
        if kept and unit(kept[-1]) is None:
            raise Undecided("kept encoding %s" % show(kept[-1])[:80])
        if kept and unit(kept[-1]) != said:
            R.v("kept", "%s: %s, the server announces %s but keeps %s for the documents to come" % (where, what, said, unit(kept[-1])))
        for e in flat(o.events):
            if e[0] == "call":
                for a in e[2]:
                    if isinstance(a, tuple) and a[0] == "file" and said in UNITS:
                        R.n("obligations")
                        got = unit_of(db, own, o.st, file_parts(a)["index"])
                        if got != said:
                            R.v("files", "%s: %s, the server announces %s but locates positions of the files it found in %s" % (where, what, said, got))


def documents(db, R, f, own, p, u):
    """A document that is opened or replaced is located in the agreed encoding."""
    where = "%s (%s)" % (f.name, loc(f))
    if p == p_edits.OPEN:
        params = adt(db, p, text_document=p_edits.document(db, "lsp_types::TextDocumentItem", text=T("arg", "text")))
    else:
        ch = adt(db, p_edits.EVENT, range=A.NONE, text=T("arg", "text"))
        params = adt(db, p, content_changes=("vec", (ch,)), text_document=p_edits.document(db, "lsp_types::VersionedTextDocumentIdentifier"))
    I = p_edits.interp(db, UnitInterp)
    I.models.update(UNIT_MODELS)
    st = A.State()
    st.omem[T("fld", T("arg", "state"), "encoding")] = kind(u)
    R.n("documents")
    for o in I.call_fn(f, [T("arg", "state"), params], st, ()):
        if o.kind != "ret":
            continue
        R.n("paths")
        for e in flat(o.events):
            if e[0] == "call" and e[1] == "map:insert" and e[2][2][0] == "file":
                ix = file_parts(e[2][2])["index"]
                if ix[0] == "adt" and p_edits.ENC in ix[4]:
                    continue        # that of the old document
                R.n("obligations")
                got = unit_of(db, own, o.st, ix)
                if got != u:
                    R.v("opened", "%s: %s is agreed on, but positions in a new text are located in %s" % (where, u, got))


def points(f):
    """Functions that turn byte offsets into positions, or positions into byte offsets, with a line index."""
    ret_, a = f.local_ty(0)["s"], [f.local_ty(i)["s"] for i in range(1, f.argc + 1)]
    if "Index" not in a[0] or f.argc != 2:
        return None
    if "lsp_types::Range" in ret_ and ("Range<usize>" in a[1] or "Range<u32>" in a[1] or "LineCol" not in a[1] and "lsp_types" not in a[1] and not a[1].startswith(("&", "("))):
        return "range"
    if "lsp_types::Position" in ret_ and a[1] in ("usize", "u32"):
        return "position"
    if "lsp_types::Position" in a[1] and "usize" in ret_:
        return "offset"
    if "lsp_types::Range" in a[1] and ("TextRange" in ret_ or "Range<usize>" in ret_):
        return "bytes"
    return None


def convert(db, R, f, own, u):
    where = "%s (%s)" % (f.name, loc(f))
    I = interp(db)
    wide = A.NONE if UNITS[u] is None else None
    if wide is None:
        we = next(a for a in db.adts if a.endswith("::WideEncoding"))
        k = [v["name"] for v in db.variants(we)].index(UNITS[u])
        wide = some(("adt", we, k, UNITS[u], ()))
    L = T("arg", "lines")
    ix = ("adt", own, 0, db.variants(own)[0]["name"], tuple(wide if "WideEncoding" in t else L if t == "line_index::LineIndex" else T("arg", t) for t in types(db, own)))
    how = points(f)
    pos = lambda n: adt(db, "lsp_types::Position", line=T("arg", n + ".line"), character=T("arg", n + ".character"))
    back = lambda n: T("offset", L, adt(db, "line_index::LineCol", line=T("arg", n + ".line"), col=T("arg", n + ".character")) if UNITS[u] is None else
                       T("narrow", L, wide[4][0], adt(db, "line_index::WideLineCol", line=T("arg", n + ".line"), col=T("arg", n + ".character"))))

    def forth(n):
        lc = T("linecol", L, T("arg", n))
        if UNITS[u] is not None:
            lc = T("wide", L, wide[4][0], lc)
        return adt(db, "lsp_types::Position", line=T("fld", lc, "line"), character=T("fld", lc, "col"))
    if how == "range":
        arg = adt(db, "core::ops::range::Range", start=T("arg", "start"), end=T("arg", "end"))
        want = adt(db, "lsp_types::Range", start=forth("start"), end=forth("end"))
    elif how == "position":
        arg, want = T("arg", "at"), forth("at")
    elif how == "offset":
        arg, want = pos("at"), back("at")
    else:
        arg = adt(db, "lsp_types::Range", start=pos("start"), end=pos("end"))
        if "Option<" in f.local_ty(2)["s"]:
            arg = some(arg)
        want = ("tup", (back("start"), back("end")))
    R.n("conversions")
    for o in I.run(f, [ix, arg]):
        if o.kind != "ret":
            continue
        v = o.value
        if v[0] == "adt" and v[1] in (A.OPTION, A.RESULT):
            if not v[4] or v[3] == "Err":
                continue
            v = v[4][0]
        R.n("obligations")
        v = tidy(v)
        if v == want:
            continue
        bad = differs(v, want, o.st.facts, how, u)
        if bad is None:
            raise Undecided(show(v)[:200])
        if bad:
            R.v("convert:%s" % how, "%s: with %s the result is %s instead of %s, for example %s" % (where, u, show(v)[:200], show(want)[:200], bad))


SAMPLES = ("a\u00e9\U0001f600b\nc\u00e9d\n\n\U0001f600x", "abc\nde", "\u00e9\n")


class Outside(Exception):
    """The term has no value for this text."""


def width(t, u):
    return len(t.encode()) if u in (None, "utf-8") else len(t.encode("utf-16-le")) // 2 if u in ("Utf16", "utf-16") else len(t)


def valid(s, u):
    """(byte offset, line, column in the unit) of every place in a text"""
    line = start = 0
    for i in range(len(s) + 1):
        yield len(s[:i].encode()), line, width(s[start:i], u)
        if s[i:i + 1] == "\n":
            line, start = line + 1, i + 1


def differs(v, want, facts, how, u):
    """A text and places for which two terms differ by the contract of the line index ("": none; None: don't know)."""
    names = ("start", "end") if how in ("range", "bytes") else ("at",)
    known = None
    for s in SAMPLES:
        ps = list(valid(s, u))
        for a in ps:
            for b in ps if len(names) == 2 else [a]:
                if b[0] < a[0]:
                    continue
                env = {}
                for n, (o, l, c) in zip(names, (a, b)):
                    env.update({n: o, n + ".line": l, n + ".character": c})
                try:
                    if any(bool(value(c, env, s)) != bool(x) for c, x in facts.items()):
                        continue
                    if value(v, env, s) != value(want, env, s):
                        return "%s in %r" % (", ".join("%s = %s" % (n, x[0] if how in ("range", "position") else x[1:]) for n, x in zip(names, (a, b))), s)
                    known = ""
                except Outside:
                    pass
    return known


def value(v, env, s):
    v = tidy(v)
    if v[0] == "int":
        return v[1]
    if v[0] == "tup":
        return tuple(value(x, env, s) for x in v[1])
    if v[0] == "adt":
        return tuple(value(x, env, s) for x in v[4])
    if not is_t(v):
        raise Outside
    k, xs = v[1], v[2:]
    if k == "arg" and xs[0] in env:
        return env[xs[0]]
    if k == "fld" and xs[1] in ("line", "col", "character", "start", "end"):
        r = value(xs[0], env, s)
        if not isinstance(r, tuple) or len(r) != 2:
            raise Outside
        return r[0 if xs[1] in ("line", "start") else 1]
    if k in ("linecol", "offset"):
        x = value(xs[1], env, s)
        for o, l, c in valid(s, None):
            if k == "linecol" and o == x:
                return l, c
            if k == "offset" and (l, c) == x:
                return o
        raise Outside
    if k in ("wide", "narrow"):
        u, x = xs[1][3] if xs[1][0] == "adt" else None, value(xs[2], env, s)
        for (o, l, c), (_, l2, c2) in zip(valid(s, None), valid(s, u)):
            if k == "wide" and (l, c) == x:
                return l2, c2
            if k == "narrow" and (l2, c2) == x:
                return l, c
        raise Outside
    if k == "add":
        return sum(value(x, env, s) for x in xs)
    if k == "bin" and len(xs) == 3:
        a, b = value(xs[1], env, s), value(xs[2], env, s)
        f = {"Sub": lambda: a - b, "Add": lambda: a + b, "Mul": lambda: a * b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b,
             "Eq": lambda: a == b, "Ne": lambda: a != b}.get(xs[0])
        if f:
            return f()
    if k in ("eq", "ne", "lt", "le", "gt", "ge") and len(xs) == 2:
        a, b = value(xs[0], env, s), value(xs[1], env, s)
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k]
    raise Outside


def tidy(v):
    """Numbers without their conversions."""
    if not isinstance(v, tuple):
        return v
    v = tuple(tidy(x) for x in v)
    if is_t(v, "cast"):
        return next(x for x in v[2:] if isinstance(x, tuple) and x and x[0] in ("t", "int"))
    if is_t(v, "call") and len(v[3]) == 1 and str(v[2]).rsplit("::", 1)[-1] in ("into", "from", "try_into", "unwrap"):
        return v[3][0]
    return v
