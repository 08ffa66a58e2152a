"""M29: what the server says about the element under the cursor."""
from rules.docs import *
from rules.p_symbols import settled, items, pieces, read, span, absent
from rules import parsing
from rules.common import loc

WORDS = {"Module": "module", "Struct": "struct", "Enum": "enum", "Variant": "variant", "NamedField": "field", "TypeAlias": "alias", "Const": "constant"}


def run(db, R):
    simplify = [g for g in db.fns.values() if g.crate.name == "mabo_compiler" and g.kind == "Fn" and g.argc == 1
                and g.local_ty(1)["s"].lstrip("&'a ").startswith("mabo_parser::Schema<") and "simplify::Schema<" in g.local_ty(0)["s"] and "Result" not in g.local_ty(0)["s"]]
    if len(simplify) < 1:
        R.undec("hover", "the simplification of a schema is not found")
        return
    # the one that others call
    simplify = min(simplify, key=lambda g: g.name)
    for f in handlers(db, kind_of(db)):
        R.saw(f)
        cases = [(l, d, value(d.schema(defs, c))) for l, defs, c in list(parsing.definitions()) + list(parsing.pairs()) for d in [Doc(db)]]
        each(db, R, cases, lambda r, c: judge(db, r, f, simplify, *c), None)
        absent(db, R, f, params(db), opaque, models(db))
    R.floor("documents", 80)
    R.floor("places", 2000)


def kind_of(db):
    return next(t for t in db.adts if t.startswith("lsp_types::") and t.endswith("::HoverParams"))


def params(db):
    return adt(db, kind_of(db), text_document_position_params=adt(db, "lsp_types::TextDocumentPositionParams", text_document=text_document(db)))


def opaque(g):
    return g.crate.name not in (CRATE, "mabo_parser") or compiles(g)


class HoverInterp(DocInterp):
    """Places: inside of item k of the text."""

    def lt(self, a, b):
        a, b = bare(a), bare(b)
        if is_t(a, "at", "place") and is_t(b, "at", "place"):
            if a[1] != b[1]:
                return A.TRUE if (a[2] < b[2] if a[1] == "place" else a[2] <= b[2]) else A.FALSE
            if a[1] == "at":
                return A.TRUE if a[2] < b[2] else A.FALSE
        return super().lt(a, b)


def bare(v):
    while is_t(v, "cast"):
        v = next(x for x in v[2:] if is_t(x))
    return v


def models(db, k=None, known=True):
    """k: the cursor is inside of item k, or T("at", k) at the start of it"""
    def contains(I, fr, st, args, m, site, stack, tys):
        r, x = I.deref_read(st, args[0]), bare(plain(I.deref_read(st, args[1])))
        if r[0] != "adt" or len(r[4]) < 2 or not is_t(x, "place", "at"):
            return NotImplemented
        a, b = bare(r[4][0]), bare(r[4][1])
        if not (is_t(a, "at") and is_t(b, "at")):
            return NotImplemented
        end = b[2] > x[2] or x[1] == "at" and "RangeInclusive" in r[1] and b[2] == x[2]
        return A.TRUE if a[2] <= x[2] and end else A.FALSE
    ms = {"line_index::LineIndex::offset": lambda I, fr, st, args, m, site, stack, tys: some(k if isinstance(k, tuple) else T("place", k))}
    for n in ("core::ops::range::Range::contains", "core::ops::range::RangeBounds::contains", "core::ops::RangeBounds::contains", "core::ops::Range::contains"):
        ms[n] = contains

    def prints(I, fr, st, args, m, site, stack, tys):
        w = args[1]
        M.push_pieces(I, fr, st, w, [("ph", "size", I.deref_read(st, args[0]))], site)
        return A.UNIT
    def meta(I, fr, st, args, m, site, stack, tys):
        if not known:
            return A.NONE
        v = I.deref_read(st, args[0])
        if v[0] in ("vec", "arr") and all(x[0] == "adt" and x[1].endswith("simplify::Variant") for x in v[1]):
            return some(T("next", tuple(fields(db, x)["source"] for x in v[1])))
        if v[0] == "adt" and v[1].endswith("simplify::Fields"):
            return some(T("next", fields(db, v)["source"]))
        if v[0] == "adt" and v[1].endswith("simplify::Type"):
            return some(T("size", v))
        raise Undecided("what is asked about %s" % show(v)[:100])
    for g in db.fns.values():
        if g.crate.name == "mabo_meta" and g.kind == "Fn" and g.argc == 1 and g.local_ty(0)["s"].startswith("core::option::Option<"):
            ms[g.name] = meta
        if g.crate.name == "mabo_meta" and g.argc == 3 and g.local_ty(2)["s"].startswith("&mut ") and g.kind == "AssocFn" and g.local_ty(0)["s"] == "()":
            ms[g.name] = prints
    return ms


def named_elements(db, v):
    """(kind, node) of all elements whose name can be pointed at."""
    n = short(v)
    f = fields(db, v)
    if n == "Definition":
        yield from named_elements(db, v[4][0])
        return
    if n == "Import":
        return
    yield n, v
    below = []
    if n == "Module":
        below = f["definitions"][1]
    elif n == "Enum":
        below = items(f["variants"])
    elif n in ("Struct", "Variant") and f["fields"][3] == "Named":
        below = items(f["fields"][4][1])
    for x in below:
        yield from named_elements(db, x)


def judge(db, R, f, simplify, label, doc, tree):
    I = HoverInterp(db, doc, opaque=lambda g: g.crate.name not in (CRATE, "mabo_parser", "mabo_compiler"))
    outs = I.run(simplify, [tree])
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Undecided("the simplified form")
    simple = outs[0].value
    R.n("documents")
    R.saw(simplify)
    els = [e for x in fields(db, tree)["definitions"][1] for e in named_elements(db, x)]
    spans = [(span_of(db, fields(db, v)["name"]), n, v) for n, v in els]
    ends = {b for s, _, _ in spans for b in s}
    for k in range(len(doc.items)):
        here = next(((s, n, v) for s, n, v in spans if s[0] <= k < s[1]), None)
        if ", then " in label and here is None and k not in ends and k + 1 not in ends:
            continue
        R.n("places")
        for known in (True, False) if here else (True,):
            one(db, R, f, label, doc, tree, simple, k, here, known)
        if k in ends or k - 1 in ends or here is None:
            one(db, R, f, label, doc, tree, simple, T("at", k), here, True)


def one(db, R, f, label, doc, tree, simple, k, here, known):
    at = "on the name of the %s %s" % (WORDS[here[1]], show(fields(db, fields(db, here[2])["name"])["value"])) if here else "behind piece %d, on no name" % k if not isinstance(k, tuple) else "at the start of piece %d, on no name" % k[2]
    where = "%s (%s), %s, %s" % (f.name, loc(f), label, at)
    I, outs = ask(db, f, doc, known_file(db, tree, simple), params(db), opaque, models(db, k, known), HoverInterp)
    for g in I.visited:
        if CRATE in g:
            R.saw(g)
    for o in outs:
        flags = {flag(c): b for c, b in o.st.facts.items() if flag(c)}
        o.st.facts = {c: b for c, b in o.st.facts.items() if flag(c) is None}
        for o in settled(R, where, [o]):
            v = o.value
            while v[0] == "adt" and v[3] in ("Ok", "Some") and len(v[4]) == 1:
                v = v[4][0]
            what = WORDS[here[1]] if here else "none"
            if v == A.NONE:
                if here:
                    R.n("obligations")
                    R.v("none:%s" % what, "%s: nothing is shown" % where)
                continue
            R.n("obligations", 3)
            c, r = get(db, v, "contents"), get(db, v, "range")
            if not here:
                R.v("extra", "%s: something is shown" % where)
                continue
            if r == A.NONE or r[0] == "adt" and r[1] == A.OPTION and span(db, doc, r[4][0]) != here[0]:
                R.v("range:%s" % what, "%s: the answer is about %s instead of the name at %s" % (where, "no range" if r == A.NONE else span(db, doc, r[4][0]), here[0]))
            if c[0] != "adt" or c[3] != "Markup":
                raise Undecided("contents %s" % show(c)[:100])
            m = get(db, c[4][0], "kind")
            if m[0] == "adt" and m[3] != "Markdown":
                R.v("markup", "%s: the text is announced as %s" % (where, m[3]))
            text(db, R, where, what, here[2], simple, pieces_of(get(db, c[4][0], "value")), flags, known)


def pieces_of(v):
    out = []
    for p in pieces(v):
        if p[0] == "ph" and p[2] == T("text", ()):
            continue
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


def flag(c):
    return c[3] if is_t(c, "fld") and c[3] in ("show_next_id", "show_wire_size") else None


def text(db, R, where, what, node, simple, got, flags, known):
    f = fields(db, node)
    lines = ()
    for c in f["comment"][4][0][1]:
        lines += (("ph", "display", fields(db, c)["value"]), ("lit", "\n"))
    option = {"struct": "show_next_id", "enum": "show_next_id", "variant": "show_next_id", "field": "show_wire_size"}.get(what)
    for on in ((True, False) if option not in flags else (flags[option],)) if option else (False,):
        want = pieces_of(("sbuf", lines + (info(db, what, node, simple, known) if on else ())))
        if want != got:
            if any(is_t(u, "opaque", "call") for u in walk(got)):
                raise Undecided("text %s" % read(got)[:100])
            plain_ = pieces_of(("sbuf", lines))
            key = "comment" if got[:len(plain_) - 1] != plain_[:-1] else {"field": "size"}.get(what, "next id") if option else "comment"
            R.v("%s:%s" % (key, what), "%s%s%s: the text is %r instead of %r" % (
                where, ", %s %s" % (option, "on" if on else "off") if option else "", "" if known or not on else ", nothing known", read(got), read(want)))


def info(db, what, node, simple, known):
    """What comes behind the comment."""
    own = fields(db, node)
    if what == "field":
        ty = [fields(db, u)["ty"] for u in walk(simple) if isinstance(u, tuple) and len(u) == 5 and u[0] == "adt" and u[1].endswith("simplify::Field")
              and any(x == node for x in walk(fields(db, u)["source"]))]
        if len(ty) != 1:
            raise Undecided("the simplified form of the field")
        return (("lit", "### Wire size\n\n"), ("ph", "size", T("size", ty[0])) if known else ("lit", "_unknown_"))
    if not known:
        return ()
    of = tuple(items(own["variants"])) if what == "enum" else own["fields"]
    return (("lit", "- next ID: `"), ("ph", "display", T("next", of)), ("lit", "`\n"))
