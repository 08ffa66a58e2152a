"""M28: the outline of a document."""
from rules.docs import *
from rules.common import loc

KINDS = {"Module": 2, "Struct": 23, "Enum": 10, "Variant": 22, "NamedField": 7, "UnnamedField": 7, "TypeAlias": 13, "Const": 14, "Import": 1}
WORDS = {"Module": "module", "Struct": "struct", "Enum": "enum", "Variant": "variant", "NamedField": "field", "UnnamedField": "unnamed field", "TypeAlias": "alias", "Const": "constant", "Import": "import"}
KIND_WORDS = {1: "file", 2: "module", 3: "namespace", 5: "class", 6: "method", 7: "property", 8: "field", 10: "enum", 13: "variable", 14: "constant", 22: "enum member", 23: "struct"}


def run(db, R):
    for f in handlers(db, kind_of(db)):
        R.saw(f)
        each(db, R, documents(db), lambda r, c: judge(db, r, f, *c), None)
        absent(db, R, f, adt(db, kind_of(db), text_document=text_document(db)))
    R.floor("documents", 200)
    R.floor("entries", 400)


def kind_of(db):
    return next(t for t in ("lsp_types::document_symbols::DocumentSymbolParams", "lsp_types::DocumentSymbolParams") if t in db.adts)


def entry(kind, name, at, children=()):
    return (kind, name, at, tuple(children))


def outline(db, v):
    """What the outline of a definition is: (kind, pieces of the name, (start, end), entries below it)."""
    n = short(v)
    f = fields(db, v)
    if n == "Definition":
        return outline(db, v[4][0])
    if n == "Import":
        names = list(f["segments"][1])
        el = f["element"]
        if el != A.NONE:
            names.append(el[4][0][1][1])
        text = []
        for x in names:
            text += ([("lit", "::")] if text else []) + [("ph", "display", fields(db, x)["value"])]
        return entry(n, tuple(text), (span_of(db, names[0])[0], span_of(db, names[-1])[1]))
    below = ()
    if n == "Module":
        below = [outline(db, x) for x in f["definitions"][1]]
    elif n == "Enum":
        below = [outline(db, x) for x in items(f["variants"])]
    elif n in ("Struct", "Variant"):
        fs = f["fields"]
        if fs[3] == "Named":
            below = [outline(db, x) for x in items(fs[4][1])]
        elif fs[3] == "Unnamed":
            below = [entry("UnnamedField", (("lit", str(i)),), span_of(db, x)) for i, x in enumerate(items(fs[4][1]))]
    name = f["name"]
    return entry(n, (("ph", "display", fields(db, name)["value"]),), span_of(db, name), below)


def items(v):
    """The elements of a list with separators."""
    if v[0] == "vec":
        return list(v[1])
    return [x[1][0] for x in v[4][0][1]] + [v[4][1][1][0]]


def pieces(v):
    """A text as pieces; numbers as their digits."""
    v = plain(v)
    if v[0] == "str":
        return (("lit", v[1]),)
    if v[0] != "sbuf":
        return (("ph", "display", v),)
    out = []
    for p in v[1]:
        if p[0] == "ph" and p[2][0] == "int":
            p = ("lit", str(p[2][1]))
        elif p[0] == "ph" and p[2][0] in ("str", "sbuf"):
            out += pieces(p[2])
            continue
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out)


def read(ps):
    return "".join(p[1] if p[0] == "lit" else "<%s>" % show(p[2]) for p in ps)


def place(db, doc, v):
    """A position of the protocol as a place in the text."""
    l, c = linear(get(db, v, "line")), linear(get(db, v, "character"))
    if l is None or c is None or set(l) - {None}:
        raise Undecided("position %s" % show(v)[:100])
    i = only(c)
    return i if i is not None and l.get(None, 0) == doc.line(i) else None


def span(db, doc, v):
    if v[0] != "adt":
        raise Undecided("range %s" % show(v)[:100])
    return place(db, doc, get(db, v, "start")), place(db, doc, get(db, v, "end"))


def unwrap(v):
    """The list in an answer: None if there is none, Undecided if it is not understood."""
    while v[0] == "adt" and len(v[4]) == 1 and v[3] in ("Ok", "Some", "Nested", "Flat"):
        v = v[4][0]
    if v == A.NONE:
        return None
    while is_t(v, "call") and len(v[3]) == 1:
        v = v[3][0]
    if v[0] not in ("vec", "arr"):
        raise Undecided("answer %s" % show(v)[:100])
    return v[1]


def judge(db, R, f, label, doc, tree):
    where = "%s (%s), %s" % (f.name, loc(f), label)
    I, outs = ask(db, f, doc, known_file(db, tree), adt(db, kind_of(db), text_document=text_document(db)))
    R.n("documents")
    want = [outline(db, x) for x in fields(db, tree)["definitions"][1]]
    for g in I.visited:
        if CRATE in g:
            R.saw(g)
    for o in settled(R, where, outs):
        v = unwrap(o.value)
        if v is None:
            R.v("none", "%s: no outline is sent" % where)
            continue
        compare(db, R, where, doc, v, want)


def settled(R, where, outs):
    """The outcomes that are answers."""
    for o in outs:
        if o.st.facts:
            raise Undecided("a condition that is not understood: %s" % show(next(iter(o.st.facts)))[:120])
        if o.kind == "panic":
            R.v("panic", "%s: the server panics" % where)
        elif o.kind != "ret":
            raise Undecided(o.kind)
        elif o.value[0] == "adt" and o.value[3] == "Err":
            R.v("fails", "%s: the request fails" % where)
        else:
            yield o


def compare(db, R, where, doc, got, want, inside=""):
    for k, w in enumerate(want):
        kind, name, at, below = w
        what = WORDS[kind]
        R.n("entries")
        R.n("obligations", 5)
        if k >= len(got):
            R.v("missing:%s" % what, "%s: the %s %s%s is not in the outline" % (where, what, read(name), inside))
            continue
        g = got[k]
        if g[0] != "adt":
            raise Undecided("entry %s" % show(g)[:100])
        n = pieces(get(db, g, "name"))
        if n != name:
            if any(is_t(u, "call", "opaque") for u in walk(get(db, g, "name"))):
                raise Undecided("name %s" % show(get(db, g, "name"))[:100])
            R.v("name:%s" % what, "%s: the entry of the %s %s%s is called %s" % (where, what, read(name), inside, read(n)))
        sk = get(db, g, "kind")
        sk = sk[4][0] if sk[0] == "adt" and len(sk[4]) == 1 else sk
        if sk[0] != "int":
            raise Undecided("kind %s" % show(sk)[:100])
        if sk[1] != KINDS[kind]:
            R.v("kind:%s" % what, "%s: the %s is shown as %s instead of %s" % (where, what, KIND_WORDS.get(sk[1], "kind %d" % sk[1]), KIND_WORDS[KINDS[kind]]))
        for field in ("range", "selection_range"):
            if span(db, doc, get(db, g, field)) != at:
                R.v("%s:%s" % (field, what), "%s: the %s of the %s %s is %s instead of that of its name, %s" % (where, field.replace("_", " "), what, read(name), span(db, doc, get(db, g, field)), at))
        c = get(db, g, "children")
        c = () if c == A.NONE else unwrap(c)
        compare(db, R, where, doc, c, below, " in the %s %s" % (what, read(name)))
    if len(got) > len(want):
        R.v("extra", "%s: the outline has %d entries too many%s" % (where, len(got) - len(want), inside))


def absent(db, R, f, params, opaque=None, models=None):
    """Documents that are not known or have problems are answered as well."""
    p = ("adt", "lsp_types::Diagnostic", 0, "Diagnostic", ())
    bad = T("arg", "diagnostic")
    err = ("adt", A.RESULT, 1, "Err", (bad,))
    for what, file in (("an unknown document", None), ("a document with problems", ("file", (T("arg", "rope"), T("arg", "index"), T("arg", "content"), err, err)))):
        where = "%s (%s), %s" % (f.name, loc(f), what)
        R.n("documents")
        try:
            for o in settled(R, where, ask(db, f, None, file, params, opaque, models)[1]):
                pass
        except (A.Unsupported, Undecided) as x:
            R.undec(where, str(x)[:200])
