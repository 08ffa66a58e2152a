"""M24: the server's copy of a document follows the editor."""
from rules.lsp import *
from rules import lsp
from rules.common import loc
from rules.trace import flat

CHANGE = "lsp_types::DidChangeTextDocumentParams"
OPEN = "lsp_types::DidOpenTextDocumentParams"
DELETE = "lsp_types::file_operations::DeleteFilesParams"
EVENT = "lsp_types::TextDocumentContentChangeEvent"
CONTENT, ENC = T("arg", "content"), T("arg", "encoding")
URI = T("arg", "uri")


def run(db, R):
    opened, changed, deleted = (handlers(db, p) for p in (OPEN, CHANGE, DELETE))
    for f in changed:
        for n in (1, 2, 3):
            change(db, R, f, n)
    for f in opened:
        open_(db, R, f)
    for f in deleted:
        delete(db, R, f)
    R.floor("messages", 5)
    R.floor("edits", 10)


def known(db):
    ix = adt(db, "mabo_lsp@bin::handlers::index::Index" if "mabo_lsp@bin::handlers::index::Index" in db.adts else "Index",
             index=T("lines", CONTENT), encoding=ENC)
    return ("file", (T("rope", CONTENT), ix, CONTENT, T("arg", "schema"), T("arg", "simplified")))


def interp(db, base=LspInterp):
    def lookup(I, fr, st, args, m, site, stack, tys):
        n = I.fname(m).rsplit("::", 1)[1]
        mp, key = I.deref_read(st, args[0]), plain(I.deref_read(st, args[1]))
        has = T("held", mp, key)
        outs = []
        s = st.fork()
        if I.assume(s, has, True):
            s.ev("call", "map:" + n, (mp, key), A.UNIT, site)
            outs.append(ret(some(known(db)), s))
        s = st.fork()
        if I.assume(s, has, False):
            outs.append(ret(A.NONE, s))
        return outs

    def insert(I, fr, st, args, m, site, stack, tys):
        st.ev("call", "map:insert", tuple(args_of(I, st, args)), A.UNIT, site)
        return T("old")

    def index(I, fr, st, args, m, site, stack, tys):
        mp, key = args_of(I, st, args)
        for e in reversed(st.events_list()):
            if e[0] == "call" and e[1] == "map:insert" and e[2][1] == key:
                return e[2][2]
        return known(db)

    def retain(I, fr, st, args, m, site, stack, tys):
        outs = []
        for o in I.call_value(fr, st, args[1], [T("arg", "key"), T("arg", "value")], site, stack):
            if o.kind == "ret":
                for b in (True, False):
                    s = o.st.fork()
                    if I.assume(s, o.value, b):
                        s.ev("call", "map:retain", (I.deref_read(s, args[0]), A.TRUE if b else A.FALSE), A.UNIT, site)
                        outs.append(ret(A.UNIT, s))
            else:
                outs.append(o)
        return outs
    hm = "std::collections::hash::map::HashMap::"
    ms = {hm + "get": lookup, hm + "get_mut": lookup, hm + "remove": lookup, hm + "insert": insert, hm + "retain": retain,
          "core::ops::index::Index::index": index}
    I = base(db, models=ms)
    base = M.MODELS.get("core::ops::index::Index::index")

    def ix(I, fr, st, args, m, site, stack, tys):
        if "HashMap<" in ((tys[0] or {}).get("s", "") if tys else ""):
            return index(I, fr, st, args, m, site, stack, tys)
        return base(I, fr, st, args, m, site, stack, tys) if base else NotImplemented
    I.models["core::ops::index::Index::index"] = ix
    return I


def outcomes(db, R, f, args):
    I = interp(db)
    R.saw(f)
    try:
        outs = I.run(f, args)
    except A.Unsupported as x:
        R.undec(f.name, str(x))
        return None, []
    for g in I.visited:
        if CRATE in g:
            R.saw(g)
    return I, outs


def document(db, name, **kw):
    return adt(db, name, uri=URI, **kw)


def change(db, R, f, n):
    where = "%s (%s)" % (f.name, loc(f))
    ch = [adt(db, EVENT, range=T("arg", "range%d" % i), text=T("arg", "text%d" % i)) for i in range(n)]
    params = adt(db, CHANGE, content_changes=("vec", tuple(ch)), text_document=document(db, "lsp_types::VersionedTextDocumentIdentifier"))
    R.n("messages")
    I, outs = outcomes(db, R, f, [T("arg", "state"), params])
    for o in outs:
        if o.kind == "panic":
            continue
        if o.kind != "ret":
            R.undec(f.name, o.kind)
            continue
        try:
            judge_change(db, R, f, where, I, o, n)
        except Undecided as x:
            R.undec("%s:%d" % (f.name, n), str(x))


def judge_change(db, R, f, where, I, o, n):
    ranged = []
    for i in range(n):
        x = o.st.refine.get(T("arg", "range%d" % i))
        ranged.append(None if x is None else x == 1)
    held = o.st.facts.get(T("held", T("fld", T("arg", "state"), "files"), URI))
    if held is False:
        return      # not a document of this server
    text = CONTENT
    for i in range(n):
        t = T("arg", "text%d" % i)
        if ranged[i] is None:
            if any(u == T("arg", "range%d" % i) or u == t for e in o.events for u in walk(e)):
                raise Undecided("change %d" % i)
            R.v("skipped", "%s: the server does not look at change %d of %d" % (where, i + 1, n))
            return
        if not ranged[i]:
            text = t
            continue
        R.n("edits")
        r = T("fld", T("arg", "range%d" % i), "Some", "0")
        rope = as_rope(text)
        L = T("lines", text)
        s, e = (offset(db, o.st, L, T("fld", r, w)) for w in ("start", "end"))
        if o.st.facts.get(T("lt", under(o.st.facts, sub(rope, e)), under(o.st.facts, sub(rope, s)))) is True:
            return      # a range that ends before it starts
        text = text_of(T("ins", T("cut", rope, sub(rope, s), sub(rope, e)), sub(rope, s), t))
    what = "%d changes (%s)" % (n, ", ".join("a range" if r else "the whole text" for r in ranged))
    stored(db, R, f, where, I, o, text, "after %s" % what, "text:" + ("one" if n == 1 else "several"))


def offset(db, st, L, p):
    line, ch = T("fld", p, "line"), T("fld", p, "character")
    e = st.refine.get(ENC)
    if e is None:
        raise Undecided("encoding of the document")
    if e == 0:
        return T("offset", L, adt(db, "line_index::LineCol", line=line, col=ch))
    return T("offset", L, T("narrow", L, T("fld", ENC, "Some", "0"), adt(db, "line_index::WideLineCol", line=line, col=ch)))


def stored(db, R, f, where, I, o, text, when, key):
    """The document that is kept, what was checked, and what was published."""
    R.n("paths")
    ev = list(flat(o.events))
    ins = [e for e in ev if e[0] == "call" and e[1] == "map:insert"]
    if not ins:
        if any(e[0] == "call" and e[1] == "map:get_mut" for e in ev):
            raise Undecided("a document changed in place")
        if not any(e[0] == "call" and e[1] == "map:get" for e in ev) or any(e[0] == "call" and e[1] == "map:remove" for e in ev):
            R.v("dropped", "%s: %s the document is no longer kept" % (where, when))
            return
        file = known(db)
    else:
        if plain(ins[-1][2][1]) != URI:
            R.v("uri", "%s: %s the document is kept under %s" % (where, when, show(ins[-1][2][1])[:80]))
        file = ins[-1][2][2]
    if file[0] != "file":
        raise Undecided("document %s" % show(file)[:80])
    p = file_parts(file)
    same = text
    if not ins:
        if under(o.st.facts, text) != CONTENT and o.st.facts.get(T("eq", *sorted((CONTENT, text), key=repr))) is not True and o.st.facts.get(T("eq", *sorted((CONTENT, text), key=repr)[::-1])) is not True:
            R.v("stale", "%s: %s a document with another text is kept" % (where, when))
            return
        same = CONTENT
    got = {"content": p["content"], "rope": text_of(p["rope"]), "index": lines(db, p["index"])}
    same = under(o.st.facts, same)
    for k, v in got.items():
        R.n("obligations")
        v = under(o.st.facts, v)
        if v != same:
            if not understood(v):
                raise Undecided("%s %s" % (k, show(v)[:120]))
            if alike(o.st.facts):
                raise Undecided("%s where two texts are found to be the same" % k)
            R.v("%s:%s" % (key, k), "%s: %s the %s of the document is %s instead of %s" % (where, when, NAMES[k], brief(v), brief(same)))
            return
    # the schema belongs to this text
    sch = p["schema"]
    if ins:
        R.n("obligations")
        calls = [e for e in ev if e[0] == "call" and isinstance(e[1], str) and any(g.name == e[1] and compiles(g) for g in db.fns.values())]
        mine = [e for e in calls if e[3] == sch]
        if not mine:
            raise Undecided("schema %s" % show(sch)[:80])
        a = mine[-1][2]
        if same not in [plain(x) for x in a]:
            R.v("schema", "%s: %s the schema is not that of the new text" % (where, when))
        for x in a:
            if x[0] == "adt" and x[1].endswith("::Index") and lines(db, x) != same:
                R.v("schema:index", "%s: %s problems are located with the lines of another text" % (where, when))
    sent_ = [e for e in ev if e[0] == "call" and e[1] == "send"]
    pubs = []
    for e in sent_:
        for u in walk(e[2]):
            if isinstance(u, tuple) and u and u[0] == "adt" and u[1].endswith("::PublishDiagnosticsParams"):
                pubs.append(u)
    R.n("obligations")
    if not pubs:
        R.v("silent", "%s: %s no diagnostics are published" % (where, when))
        return
    u = pubs[-1]
    if get(db, u, "uri") != URI:
        R.v("publish:uri", "%s: %s diagnostics are published for %s" % (where, when, show(get(db, u, "uri"))[:80]))
    d = get(db, u, "diagnostics")
    bad = o.st.refine.get(sch)
    if bad is None:
        raise Undecided("diagnostics published without a look at the schema")
    if bad == 0:
        if not (d == T("default") or d[0] in ("vec", "arr") and not d[1]):
            if d[0] in ("vec", "arr"):
                R.v("publish:stale", "%s: %s diagnostics are published for a valid text" % (where, when))
            else:
                raise Undecided("diagnostics %s" % show(d)[:80])
    else:
        want = T("fld", sch, "Err", "0")
        if d[0] in ("vec", "arr"):
            if [plain(x) for x in d[1]] != [want]:
                R.v("publish:diag", "%s: %s the problem found is not what is published" % (where, when))
        elif d == T("default"):
            R.v("publish:none", "%s: %s a problem is found but not published" % (where, when))
        else:
            raise Undecided("diagnostics %s" % show(d)[:80])


NAMES = {"content": "text", "rope": "editable text", "index": "line index"}


def lines(db, ix):
    if ix[0] != "adt":
        raise Undecided("index %s" % show(ix)[:80])
    for x in ix[4]:
        if is_t(x, "lines"):
            return x[2]
    raise Undecided("index %s" % show(ix)[:80])


def under(facts, v):
    """A text, without the removals of nothing and insertions of nothing that are known."""
    if not isinstance(v, tuple):
        return v
    v = tuple(under(facts, x) for x in v)
    if is_t(v, "cut"):
        pairs = [(v[3], v[4])]
        if is_t(v[3], "b2c") and is_t(v[4], "b2c"):
            pairs.append((v[3][3], v[4][3]))
        for s, e in pairs:
            if s == e or facts.get(T("lt", s, e)) is False or facts.get(T("eq", s, e)) is True or facts.get(T("eq", e, s)) is True:
                return v[2]
    if is_t(v, "ins") and (facts.get(T("eq", ("int", 0), T("len", v[4]))) is True or facts.get(T("eq", T("len", v[4]), ("int", 0))) is True
                           or facts.get(T("lt", ("int", 0), T("len", v[4]))) is False):
        return v[2]
    if is_t(v, "b2c"):
        return sub(v[2], v[3])
    if is_t(v, "text"):
        return text_of(v[2])
    return v


def alike(facts):
    """Is anything known to be equal that may be two texts?"""
    for c, b in facts.items():
        if b is True and is_t(c, "eq") and not any(x[0] in ("int", "str", "char") or is_t(x, "len", "offset", "b2c") or is_t(x, "call") and str(x[2]).rsplit("::", 1)[-1] in ("count", "len") for x in c[2:4]):
            return True
    return False


def understood(v):
    return not any(is_t(u) and u[1] not in ("rope", "cut", "ins", "text", "b2c", "offset", "lines", "narrow", "arg", "fld") for u in walk(v))


def brief(v):
    """A text as words."""
    if is_t(v, "text"):
        return brief(v[2])
    if is_t(v, "rope"):
        return brief(v[2])
    if is_t(v, "arg"):
        return {"content": "the old text"}.get(v[2], v[2])
    if is_t(v, "ins") and is_t(v[2], "cut"):
        pos = [u for u in walk(v[2][3]) if is_t(u, "offset")]
        idx = brief(pos[0][2][2]) if pos and is_t(pos[0][2], "lines") else "?"
        return "(%s, %s put in at a range found with the lines of %s)" % (brief(v[2][2]), brief(v[4]), idx)
    return show(v)[:160]


def open_(db, R, f):
    where = "%s (%s)" % (f.name, loc(f))
    text = T("arg", "text")
    params = adt(db, OPEN, text_document=document(db, "lsp_types::TextDocumentItem", text=text))
    R.n("messages")
    I, outs = outcomes(db, R, f, [T("arg", "state"), params])
    for o in outs:
        if o.kind != "ret":
            continue
        try:
            stored(db, R, f, where, I, o, text, "after a document was opened", "open")
        except Undecided as x:
            R.undec(f.name, str(x))


def delete(db, R, f):
    where = "%s (%s)" % (f.name, loc(f))
    uris = [T("arg", "deleted%d" % i) for i in (0, 1)]
    params = adt(db, DELETE, files=("vec", tuple(adt(db, "lsp_types::file_operations::FileDelete", uri=u) for u in uris)))
    R.n("messages")
    I, outs = outcomes(db, R, f, [T("arg", "state"), params])
    for o in outs:
        if o.kind != "ret":
            continue
        ev = [e for e in flat(o.events) if e[0] == "call" and e[1] == "map:retain"]
        if len(ev) != 1:
            R.undec(f.name, "%d retains" % len(ev))
            continue
        R.n("obligations")
        eq = [b for t, b in o.st.facts.items() if is_t(t, "eq") and any(u in walk(t) for u in uris)]
        if True in eq and ev[0][2][1] == A.TRUE:
            R.v("delete:kept", "%s: a deleted document is kept" % where)
        near = [t[2] for t, b in o.st.facts.items() if is_t(t, "call") and str(t[2]).rsplit("::", 1)[-1] in ("starts_with", "ends_with", "contains") and b and any(u in walk(t) for u in uris)]
        if near and True not in eq and ev[0][2][1] == A.FALSE:
            R.v("delete:lost", "%s: a document is dropped whose name only %s that of a deleted one" % (where, near[0].rsplit("::", 1)[-1].replace("_", " ")))
        if eq.count(False) == 2 and ev[0][2][1] == A.FALSE:
            R.v("delete:lost", "%s: a document that was not deleted is dropped" % where)
