"""M27: the highlighting the server sends."""
from rules.docs import *
from rules.common import loc


def run(db, R):
    types, mods = legend(db)
    for f in handlers(db, "lsp_types::SemanticTokensParams") or handlers(db, "lsp_types::semantic_tokens::SemanticTokensParams"):
        R.saw(f)
        each(db, R, documents(db), lambda r, c: judge(db, r, f, types, mods, *c), None)
    R.floor("documents", 200)
    R.floor("tokens", 2000)


def legend(db):
    """The names of token types and modifiers that are announced."""
    from rules import p_units
    for f in handlers(db, "lsp_types::InitializeParams"):
        params = adt(db, "lsp_types::InitializeParams", workspace_folders=some(("vec", ())))
        for o in p_units.interp(db).run(f, [T("arg", "state"), params]):
            for u in walk(o.value) if o.kind == "ret" else ():
                if isinstance(u, tuple) and u and u[0] == "adt" and u[1].endswith("::SemanticTokensLegend"):
                    r = []
                    for w in ("token_types", "token_modifiers"):
                        l = plain(get(db, u, w))
                        while is_t(l, "call"):
                            l = l[3][0]
                        if l[0] not in ("vec", "arr") or any(named(x) is None for x in l[1]):
                            raise Undecided("legend %s" % show(l)[:100])
                        r.append([named(x) for x in l[1]])
                    return r
    raise Undecided("the announced token types")


def judge(db, R, f, types, mods, label, doc, tree):
    asked = answer(db, R, f, types, mods, label, doc, tree)
    for pair in sorted(p for p in asked if p[0] > 0)[:4]:
        answer(db, R, f, types, mods, label + ", with two elements of different lines at the same column", doc, tree, pair)


def laid_out(pair):
    def make(*a, **k):
        I = DocInterp(*a, **k)
        I.world = pair
        return I
    return make


def answer(db, R, f, types, mods, label, doc, tree, pair=None):
    where = "%s (%s), %s" % (f.name, loc(f), label)
    p = next(t for t in ("lsp_types::semantic_tokens::SemanticTokensParams", "lsp_types::SemanticTokensParams") if t in db.adts)
    I, outs = ask(db, f, doc, known_file(db, tree), adt(db, p, text_document=text_document(db)), interp=laid_out(pair))
    R.n("documents")
    want = {}
    for e in elements(db, tree):
        want[e[:2]] = e[2:]
    for g in I.visited:
        if CRATE in g:
            R.saw(g)
    for o in outs:
        if o.st.facts or any(True for _ in ()):
            raise Undecided("a condition that is not understood: %s" % show(next(iter(o.st.facts)))[:120])
        if o.kind == "panic":
            R.v("panic", "%s: the server panics" % where)
            continue
        if o.kind != "ret":
            raise Undecided(o.kind)
        v = o.value
        if v[0] == "adt" and v[3] == "Err":
            R.v("fails", "%s: the request fails" % where)
            continue
        data = [get(db, u, "data") for u in walk(v) if isinstance(u, tuple) and u and u[0] == "adt" and u[1].endswith("::SemanticTokens")]
        if not data:
            if v[0] == "adt" and v[4] and v[4][0] == A.NONE:
                R.v("none", "%s: no tokens are sent" % where)
                continue
            raise Undecided("answer %s" % show(v)[:100])
        compare(db, R, where, doc, data[0], types, mods, want)
    return getattr(I, "asked", set())


def compare(db, R, where, doc, data, types, mods, want):
    if data[0] not in ("vec", "arr") or any(x[0] != "adt" for x in data[1]):
        raise Undecided("tokens %s" % show(data)[:100])
    line, col, last, found = 0, {}, 0, set()
    for k, t in enumerate(data[1]):
        R.n("tokens")
        dl, ds, ln = (linear(get(db, t, w)) for w in ("delta_line", "delta_start", "length"))
        ty, ms = get(db, t, "token_type"), get(db, t, "token_modifiers_bitset")
        if None in (dl, ds, ln) or set(dl) - {None} or ty[0] != "int" or ms[0] != "int":
            raise Undecided("token %s" % show(t)[:160])
        dl = dl.get(None, 0)
        if dl < 0:
            R.v("order", "%s: token %d starts %d lines above the one before" % (where, k + 1, -dl))
            return
        line += dl
        col = plus(col, ds, 1) if dl == 0 else ds
        i, j = only(col), only(plus(col, ln, 1))
        if i is None or j is None or doc.line(i) != line or (i, j) not in want:
            what = "between the %s and the %s of other elements" % (i, j) if i is not None and j is not None else "not at an element"
            R.v("span", "%s: token %d is %s (line %d, from %s, length %s)" % (where, k + 1, "not the whole of one element" if i is not None and doc.line(i) == line else "misplaced", line, words(col), words(ln)))
            return
        el, tt, mm, _ = want[(i, j)]
        if i < last:
            R.v("order", "%s: %s comes after an element that follows it" % (where, el))
            return
        if (i, j) in found:
            R.v("order", "%s: %s comes twice" % (where, el))
            return
        last = j
        found.add((i, j))
        R.n("obligations", 2)
        got = types[ty[1]] if 0 <= ty[1] < len(types) else "none of the announced types"
        if tt is not None and got != tt:
            R.v("type:%s" % el, "%s: the %s is highlighted as %s instead of %s" % (where, el, got, tt))
        gm = frozenset(mods[b] if b < len(mods) else "unknown" for b in range(32) if ms[1] >> b & 1)
        if tt is not None and gm != mm:
            R.v("modifiers:%s" % el, "%s: the %s has the modifiers %s instead of %s" % (where, el, sorted(gm), sorted(mm)))
    for k, e in want.items():
        if e[3]:
            R.n("obligations")
            if k not in found:
                R.v("missing:%s" % e[0], "%s: the %s is not highlighted" % (where, e[0]))


def words(d):
    return " + ".join("%s%s" % ("" if n == 1 else "%d * " % n if k is not None else n, "" if k is None else "column %d" % k) for k, n in sorted(d.items(), key=str)) or "0"
