"""M30: the problems the server publishes about a document."""
from rules.docs import *
from rules.p_symbols import pieces, span, read
from rules.common import loc

RANGE = "core::ops::range::Range"


class Lines:
    """Every place is on a line of its own."""

    def line(self, i):
        return i


class Errors:
    """Values of error types, with every place in them a different one."""

    def __init__(self, db):
        self.db, self.n = db, 0

    def at(self):
        self.n += 1
        return T("at", self.n)

    def of(self, crate, i, path, spare):
        """(value, [(what, value) from the outside to the inside], [place or range, outermost first]) for each way to make a value of a type"""
        t = crate.ty(i)
        while t["s"].startswith("alloc::boxed::Box<"):
            t = crate.ty(t["args"][0])
        if t["s"] == "usize":
            p = self.at()
            yield p, [], []
            return
        if t.get("adt") == RANGE:
            yield ("adt", RANGE, 0, "Range", (self.at(), self.at())), [], []
            return
        a = t.get("adt")
        if a is None or not a.startswith(("mabo_parser::", "mabo_compiler::validate::")) or not self.db.variants(a) or a.endswith("::Id"):
            yield T("arg", "%s#%d" % (t["s"], self.n)), [], []
            return
        yield from self.error(a, path, spare)

    def error(self, a, path, spare):
        again = path.count(a)
        if again > 1:
            return
        ad = self.db.adts[a]
        for k, v in enumerate(self.db.variants(a)):
            if again and k:
                return
            fs = v["fields"]
            inner = [j for j, f in enumerate(fs) if self.is_error(ad["crate"], f[1])]
            outs = [([], None)]
            for j, f in enumerate(fs):
                subs = None if j not in inner else list(self.of(ad["crate"], f[1], path + (a,), spare))
                if subs is not None:
                    outs = [(xs + [s[0]], s) for xs, o in outs for s in subs]
                else:
                    outs = [(xs + [next(self.of(ad["crate"], f[1], path, spare))[0]], o) for xs, o in outs]
            for xs, o in outs:
                val = ("adt", a, k, v["name"], tuple(xs))
                # the number of this error: a value may look like another one
                places = [("at" if f[0] == "0" else f[0], x) for f, x in zip(fs, xs) if is_t(x, "at") and self.usize(ad["crate"], f[1]) or x[0] == "adt" and x[1] == RANGE]
                yield val, [(a, v["name"], val)] + (o[1] if o else []), [places] + (o[2] if o else [])

    def usize(self, crate, i):
        return crate.ty(i)["s"] == "usize"

    def is_error(self, crate, i):
        t = crate.ty(i)
        while t["s"].startswith("alloc::boxed::Box<"):
            t = crate.ty(t["args"][0])
        a = t.get("adt") or ""
        return a.startswith(("mabo_parser::", "mabo_compiler::validate::")) and ("Error" in a or "Cause" in a or "::validate::" in a)


def result_errors(db, f):
    """The error types of a function."""
    t = f.crate.ty(f.fn["locals"][0]) if False else f.local_ty(0)
    return t


def run(db, R):
    for f in db.fns.values():
        if not compiles(f):
            continue
        R.saw(f)
        parse = "mabo_parser::error::ParseSchemaError"
        check = "mabo_compiler::validate::Error"
        for a in (parse, check):
            if a not in db.adts:
                R.undec(a, "the type of errors is not found")
                return
        cases = []
        for a in (parse, check):
            for val, path, places in Errors(db).error(a, (), None):
                cases.append(("::".join([p[0].rsplit("::", 1)[1] if i == 0 else p[1] for i, p in enumerate(path)]), a == parse, val, path, places))
        each(db, R, cases, lambda r, c: judge(db, r, f, *c), None)
        fine(db, R, f)
    R.floor("errors", 60)


def outcomes(db, f, parsed, checked):
    ms = {}
    for g in db.fns.values():
        if g.crate.name == "mabo_parser" and g.kind == "AssocFn" and "ParseSchemaError" in g.local_ty(0)["s"] and g.local_ty(0)["s"].startswith("core::result::Result<"):
            ms[g.name] = lambda I, fr, st, args, m, site, stack, tys: parsed
        if g.crate.name == "mabo_compiler" and g.kind == "Fn" and g.local_ty(0)["s"] == "core::result::Result<(), mabo_compiler::validate::Error>":
            ms[g.name] = lambda I, fr, st, args, m, site, stack, tys: checked
    I = ProblemInterp(db, Lines(), opaque=lambda g: g.crate.name != CRATE, models=ms)
    args = []
    for i in range(1, f.argc + 1):
        t = f.local_ty(i)["s"]
        args.append(known_index(db) if "Index" in t else T("arg", "uri") if "Uri" in t else T("arg", "text"))
    return I, I.run(f, args)


LSP = "lsp_types::"


def made(ty, *names):
    def h(I, fr, st, args, m, site, stack, tys):
        d = dict(zip(names, (I.deref_read(st, a) for a in args)))
        return adt(I.db, LSP + ty, **{f[0]: plain(d[f[0]]) if f[0] in d else A.NONE for f in I.db.variants(LSP + ty)[0]["fields"]})
    return h


MADE = {LSP + "Diagnostic::new_simple": made("Diagnostic", "range", "message"),
        LSP + "Diagnostic::new": made("Diagnostic", "range", "severity", "code", "source", "message", "related_information", "tags"),
        LSP + "Diagnostic::new_with_code_number": made("Diagnostic", "range", "severity", "code", "source", "message"),
        LSP + "Location::new": made("Location", "uri", "range")}


class ProblemInterp(DocInterp):
    def __init__(self, db, doc, opaque=None, models=None):
        from rules import p_units
        ms = {k: v for k, v in p_units.UNIT_MODELS.items() if "contains" not in k}
        ms.update(MADE)
        ms.update(models or {})
        super().__init__(db, doc, opaque, ms)
        # the functions below the one that compiles are looked into
        self.opaque = lambda g: g.crate.name != CRATE or "ouroboros" in g.id


def known_index(db):
    from rules import p_units
    own = p_units.index_type(db)
    return ("adt", own, 0, db.variants(own)[0]["name"], tuple(A.NONE if "WideEncoding" in t else T("arg", "lines") for t in p_units.types(db, own)))


def fine(db, R, f):
    where = "%s (%s), a document without problems" % (f.name, loc(f))
    tree = T("arg", "tree")
    try:
        I, outs = outcomes(db, f, ok(tree), ok(A.UNIT))
        for o in outs:
            R.n("obligations")
            if o.kind == "panic":
                R.v("panic:fine", "%s: the server panics" % where)
            elif o.kind != "ret" or o.st.facts:
                raise Undecided("outcome %s" % o.kind)
            elif o.value != ok(tree):
                R.v("fine", "%s: the result is %s" % (where, show(o.value)[:200]))
    except (A.Unsupported, Undecided) as x:
        R.undec(where, str(x)[:200])


def texts(v):
    """The values whose printed form a text consists of."""
    for p in pieces(v):
        if p[0] == "ph":
            x = p[2]
            while is_t(x, "call", "fmt", "text") and len(x) > 3 and isinstance(x[3], tuple) and len(x[3]) == 1:
                x = x[3][0]
            yield x
        else:
            yield p


def bare(v):
    v = plain(v)
    while is_t(v, "from", "into"):
        v = plain(v[2])
    return v


def judge(db, R, f, label, parsing, val, path, places):
    where = "%s (%s), %s" % (f.name, loc(f), label)
    leaf = "%s::%s" % (path[-1][0].rsplit("::", 2)[-2] if path[-1][0].endswith("Cause") else path[-1][0].rsplit("::", 1)[1], path[-1][1])
    err = ("adt", A.RESULT, 1, "Err", (val,))
    I, outs = outcomes(db, f, err if parsing else ok(T("arg", "tree")), ok(A.UNIT) if parsing else err)
    R.n("errors")
    for g in I.visited:
        if CRATE in g:
            R.saw(g)
    flat = [p for ps in places for p in ps]
    d = dict(places[-1])
    doc = Lines()

    def sp(x):
        return (x[2], x[2]) if is_t(x, "at") else tuple(y[2] for y in x[4])
    if "first" in d and "second" in d:
        good, related = [sp(d["second"])], sp(d["first"])
    else:
        related = None
        inner = next(ps for ps in reversed(places) if ps)
        good = [sp(x) for _, x in inner]
        around = [sp(x) for ps in places for _, x in ps if not is_t(x, "at")]
        if around and (not inner or is_t(inner[0][1], "at")) and places.index(inner) > 0:
            owner = [ps for ps in places[:places.index(inner)] if ps]
            if owner and owner[-1] is places[places.index(inner) - 1]:
                good += [sp(x) for _, x in owner[-1]]
    for o in outs:
        if o.kind == "panic":
            R.v("panic:%s" % leaf, "%s: the server panics" % where)
            continue
        if o.kind != "ret" or o.st.facts:
            raise Undecided("a condition that is not understood: %s" % (show(next(iter(o.st.facts)))[:120] if o.st.facts else o.kind))
        v = o.value
        if v[0] != "adt" or v[3] not in ("Ok", "Err"):
            raise Undecided("result %s" % show(v)[:100])
        R.n("obligations", 4 if related else 3)
        if v[3] == "Ok":
            R.v("missed:%s" % leaf, "%s: no problem is reported" % where)
            continue
        v = bare(v[4][0])
        if v[0] != "adt" or not v[1].endswith("::Diagnostic"):
            raise Undecided("problem %s" % show(v)[:100])
        at = span(db, doc, get(db, v, "range"))
        if at not in good:
            R.v("range:%s" % leaf, "%s: the problem is reported at %s instead of %s" % (where, name(at, flat), " or ".join(name(g, flat) for g in good)))
        msg = get(db, v, "message")
        said = [x for x in texts(msg)]
        vals = [p[2] for p in path]
        if not any(x in vals for x in said):
            if any(x[0] != "lit" for x in said):
                raise Undecided("message %s" % show(msg)[:120])
            R.v("message:%s" % leaf, "%s: the message %r does not say what the problem is" % (where, read(pieces(msg))))
        rel = get(db, v, "related_information")
        rs = () if rel == A.NONE else rel[4][0][1] if rel[0] == "adt" and rel[4][0][0] in ("vec", "arr") else None
        if rs is None:
            raise Undecided("related places %s" % show(rel)[:120])
        got = []
        for r in rs:
            l = get(db, r, "location")
            got.append((plain(get(db, l, "uri")), span(db, doc, get(db, l, "range"))))
        if related is not None and (T("arg", "uri"), related) not in got:
            R.v("related:%s" % leaf, "%s: the first place, %s, is not among the related ones: %s" % (where, name(related, flat), [(show(u), name(p, flat)) for u, p in got]))


def name(at, flat):
    for n, x in flat:
        if is_t(x, "at") and at == (x[2], x[2]) or x[0] == "adt" and at == tuple(y[2] for y in x[4]):
            return "`%s` (%s)" % (n, "outermost" if False else "%d..%d" % at)
    return "%s..%s" % at
