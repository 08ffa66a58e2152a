"""M22: the parser accepts the texts of the language and no others, and yields the tree each stands for. M23: spans."""
import re
import absint as A
from absint import is_t, show
from peg import Unsure, inter
from rules.common import loc, Report, spread
from rules.parsing import *


class Judge:
    def __init__(self, db, R, L, spans):
        self.db, self.R, self.L, self.spans = db, R, L, spans
        self.keys = set()
        self.undec = {}

    def v(self, key, text):
        if key not in self.keys:
            self.keys.add(key)
            self.R.v(key, text)

    def unsure(self, label, x):
        k = "%s: %s" % (type(x).__name__, str(x)[:160])
        if k not in self.undec:
            self.undec[k] = label
            self.R.undec(label, k)

    def where(self, path, kind):
        """the function that parses the innermost element of the path"""
        names = [re.sub(r"\.\d+.*|\[.*", "", p) for p in path.split("/") if p]
        for n in reversed(names):
            c = [f for f in self.db.fns.values() if f.crate.name == CR and f.kind == "Fn" and re.search(r"Result<(\w+::)*%s(<|,)" % n, f.local_ty(0)["s"])]
            if c:
                f = min(c, key=lambda f: f.name)
                return "%s (%s)" % (f.name, loc(f))
        f = {"Schema": self.L.entry, "Type": self.L.type_fn, "Literal": self.L.lit_fn}[kind]
        return "%s (%s)" % (f.name, loc(f))

    def accept(self, label, kind, b, tree, end=None):
        """every reading of the text is the expected tree"""
        R = self.R
        text = "".join(i.show() for i in b.items)
        try:
            outs = self.L.parse_schema(b.items) if kind == "Schema" else self.L.parse_elem(kind, b.items)
        except (A.Unsupported, Unsure) as x:
            return self.unsure(label, x)
        except Gap as x:
            return self.unsure(label, x)
        R.n("texts of the language")
        for o in outs:
            R.n("readings")
            if o.kind != "ret":
                if not self.spans:
                    self.v("panic:%s" % label, "%s: panics on %r (%s): %s" % (self.where("", kind), text, label, show(o.info)[:80] if isinstance(o.info, tuple) else o.info))
                continue
            tx = o.st.facts["txt"]
            if o.value[0] != "adt" or o.value[3] not in ("Ok", "Err"):
                self.unsure(label, Unsure("result of the parser"))
                continue
            if o.value[3] == "Err":
                if not o.st.facts.get("big") and not self.spans:
                    self.v("rejects:%s" % label, "%s: a text of the language is rejected, %s: %r" % (self.where("", kind), label, tx.show()))
                continue
            if kind != "Schema":
                at = o.st.facts["at"]
                if at != (end or "$"):
                    if not self.spans and not o.st.facts.get("big"):
                        self.v("rest:%s" % label, "%s: stops before the end of %r (%s)" % (self.where("", kind), tx.show(), label))
                    continue
            try:
                r = Matcher(b.items, tx, spans=self.spans).match(tree, o.value[4][0])
            except Unsure as x:
                self.unsure(label, x)
                continue
            if r is None:
                continue
            path, want, got = r
            if (want == "span") != self.spans:
                continue
            short = re.sub(r"\[\d+\]", "[]", path)
            if self.spans:
                self.v("span:%s" % short, "%s: the position %s of %s is %s (%s)" % (self.where(path, kind), path, label, got, "text %r" % tx.show()))
            else:
                self.v("tree:%s" % short, "%s: %r (%s) is read as %s instead of %s at %s" % (self.where(path, kind), tx.show(), label, got, want, path))

    def each_style(self, label, kind, build, ends=()):
        """canonical, as tight as possible, and with any white space at each place that permits it"""
        k = -2
        while True:
            style = ("canon", "tight")[k + 2] if k < 0 else k
            try:
                b = Builder(self.db, style)
                tree = build(b)
            except Gap as x:
                return self.unsure(label, x)
            if k >= 0 and k >= b.slots:
                break
            self.accept(label, kind, b, tree)
            k += 1
        for c in ends:
            b = Builder(self.db, "tight")
            tree = build(b)
            it = b.add("one", c)
            self.accept(label + ", followed by %s" % it.show(), kind, b, tree, it.id)

    def reject(self, label, kind, style, build, mods):
        R = self.R
        try:
            b = Builder(self.db, style, mods)
            build(b)
            outs = self.L.parse_schema(b.items) if kind == "Schema" else self.L.parse_elem(kind, b.items)
        except (A.Unsupported, Unsure) as x:
            if "read as" in str(x):
                return
            return self.unsure(label, x)
        except Gap as x:
            return self.unsure(label, x)
        R.n("texts outside the language")
        self.L.follow.clear()
        for o in outs:
            if o.kind != "ret":
                self.v("panic:%s" % label, "%s: panics on %r (%s)" % (self.where("", kind), o.st.facts["txt"].show(), label))
            elif o.value[0] == "adt" and o.value[3] == "Ok" and (kind == "Schema" or o.st.facts["at"] == "$"):
                self.v("accepts:%s" % label, "%s: %s is accepted: %r" % (self.where("", kind), label, o.st.facts["txt"].show()))


def cases(db, spans):
    """(what is counted, function that judges it)"""
    def styles(label, ds, c):
        return lambda J: J.each_style(label, "Schema", lambda b: b.schema(ds, c))

    def pair(label, ds, c):
        def f(J):
            for style in ("canon", "tight"):
                b = Builder(db, style)
                J.accept(label, "Schema", b, b.schema(ds, c))
        return f
    for label, ds, c in definitions():
        yield "forms of definitions", label, styles(label, ds, c)
    for label, ds, c in pairs():
        yield "ordered pairs of definitions", label, pair(label, ds, c)
    for label, f in data_types():
        yield "forms of types", label, lambda J, label=label, f=f: J.each_style("type " + label, "Type", lambda b: b.wrap_type(lambda: f(b)), [TYPE_FOLLOW])
    for label, f in literals():
        yield "forms of literals", label, lambda J, label=label, f=f: J.each_style("literal " + label, "Literal", lambda b: b.wrap_literal(lambda: f(b)), [LIT_FOLLOW])
    if spans:
        return
    for label, ds, mods in broken():
        for style in ("canon", "tight"):
            yield "ways to spoil a schema", label, lambda J, a=(label, "Schema", style, lambda b, ds=ds: b.schema(ds, 0), mods): J.reject(*a)
    for kind, it in (("Type", broken_types()), ("Literal", broken_literals())):
        for label, f, mods in it:
            yield "ways to spoil a %s" % kind.lower(), label, lambda J, a=("%s: %s" % (kind.lower(), label), kind, "tight", f, mods): J.reject(*a)


def collect(db, R, L, todo, judge):
    """run all cases (what, label, function) and put together what they found; returns what followed nested elements"""
    def one(i):
        what, label, f = todo[i]
        r = Report(R.prop, R.tier)
        J = judge(r)
        L.follow.clear()
        try:
            f(J)
            if what:
                r.n(what)
        except Gap as x:
            J.unsure(label, x)
        return r.viol, r.counts, r.undecided, dict(L.follow), set(L.fns)
    keys, und, follow = set(), set(), {}
    for i, res in enumerate(spread(one, len(todo))):
        if res is None:
            R.undec(todo[i][1], "the analysis of this case takes too long")
            continue
        viol, counts, undec, fo, fns = res
        for k, t in viol:
            if k not in keys:
                keys.add(k)
                R.v(k, t)
        for k, c in counts.items():
            R.n(k, c)
        for u in undec:
            w = u.split(": ", 1)[-1]
            if w not in und:
                und.add(w)
                R.undecided.append(u)
        for k, c in fo.items():
            follow.setdefault(k, set()).update(c)
        for i in fns:
            f = db.fns.get(i)
            if f is not None and f.crate.name == CR:
                R.saw(f)
    return follow


def judge(db, R, spans):
    L = Lang(db)
    for n, f in (("schema", L.entry), ("type", L.type_fn), ("literal", L.lit_fn)):
        if f is None:
            R.undec(n, "no single parser function of it")
            return
        R.saw(f)
    todo = list(cases(db, spans))
    follow = collect(db, R, L, todo, lambda r: Judge(db, r, L, spans))
    for kind, seen in follow.items():
        ok = TYPE_FOLLOW if kind == "Type" else LIT_FOLLOW
        rest = diff(union(*[(x,) for x in seen]), ok) if seen else ()
        if rest:
            R.undec("what follows a %s" % kind, "%s is not among the characters that were tried" % (rest,))
    R.floor("texts of the language", 1000)
    if not spans:
        R.floor("texts outside the language", 200)


def run(db, R):
    judge(db, R, False)
