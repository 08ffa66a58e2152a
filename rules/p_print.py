"""M21: printing a schema and parsing the result gives the same schema; nothing written is lost on the way."""
import re
import absint as A
from absint import is_t, show
from peg import Unsure
from rules.common import loc, Report, spread
from rules.parsing import *
from rules.p_parse import Judge, collect


class PrintJudge(Judge):
    def printer(self, name):
        c = [f for f in self.db.fns.values() if f.crate.name == CR and f.item == "fmt" and (f.trait or "").endswith("fmt::Display") and (f.self_s or "").split("<")[0] == CR + "::" + name]
        return "%s (%s)" % (c[0].name, loc(c[0])) if len(c) == 1 else name

    def of(self, path, kind):
        """the printer of the innermost element of the path that has one"""
        for n in reversed([re.sub(r"\.\d+.*|\[.*", "", p) for p in path.split("/") if p]):
            w = self.printer(n)
            if w != n:
                return w
        return self.printer(kind)

    def roundtrip(self, label, kind, b, tree):
        R = self.R
        try:
            items, why = Printer(self.L, b.items).print(kind, tree)
        except (A.Unsupported, Unsure, Gap) as x:
            return self.unsure(label, x)
        R.n("printed trees")
        if why:
            return self.v("print:%s" % label, "%s: printing %s %s" % (self.printer(kind), label, why))
        text = "".join(i.show() for i in items)
        try:
            outs = self.L.parse_schema(items) if kind == "Schema" else self.L.parse_elem(kind, items)
        except (A.Unsupported, Unsure, Gap) as x:
            return self.unsure(label, x)
        for o in outs:
            R.n("readings of printed texts")
            if o.kind != "ret":
                self.v("panic:%s" % label, "%s: writes %r (%s), which makes the parser panic" % (self.printer(kind), text, label))
                continue
            tx = o.st.facts["txt"]
            if o.value[0] != "adt" or o.value[3] not in ("Ok", "Err"):
                self.unsure(label, Unsure("result of the parser"))
                continue
            if o.value[3] == "Err" or (kind != "Schema" and o.st.facts["at"] != "$"):
                if not o.st.facts.get("big"):
                    self.v("rejects:%s" % label, "%s: writes %r (%s), which doesn't parse" % (self.printer(kind), tx.show(), label))
                continue
            try:
                r = Matcher(b.items, tx, spans=False).match(tree, o.value[4][0])
            except Unsure as x:
                self.unsure(label, x)
                continue
            if r:
                path, want, got = r
                self.v("tree:%s" % re.sub(r"\[\d+\]", "[]", path), "%s: writes %r (%s), which is read as %s instead of %s at %s" % (self.of(path, kind), tx.show(), label, got, want, path))

    def schema(self, label, ds, c):
        for style in ("tight", "canon"):
            b = Builder(self.db, style)
            tree = b.schema(ds, c)
            self.roundtrip(label, "Schema", b, tree)

    def elem(self, label, kind, f):
        b = Builder(self.db, "tight")
        tree = (b.wrap_type if kind == "Type" else b.wrap_literal)(lambda: f(b))
        self.roundtrip(label, kind, b, tree)

    def keeps(self, what, kind, d, adt):
        """a text with a comment or attribute in front of a definition: accepted, so it must have a place in the tree"""
        b = Builder(self.db, "canon")
        b.schema([d], 0)
        name = {"comment": "Comment", "attrs": "Attributes"}[what]
        decl = self.db.adts.get(CR + "::" + adt)
        if decl is None:
            return self.unsure(adt, Gap(adt))
        self.R.n("parts in front of definitions")
        if any(re.search(r"\b%s\b" % name, decl["crate"].tstr(ty)) for v in decl["variants"] for _, ty, _ in v["fields"]):
            return
        try:
            outs = self.L.parse_schema(b.items)
        except (A.Unsupported, Unsure, Gap) as x:
            return self.unsure(what + " of " + adt, x)
        for o in outs:
            if o.kind == "ret" and o.value[0] == "adt" and o.value[3] == "Ok":
                self.v("lost:%s:%s" % (adt, name), "%s: %r is accepted, but the tree has no place for the %s of the definition: printing loses it" % (
                    self.where("/" + adt, "Schema"), o.st.facts["txt"].show(), "comment" if what == "comment" else "attributes"))


ADT = {"struct": "Struct", "enum": "Enum", "alias": "TypeAlias", "const": "Const", "import": "Import", "module": "Module"}


def run(db, R):
    L = Lang(db)
    for n, f in (("schema", L.entry), ("type", L.type_fn), ("literal", L.lit_fn)):
        if f is None:
            R.undec(n, "no single parser function of it")
            return
        R.saw(f)
    todo = []
    for label, ds, c in list(definitions()) + list(pairs()):
        todo.append(("forms of schemas", label, lambda J, a=(label, ds, c): J.schema(*a)))
    for label, f in data_types():
        todo.append(("forms of types", label, lambda J, a=("type " + label, "Type", f): J.elem(*a)))
    for label, f in literals():
        # (a number with an exponent is the same as one without)
        if "exponent" in label:
            continue
        todo.append(("forms of literals", label, lambda J, a=("literal " + label, "Literal", f): J.elem(*a)))
    for k, d in KINDS.items():
        todo.append(("", k, lambda J, a=("comment", k, dict(d, comment=1), ADT[k]): J.keeps(*a)))
        todo.append(("", k, lambda J, a=("attrs", k, dict(d, attrs=[["unit"]]), ADT[k]): J.keeps(*a)))
    collect(db, R, L, todo, lambda r: PrintJudge(db, r, L, False))
    R.floor("printed trees", 300)
