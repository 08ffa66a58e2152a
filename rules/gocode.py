"""The Go code that the generator writes for a schema, by interpreting the generator on a literal schema."""
import re
import absint as A
from absint import T, is_t, show
from peg import PrintInterp, Unsure
from rules.lsp import Undecided
from rules import literal

CRATE = "mabo_go"
SIMPLE = "mabo_compiler::simplify::"


class Build:
    """Schemas in the form that the generators take."""

    def __init__(self, db):
        self.db = db
        self.n = 0

    def adt(self, _t, _v=None, **fields):
        t = SIMPLE + _t
        if t not in self.db.adts:
            raise Undecided("type %s" % t)
        for i, v in enumerate(self.db.variants(t)):
            if _v is None or v["name"] == _v:
                if set(fields) - {f[0] for f in v["fields"]}:
                    raise Undecided("fields of %s" % t)
                return ("adt", t, i, v["name"], tuple(fields.get(f[0], T("source")) for f in v["fields"]))
        raise Undecided("%s of %s" % (_v, t))

    def wrap(self, name, variant, *xs):
        return self.adt(name, variant, **{str(i): x for i, x in enumerate(xs)})

    def vec(self, xs):
        return ("vec", tuple(xs))

    def strs(self, xs):
        return self.vec(("str", x) for x in xs)

    def comment(self, n):
        out = []
        for _ in range(n):
            self.n += 1
            out.append("remark number %d" % self.n)
        return out

    # types: nested tuples like ("Vec", ("U8",)), ("Array", t, 3), ("External", path, name, args)
    def ty(self, t):
        k, xs = t[0], t[1:]
        if k in ("Vec", "HashSet", "Option", "NonZero"):
            return self.wrap("Type", k, self.ty(xs[0]))
        if k == "HashMap":
            return self.wrap("Type", k, ("tup", (self.ty(xs[0]), self.ty(xs[1]))))
        if k == "Tuple":
            return self.wrap("Type", k, self.vec(map(self.ty, xs)))
        if k == "Array":
            return self.wrap("Type", k, self.ty(xs[0]), ("int", xs[1]))
        if k == "External":
            return self.wrap("Type", k, self.adt("ExternalType", path=self.strs(xs[0]), name=("str", xs[1]), generics=self.vec(map(self.ty, xs[2]))))
        return self.wrap("Type", k)

    def cow(self, s):
        c = "alloc::borrow::Cow"
        for i, v in enumerate(self.db.variants(c)):
            if v["name"] == "Borrowed":
                return ("adt", c, i, "Borrowed", (("str", s),))
        raise Undecided("Cow")

    def fields(self, f):
        kind, fs = f
        return self.adt("Fields", fields=self.vec(self.adt("Field", comment=self.strs(x["comment"]), name=self.cow(x["name"]), ty=self.ty(x["ty"]), id=("int", x["id"])) for x in fs),
                        kind=self.wrap("FieldKind", kind))

    def definition(self, d):
        k = d["kind"]
        fs = dict(comment=self.strs(d.get("comment", ())), name=("str", d["name"])) if k != "Import" else {}
        if k == "Module":
            fs["definitions"] = self.vec(map(self.definition, d["defs"]))
        if k in ("Struct", "Enum", "TypeAlias"):
            fs["generics"] = self.strs(d.get("generics", ()))
        if k == "Struct":
            fs["fields"] = self.fields(d["fields"])
        if k == "Enum":
            fs["variants"] = self.vec(self.adt("Variant", comment=self.strs(v["comment"]), name=("str", v["name"]), fields=self.fields(v["fields"]), id=("int", v["id"])) for v in d["variants"])
        if k == "TypeAlias":
            fs["target"] = self.ty(d["target"])
        if k == "Const":
            fs["ty"], fs["value"] = self.ty(d["ty"]), self.literal(d["value"])
        if k == "Import":
            fs["segments"] = self.strs(d["segments"])
            fs["element"] = A.NONE if d["element"] is None else A.some(("str", d["element"]))
        return self.wrap("Definition", k, self.adt(k, **fs))

    def literal(self, v):
        k, x = v
        if k == "Bytes":
            return self.wrap("Literal", k, self.vec(("int", b) for b in x))
        if k == "Bool":
            return self.wrap("Literal", k, A.TRUE if x else A.FALSE)
        if k == "Int":
            return self.wrap("Literal", k, ("int", x))
        if k == "String":
            return self.wrap("Literal", k, ("str", x))
        return self.wrap("Literal", k, T("number", x))

    def schema(self, defs, comment=()):
        return self.adt("Schema", comment=self.strs(comment), definitions=self.vec(map(self.definition, defs)))


class GoInterp(PrintInterp):
    def __init__(self, db):
        super().__init__(db)
        self.opaque = lambda g: g.crate.name != CRATE
        self.max_depth = 160
        self.refn = self.reclo = 12
        literal.add(self)


def generated(db, f, package, schema):
    """outcomes of the generator"""
    I = GoInterp(db)
    c = [a for a in db.adts if a == CRATE + "::Opts"]
    if not c:
        raise Undecided("options of the generator")
    opts = ("adt", c[0], 0, "Opts", tuple(("str", package) if x[0] == "package" else T("arg", x[0]) for x in db.variants(c[0])[0]["fields"]))
    st = A.State()
    st.cells[("opts", 0)], st.cells[("schema", 0)] = opts, schema
    return I, I.call_fn(f, [("ref", ("opts", 0), ()), ("ref", ("schema", 0), ())], st, ())
