"""Parsed schemas, as the parser returns them, for literal texts in a part of the language. Places are offsets in the text."""
import re
import absint as A
from absint import T
from rules.lsp import Undecided

PRE = "mabo_parser::"
SINGLE = {"vec": "Vec", "hash_set": "HashSet", "option": "Option", "non_zero": "NonZero"}
BASIC = {"u8": "U8", "u32": "U32", "bool": "Bool", "string": "String", "bytes": "Bytes"}
TOKEN = re.compile(r"\s*(::|\w+|.)")


class Trees:
    def __init__(self, db, text, path):
        self.db, self.text, self.path = db, text, path
        self.toks = [(m.group(1), m.start(1), m.end(1)) for m in TOKEN.finditer(text.rstrip())]
        self.i = 0

    # ---- values
    def adt(self, _n, _v=None, **fields):
        t = PRE + _n
        if t not in self.db.adts:
            raise Undecided("type %s" % t)
        for i, v in enumerate(self.db.variants(t)):
            if _v is None or v["name"] == _v:
                if set(fields) - {f[0] for f in v["fields"]}:
                    raise Undecided("fields of %s" % t)
                return ("adt", t, i, v["name"], tuple(fields.get(f[0], T("source", "%s.%s" % (_n, f[0]))) for f in v["fields"]))
        raise Undecided("%s of %s" % (_v, t))

    def wrap(self, n, v, *xs):
        return self.adt(n, v, **{str(i): x for i, x in enumerate(xs)})

    def span(self, a, b):
        return self.adt("Span", start=("int", a), end=("int", b))

    def list(self, items):
        return self.adt("punctuated::Punctuated", values=("vec", tuple(("tup", (x, T("source", "comma"))) for x in items[:-1])), last=("tup", (items[-1], A.NONE)))

    # ---- reading
    def peek(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else ""

    def next(self, want=None):
        t = self.toks[self.i]
        if want is not None and t[0] != want:
            raise ValueError("%s at %d of %s" % (want, self.i, self.text))
        self.i += 1
        return t

    def opt(self, w):
        if self.peek() == w:
            self.i += 1
            return True
        return False

    def name(self):
        t, a, b = self.next()
        return self.adt("Name", value=("str", t), span=self.span(a, b))

    def until(self, close, item):
        out = []
        while not self.opt(close):
            out.append(item())
            self.opt(",")
        return out

    def generics(self):
        if not self.opt("<"):
            return A.NONE
        return A.some(self.adt("Generics", types=self.list(self.until(">", self.name))))

    def type(self):
        a = self.toks[self.i][1]
        v = self.data_type()
        return self.adt("Type", value=v, span=self.span(a, self.toks[self.i - 1][2]))

    def data_type(self):
        w = self.peek()
        if self.opt("("):
            return self.adt("DataType", "Tuple", types=self.list(self.until(")", self.type)))
        if self.opt("["):
            t = self.type()
            self.next(";"), self.next(), self.next("]")
            return self.adt("DataType", "Array", ty=t)
        if w in BASIC:
            self.next()
            return self.adt("DataType", BASIC[w])
        if w in SINGLE:
            self.next(), self.next("<")
            t = self.type()
            self.next(">")
            return self.adt("DataType", SINGLE[w], ty=t)
        if w == "hash_map":
            self.next(), self.next("<")
            k = self.type()
            self.next(",")
            v = self.type()
            self.next(">")
            return self.adt("DataType", "HashMap", key=k, value=v)
        path, n = [], self.name()
        while self.opt("::"):
            path.append(("tup", (n, T("source", "colons"))))
            n = self.name()
        g = A.NONE
        if self.opt("<"):
            g = A.some(self.list(self.until(">", self.type)))
        return self.wrap("DataType", "External", self.adt("ExternalType", path=("vec", tuple(path)), name=n, generics=g, angle=A.some(T("source", "angle")) if g != A.NONE else A.NONE))

    def fields(self):
        if self.opt("("):
            def f():
                a = self.toks[self.i][1]
                return self.adt("UnnamedField", ty=self.type(), id=A.NONE, span=self.span(a, self.toks[self.i - 1][2]))
            return self.wrap("Fields", "Unnamed", T("source", "paren"), self.list(self.until(")", f)))
        if self.opt("{"):
            def f():
                n = self.name()
                self.next(":")
                return self.adt("NamedField", name=n, ty=self.type(), id=A.NONE, span=n[4][1])
            return self.wrap("Fields", "Named", T("source", "brace"), self.list(self.until("}", f)))
        return self.adt("Fields", "Unit")

    def variant(self):
        n = self.name()
        return self.adt("Variant", name=n, fields=self.fields(), id=A.NONE, span=n[4][1])

    def definition(self):
        w = self.next()[0]
        if w == "use":
            ns = [self.name()]
            while self.opt("::"):
                ns.append(self.name())
            self.next(";")
            last = ns[-1][4][0][1]
            el = A.some(("tup", (T("source", "colons"), ns[-1]))) if last[0].isupper() else A.NONE
            full = self.adt("Name", value=("str", "::".join(x[4][0][1] for x in ns)), span=self.span(ns[0][4][1][4][0][1], ns[-1][4][1][4][1][1]))
            return self.wrap("Definition", "Import", self.adt("Import", full=full, segments=("vec", tuple(ns[:-1] if el != A.NONE else ns)), element=el))
        n = self.name()
        if w == "mod":
            self.next("{")
            ds = []
            while not self.opt("}"):
                ds.append(self.definition())
            return self.wrap("Definition", "Module", self.adt("Module", name=n, definitions=("vec", tuple(ds))))
        if w == "const":
            self.next(":")
            t = self.type()
            self.next("="), self.next(), self.next(";")
            return self.wrap("Definition", "Const", self.adt("Const", name=n, ty=t))
        g = self.generics()
        if w == "struct":
            f = self.fields()
            self.opt(";")
            return self.wrap("Definition", "Struct", self.adt("Struct", name=n, generics=g, fields=f))
        if w == "enum":
            self.next("{")
            return self.wrap("Definition", "Enum", self.adt("Enum", name=n, generics=g, variants=self.list(self.until("}", self.variant))))
        if w == "type":
            self.next("=")
            t = self.type()
            self.next(";")
            return self.wrap("Definition", "TypeAlias", self.adt("TypeAlias", name=n, generics=g, target=t))
        raise ValueError(w)

    def schema(self):
        ds = []
        while self.i < len(self.toks):
            ds.append(self.definition())
        return self.adt("Schema", path=A.NONE if self.path is None else A.some(("str", self.path)), source=("str", self.text), comment=T("source", "comment"), definitions=("vec", tuple(ds)))
