"""The schema language, as pairs of a symbolic text and the syntax tree it stands for.

A Builder writes the text piece by piece (names are a character of one class and any number of another, numbers and
nested types or literals are unknown) and hands back the tree the text must parse to, every span given by the pieces
it covers. White space goes into slots: `canon` fills them the way a formatter might, `loose` with any amount of any
white space that the language permits there.
"""
import absint as A
from absint import T, is_t, NONE, some, show
from peg import (Item, Text, Ty, Unsure, cs, union, compl, diff, inter, single, ANY, SPACE, MSPACE, DIGIT, LOWER, UPPER, ALNUM, HEX, MAXCH, PegInterp, PrintInterp)
import models as M
from rules import punct
import re

CR = "mabo_parser"
SNAKE = union(LOWER, DIGIT, cs("_"))
CONSTCH = union(UPPER, DIGIT, cs("_"))
TYPECH = union(ALNUM, cs("_"))
NAMES = {          # kind -> (class of the first character, class of the others)
    "struct": (UPPER, ALNUM), "enum": (UPPER, ALNUM), "alias": (UPPER, ALNUM), "variant": (UPPER, ALNUM), "generic": (UPPER, ALNUM), "element": (UPPER, ALNUM),
    "const": (UPPER, CONSTCH), "module": (LOWER, SNAKE), "field": (LOWER, SNAKE), "segment": (LOWER, SNAKE), "attribute": (LOWER, SNAKE), "external": (UPPER, TYPECH),
}
TYPE_FIRST = union(LOWER, UPPER, cs("([&"))
LIT_FIRST = union(DIGIT, cs('+-"[tf'))
TYPE_FOLLOW = union(MSPACE, cs(",>)];@=}"))
LIT_FOLLOW = union(MSPACE, cs(",);]"))
NESTS = {CR + "::Type": "Type", CR + "::Literal": "Literal"}
COMMENT_FIRST = compl(cs(" \t\n"))
COMMENT_REST = compl(cs("\n"))


class Gap(Exception):
    """the syntax tree is not declared as expected: nothing can be said"""


class Builder:
    def __init__(self, db, style="canon", mods=None):
        self.db, self.style = db, style
        self.items = []
        self.n = 0
        self.mods = mods or {}      # what to spoil: {slot name: replacement}
        self.slots = 0
        self.pick = None            # the one slot that is filled with any white space
        if isinstance(style, int):
            self.pick, self.style = style, "tight"

    def loose(self):
        self.slots += 1
        return self.style == "loose" or self.pick == self.slots - 1

    # text
    def add(self, kind, cls, val=None, info=None, base="c"):
        self.n += 1
        it = Item("%s%d" % (base, self.n), kind, cls, val, info)
        self.items.append(it)
        return it

    def mark(self):
        return len(self.items)

    def pos(self, i):
        return ("mark", i)

    def span(self, i, j=None):
        j = self.mark() if j is None else j
        return self.adt("Span", start=("mark", i), end=("mark", j))

    def lit(self, s, slot=None):
        if slot is not None and slot in self.mods:
            s = self.mods[slot]
        for c in s:
            self.add("one", cs(c))

    def sp(self, canon=""):
        """spaces may go here"""
        if self.loose():
            if not (self.items and self.items[-1].kind == "many" and self.items[-1].cls in (SPACE, MSPACE)):
                self.add("many", SPACE, base="w")
        elif self.style == "canon":
            self.lit(canon)

    def ms(self, canon=""):
        """spaces and line breaks may go here"""
        loose = self.loose()
        if self.word:
            # a word must end here
            self.word = False
            if loose:
                self.add("one", MSPACE)
            elif self.style == "tight":
                self.lit("\n")
        if loose:
            if self.items and self.items[-1].kind == "many" and self.items[-1].cls == MSPACE:
                return
            self.add("many", MSPACE, base="w")
        elif self.style == "canon":
            self.lit(canon)

    def sp1(self, slot=None):
        if slot is not None and slot in self.mods:
            return
        if self.loose():
            self.add("one", SPACE)
            self.add("many", SPACE, base="w")
        else:
            self.lit(" ")

    # tree
    def adt(self, name_, variant=None, /, *pos, **fields):
        id = CR + "::" + name_
        a = self.db.adts.get(id)
        if a is None:
            raise Gap(id)
        for i, v in enumerate(a["variants"]):
            if variant is None or v["name"] == variant:
                names = [f[0] for f in v["fields"]]
                if fields:
                    if set(names) != set(fields):
                        raise Gap("%s has the fields %s" % (id, names))
                    pos = tuple(fields[n] for n in names)
                if len(names) != len(pos):
                    raise Gap("%s has the fields %s" % (id, names))
                return ("adt", id, i, v["name"], tuple(pos))
        raise Gap("%s::%s" % (id, variant))

    def tok(self, name, text, slot=None):
        i = self.mark()
        self.lit(text, slot)
        return self.adt("token::" + name, span=self.span(i))

    def delim(self, name, a, b):
        return self.adt("token::" + name, open=self.span(*a), close=self.span(*b))

    def name(self, kind, adt=True):
        first, rest = NAMES[kind]
        first = self.mods.get("first:" + kind, first)
        i = self.mark()
        ids = ()
        if first is not None:
            ids = (self.add("one", first, base=kind[0]).id, self.add("many", rest, base=kind[0]).id)
        if "bad:" + kind in self.mods:
            ids += (self.add("one", self.mods["bad:" + kind], base="bad").id,)
        t = T("text", ids)
        return self.adt("Name", value=t, span=self.span(i)) if adt else t

    def punctuated(self, parts, trailing):
        """parts: functions that write one element; they are separated by commas"""
        vals = []
        last = None
        for k, p in enumerate(parts):
            v = p()
            if k < len(parts) - 1:
                self.ms()
                c = self.tok("Comma", ",", "comma")
                vals.append(("tup", (v, c)))
                self.after_comma()
            else:
                c = NONE
                if trailing:
                    self.ms()
                    c = some(self.tok("Comma", ",", "comma"))
                last = ("tup", (v, c))
        return self.adt("punctuated::Punctuated", values=("vec", tuple(vals)), last=last)

    sep = " "

    def after_comma(self):
        self.ms(self.sep)

    def surround(self, name, a, b, body, inner="", slot=None):
        i = self.mark()
        self.lit(a, (slot or name) + ":open")
        i2 = self.mark()
        v = body()
        self.ms(inner)
        j = self.mark()
        self.lit(b, (slot or name) + ":close")
        return self.delim(name, (i, i2), (j, self.mark())), v

    # parts
    def comment(self, lines, indent=""):
        out = []
        for k in range(lines):
            self.sp(indent)
            i = self.mark()
            self.lit("///", "comment")
            self.sp(" ")
            ids = ()
            if k != 1:      # the second line is an empty one
                ids = (self.add("one", COMMENT_FIRST, base="t").id, self.add("many", COMMENT_REST, base="t").id)
            out.append(self.adt("CommentLine", value=T("text", ids), span=self.span(i)))
            self.lit("\n")
        return self.adt("Comment", None, ("vec", tuple(out)))

    def attribute(self, kind):
        n = self.name("attribute", adt=False)
        if kind == "unit":
            v = self.adt("AttributeValue", "Unit")
        elif kind == "single":
            self.sp(" ")
            self.lit("=")
            self.sp(" ")
            v = self.adt("AttributeValue", "Single", self.nest("Literal"))
        else:
            v = self.adt("AttributeValue", "Multi", ("vec", self.attr_list(kind, "(", ")")))
        return self.adt("Attribute", None, n, v)

    def attr_list(self, kinds, a, b):
        self.lit(a, "attr:open")
        vs = []
        for k, x in enumerate(kinds):
            if k:
                self.ms()
                self.lit(",", "attr:comma")
            self.ms(" " if k else "")
            vs.append(self.attribute(x))
        if self.mods.get("attr:trailing") or self.trailing_attr:
            self.lit(",")
        self.ms()
        self.lit(b, "attr:close")
        return tuple(vs)

    trailing_attr = False
    opened = False
    word = False

    def attributes(self, blocks):
        vs = ()
        for b in blocks:
            self.lit("#")
            vs += self.attr_list(b, "[", "]")
            self.lit("\n", "attr:newline")
        return self.adt("Attributes", None, ("vec", vs))

    def nest(self, kind):
        it = self.add("nest", TYPE_FIRST if kind == "Type" else LIT_FIRST, base=kind)
        it.val, it.info = T("atom", kind, it.id), kind
        return it.val

    def id(self, slot="id"):
        i = self.mark()
        self.lit("@", "id:at")
        it = self.add("num", DIGIT, base="id")
        it.val, it.info = T("num", it.id), self.mods.get("id:bits", 32)
        return self.adt("Id", value=it.val, span=self.span(i))

    def opt_id(self, yes):
        if not yes:
            return NONE
        self.sp(" ")
        return some(self.id())

    def generics(self, n, trailing=False):
        if not n:
            return NONE

        def body():
            self.ms()
            return self.punctuated([lambda: self.name("generic")] * n, trailing)
        angle, types = self.surround("Angle", "<", ">", body, slot="generics")
        return some(self.adt("Generics", angle=angle, types=types))

    def named_field(self, lines=0, id=True):
        def f():
            c = self.comment(lines)
            self.sp()
            i = self.mark()
            n = self.name("field")
            self.sp()
            colon = self.tok("Colon", ":", "field:colon")
            self.sp(" ")
            ty = self.nest("Type")
            x = self.opt_id(id)
            return self.adt("NamedField", comment=c, name=n, colon=colon, ty=ty, id=x, span=self.span(i))
        return f

    def unnamed_field(self, id=True):
        def f():
            i = self.mark()
            ty = self.nest("Type")
            x = self.opt_id(id)
            return self.adt("UnnamedField", ty=ty, id=x, span=self.span(i))
        return f

    def fields(self, spec):
        """spec: None or (kind, [field specs], trailing comma)"""
        if spec is None:
            return self.adt("Fields", "Unit")
        kind, fs, trailing = spec
        self.sp(" " if kind == "named" else "")
        if kind == "named":
            def body():
                self.ms("\n")
                old, self.sep = self.sep, "\n"
                r = self.punctuated([self.named_field(*x) for x in fs], trailing)
                self.sep = old
                return r
            d, v = self.surround("Brace", "{", "}", body, inner="\n", slot="fields")
            return self.adt("Fields", "Named", d, v)

        def body():
            self.ms()
            return self.punctuated([self.unnamed_field(*x) for x in fs], trailing)
        d, v = self.surround("Parenthesis", "(", ")", body, slot="fields")
        return self.adt("Fields", "Unnamed", d, v)

    def variant(self, lines, spec, id):
        def f():
            c = self.comment(lines)
            self.sp()
            i = self.mark()
            n = self.name("variant")
            fs = self.fields(spec)
            x = self.opt_id(id)
            j = self.mark()
            if spec is None and not id:
                self.sp()
            return self.adt("Variant", comment=c, name=n, fields=fs, id=x, span=self.span(i, j))
        return f

    # definitions: each takes a dict of options
    def definition(self, d):
        kind = d["kind"]
        self.ms(d.get("lead", ""))
        c = self.comment(d.get("comment", 0))
        # an empty line after the first comment would make it the comment of the schema
        if d.get("comment") and not self.opened:
            self.sp()
        else:
            self.ms()
        self.opened = True
        a = self.attributes(d.get("attrs", ()))
        self.sp()
        v = getattr(self, "d_" + kind)(d, c, a)
        tag = {"struct": "Struct", "enum": "Enum", "alias": "TypeAlias", "const": "Const", "import": "Import", "module": "Module"}[kind]
        return self.adt("Definition", tag, v)

    def kw(self, name, text):
        k = self.tok(name, text, "keyword")
        self.sp1("keyword:space")
        return k

    def d_struct(self, d, c, a):
        k = self.kw("Struct", "struct")
        n = self.name("struct")
        g = self.generics(*d.get("generics", (0,)))
        f = self.fields(d.get("fields"))
        self.word = d.get("fields") is None and "after" in d
        return self.adt("Struct", comment=c, attributes=a, keyword=k, name=n, generics=g, fields=f)

    def d_enum(self, d, c, a):
        k = self.kw("Enum", "enum")
        n = self.name("enum")
        g = self.generics(*d.get("generics", (0,)))
        self.sp(" ")

        def body():
            self.ms("\n")
            old, self.sep = self.sep, "\n"
            r = self.punctuated([self.variant(*x) for x in d["variants"]], d.get("trailing", True))
            self.sep = old
            return r
        brace, vs = self.surround("Brace", "{", "}", body, inner="\n", slot="variants")
        return self.adt("Enum", comment=c, attributes=a, keyword=k, name=n, generics=g, brace=brace, variants=vs)

    def d_alias(self, d, c, a):
        k = self.kw("Type", "type")
        n = self.name("alias")
        g = self.generics(*d.get("generics", (0,)))
        self.sp(" ")
        e = self.tok("Equal", "=", "equal")
        self.sp(" ")
        t = self.nest("Type")
        self.sp()
        s = self.tok("Semicolon", ";", "semicolon")
        return self.adt("TypeAlias", comment=c, keyword=k, name=n, generics=g, equal=e, target=t, semicolon=s)

    def d_const(self, d, c, a):
        k = self.kw("Const", "const")
        n = self.name("const")
        colon = self.tok("Colon", ":", "colon")
        self.sp(" ")
        t = self.nest("Type")
        self.sp(" ")
        e = self.tok("Equal", "=", "equal")
        self.sp(" ")
        v = self.nest("Literal")
        s = self.tok("Semicolon", ";", "semicolon")
        return self.adt("Const", comment=c, keyword=k, name=n, colon=colon, ty=t, equal=e, value=v, semicolon=s)

    def d_import(self, d, c, a):
        k = self.kw("Use", "use")
        i = self.mark()
        segs = []
        for x in range(d.get("segments", 1)):
            if x:
                self.lit("::", "path")
            segs.append(self.name("segment"))
        el = NONE
        if d.get("element"):
            dc = self.tok("DoubleColon", "::", "path")
            el = some(("tup", (dc, self.name("element"))))
        j = self.mark()
        full = self.adt("Name", value=("texts", i, j), span=self.span(i, j))
        s = self.tok("Semicolon", ";", "semicolon")
        return self.adt("Import", keyword=k, full=full, segments=("vec", tuple(segs)), element=el, semicolon=s)

    def d_module(self, d, c, a):
        k = self.kw("Mod", "mod")
        n = self.name("module")
        self.sp(" ")

        def body():
            out = []
            for x in self.chain(d.get("defs", ())):
                out.append(self.definition(dict(x, lead="\n")))
            return out
        brace, defs = self.surround("Brace", "{", "}", body, inner="\n", slot="module")
        return self.adt("Module", comment=c, keyword=k, name=n, brace=brace, definitions=("vec", tuple(defs)))

    def chain(self, defs):
        """what follows a unit struct must be set apart from its name"""
        return [dict(d, after=True) if k < len(defs) - 1 else d for k, d in enumerate(defs)]

    def schema(self, defs, comment=0):
        if comment:
            self.ms()
        c = self.comment(comment)
        if comment:
            self.lit("\n", "schema:newline")
            self.opened = True
        out = []
        for k, d in enumerate(self.chain(defs)):
            out.append(self.definition(dict(d, lead="\n" if k else "")))
        self.ms("\n")
        return self.adt("Schema", path=("any",), source=("any",), comment=c, definitions=("vec", tuple(out)))

    # data types: the text of a type and its tree
    BASIC = (("bool", "Bool"), ("u8", "U8"), ("u16", "U16"), ("u32", "U32"), ("u64", "U64"), ("u128", "U128"), ("i8", "I8"), ("i16", "I16"), ("i32", "I32"),
             ("i64", "I64"), ("i128", "I128"), ("f32", "F32"), ("f64", "F64"), ("string", "String"), ("&string", "StringRef"), ("bytes", "Bytes"), ("&bytes", "BytesRef"),
             ("box<string>", "BoxString"), ("box<bytes>", "BoxBytes"))
    SINGLE = (("vec", "Vec"), ("hash_set", "HashSet"), ("option", "Option"), ("non_zero", "NonZero"))

    def wrap_type(self, f):
        i = self.mark()
        v = f()
        return self.adt("Type", value=v, span=self.span(i))

    def t_basic(self, text, name):
        self.lit(text)
        return self.adt("DataType", name)

    def t_single(self, text, name):
        i = self.mark()
        self.lit(text)
        s = self.span(i)
        angle, ty = self.surround("Angle", "<", ">", lambda: self.nest("Type"))
        return self.adt("DataType", name, span=s, angle=angle, ty=ty)

    def t_map(self):
        i = self.mark()
        self.lit("hash_map")
        s = self.span(i)

        def body():
            k = self.nest("Type")
            self.sp()
            c = self.tok("Comma", ",", "comma")
            self.sp(" ")
            return k, c, self.nest("Type")
        angle, (k, c, v) = self.surround("Angle", "<", ">", body)
        return self.adt("DataType", "HashMap", span=s, angle=angle, key=k, comma=c, value=v)

    def t_tuple(self, n, trailing):
        def body():
            self.ms()
            return self.punctuated([lambda: self.nest("Type")] * n, trailing)
        paren, types = self.surround("Parenthesis", "(", ")", body)
        return self.adt("DataType", "Tuple", paren=paren, types=types)

    def t_array(self):
        def body():
            self.ms()
            ty = self.nest("Type")
            self.ms()
            s = self.tok("Semicolon", ";", "semicolon")
            self.ms(" ")
            it = self.add("num", DIGIT, base="size")
            it.val, it.info = T("num", it.id), self.mods.get("id:bits", 32)
            return ty, s, it.val
        b, (ty, s, n) = self.surround("Bracket", "[", "]", body)
        return self.adt("DataType", "Array", bracket=b, ty=ty, semicolon=s, size=n)

    def t_external(self, segs, gens, trailing):
        path = []
        for _ in range(segs):
            n = self.name("segment")
            path.append(("tup", (n, self.tok("DoubleColon", "::", "path"))))
        n = self.name("external")
        angle = g = NONE
        if gens:
            def body():
                self.ms()
                return self.punctuated([lambda: self.nest("Type")] * gens, trailing)
            an, gg = self.surround("Angle", "<", ">", body, slot="generics")
            angle, g = some(an), some(gg)
        return self.adt("DataType", "External", self.adt("ExternalType", path=("vec", tuple(path)), name=n, angle=angle, generics=g))

    # literals
    def wrap_literal(self, f):
        i = self.mark()
        v = f()
        return self.adt("Literal", value=v, span=self.span(i))

    def number(self, bits, val=None, base="n"):
        it = self.add("num", DIGIT, base=base)
        it.val, it.info = val if val is not None else T("num", it.id), bits
        return it.val

    def l_bool(self, v):
        self.lit("true" if v else "false")
        return self.adt("LiteralValue", "Bool", ("int", 1 if v else 0))

    def l_int(self, sign):
        self.lit(sign)
        n = self.number(self.mods.get("int:bits", 127))
        return self.adt("LiteralValue", "Int", T("neg", n) if sign == "-" else n)

    def l_float(self, sign, whole=False, exp=None):
        self.lit(sign)
        a = self.number(64)
        self.lit(".")
        if whole:
            self.lit("0")
            b = T("zero")
        else:
            b = self.number(64)
        if exp is None:
            return self.adt("LiteralValue", "Float", T("float", sign == "-", a, b))
        self.lit(exp)
        e = self.number(64)
        return self.adt("LiteralValue", "Float", T("floate", sign == "-", a, b, exp[1:] == "-", e))

    def l_string(self, parts):
        """parts: plain characters ("plain"), an escape (text, meaning), a code ("code"), skipped white space ("skip")"""
        self.lit('"', "quote:open")
        out = []
        for p in parts:
            if p == "plain":
                out.append(T("text", (self.add("one", compl(cs('"\\')), base="p").id, self.add("many", compl(cs('"\\')), base="p").id)))
            elif p == "code":
                self.lit("\\u{")
                it = self.add("hex", HEX, base="x")
                it.val, it.info = T("charcode", it.id), 6
                self.lit("}")
                out.append(T("char", it.id))
            elif p == "skip":
                self.lit("\\")
                self.add("one", MSPACE)
                self.add("many", MSPACE, base="w")
                out.append(T("skipped"))
            else:
                self.lit(p[0])
                out.append(("int", ord(p[1])))
        self.lit('"', "quote:close")
        return self.adt("LiteralValue", "String", ("chars", tuple(out)))

    def l_bytes(self, n, trailing=False):
        self.lit("[")
        vs = []
        for k in range(n):
            if k:
                self.ms()
                self.lit(",")
            self.ms(" " if k else "")
            vs.append(self.number(self.mods.get("byte:bits", 8)))
        if trailing:
            self.ms()
            self.lit(",")
        self.ms()
        self.lit("]")
        return self.adt("LiteralValue", "Bytes", ("vec", tuple(vs)))


# ------------------------------------------------------------------ comparison
def chars_of(tx, v):
    """A string value as a list of pieces: characters, unknown characters, slices of the text"""
    out = []

    def add(x):
        if isinstance(x, tuple) and x and x[0] == "lit":
            out.extend(("int", ord(c)) for c in x[1])
        elif isinstance(x, tuple) and x and x[0] == "ph" and len(x) == 3 and x[1] == "display":
            add(x[2])
        elif x[0] == "str":
            out.extend(("int", ord(c)) for c in x[1])
        elif is_t(x, "text"):
            out.extend(("piece", i) for i in tx.expand(x[2]))
        elif is_t(x, "ch"):
            out.append(("piece", x[2]))
        elif x[0] == "int" or is_t(x, "char"):
            out.append(x)
        elif x[0] in ("sbuf", "chars"):
            for y in x[1]:
                add(y)
        elif is_t(x, "skipped"):
            pass
        else:
            raise Unsure("string value %s" % show(x)[:80])
    add(v)
    fin = []
    for x in out:
        if x[0] == "piece":
            it = tx.items[tx.ix[x[1]]]
            if it.kind == "one" and single(it.cls):
                x = ("int", it.cls[0][0])
        fin.append(x)
    return fin


class Matcher:
    def __init__(self, items, tx, spans=True):
        self.items, self.tx, self.spans = items, tx, spans

    def at(self, m):
        return self.tx.pos(self.items[m].id if m < len(self.items) else "$")

    def match(self, e, a, path=""):
        """None, or (path, expected, found)"""
        if e == ("any",):
            return None
        if e[0] == "mark":
            if not self.spans:
                return None
            if not is_t(a, "pos"):
                return (path, e, a)
            return None if self.tx.pos(a[2]) == self.at(e[1]) else (path, "span", "%r instead of %r" % (self.around(self.tx.pos(a[2])), self.around(self.at(e[1]))))
        if e[0] == "texts":
            if not is_t(a, "text"):
                return (path, "text", show(a)[:80])
            if not self.spans:
                want = "".join(x.show() for x in self.items[e[1]:e[2]])
                return None if want == self.slice(a) else (path, want, self.slice(a))
            i, j = self.at(e[1]), self.at(e[2])
            want = [x.id for x in self.tx.items[i:j]]
            return None if list(self.tx.expand(a[2])) == want else (path, "text", "another slice")
        if is_t(e, "text"):
            if not is_t(a, "text"):
                if a == ("str", "") and not self.tx.expand(e[2]):
                    return None
                return (path, "text", show(a)[:80])
            return None if self.tx.expand(e[2]) == self.tx.expand(a[2]) else (path, "text", "another slice: %s" % self.slice(a))
        if e[0] == "chars":
            return None if chars_of(self.tx, e) == chars_of(self.tx, a) else (path, "string", show(a)[:120])
        if is_t(a, "default") and (e == ("vec", ()) or e[0] == "adt" and e[4] == (("vec", ()),)):
            return None
        if e[0] == "adt":
            if a[0] != "adt" or a[1] != e[1] or a[2] != e[2] or len(a[4]) != len(e[4]):
                return (path + "/" + e[3], e[3], show(a)[:80])
            for k, (x, y) in enumerate(zip(e[4], a[4])):
                r = self.match(x, y, "%s/%s.%d" % (path, e[3], k))
                if r:
                    return r
            return None
        if e[0] in ("vec", "tup"):
            ai = a[1] if a[0] in ("vec", "arr", "tup") else None
            if ai is None or len(ai) != len(e[1]):
                return (path, "%d elements" % len(e[1]), show(a)[:80])
            for k, (x, y) in enumerate(zip(e[1], ai)):
                r = self.match(x, y, "%s[%d]" % (path, k))
                if r:
                    return r
            return None
        return None if e == a else (path, show(e)[:60], show(a)[:80])

    def slice(self, a):
        return "".join(self.tx.items[self.tx.ix[i]].show() for i in self.tx.expand(a[2]))

    def around(self, i):
        return self.tx.show(i)[-12:] + "|"


# ------------------------------------------------------------------ running the parser
class Lang:
    def __init__(self, db):
        self.db = db
        self.entry = self.find_schema()
        self.type_fn = self.find_nest("Type")
        self.lit_fn = self.find_nest("Literal")
        self.follow = {}
        self.fns = set()

    def find_schema(self):
        c = [f for f in self.db.fns.values() if f.crate.name == CR and f.item == "parse" and f.name.startswith(CR + "::Schema") and f.d.get("pub")]
        return c[0] if len(c) == 1 else None

    def find_nest(self, kind):
        I = PegInterp(self.db, nests=NESTS)
        c = [f for f in self.db.fns.values() if f.crate.name == CR and f.kind == "Fn" and I.nest_kind(f) == kind]
        if len(c) > 1:
            # the one the others are made from
            ids = {f.id for f in c}
            c = [f for f in c if not set(self.db.reach(f)) & (ids - {f.id})]
        return c[0] if len(c) == 1 else None

    def interp(self):
        I = PegInterp(self.db, nests=NESTS)
        I.nest_fns = {f.id for f in (self.type_fn, self.lit_fn) if f is not None}
        I.refn = I.reclo = 6
        I.max_depth = 160
        return I

    def run(self, f, items, args):
        """[(outcome value or None, final text, number too large)]"""
        I = self.interp()
        st = A.State()
        I.begin(st, items)
        outs = I.call_fn(f, args, st, ())
        for k, v in I.follow.items():
            self.follow.setdefault(k, set()).update(v)
        self.fns |= set(getattr(I, "visited", ()))
        return outs

    def parse_schema(self, items):
        return self.run(self.entry, items, [T("arg", "text"), NONE])

    def parse_elem(self, kind, items):
        return self.run(self.type_fn if kind == "Type" else self.lit_fn, items, [T("input")])


# ------------------------------------------------------------------ running the printer
def rust_escape(c):
    """a character in the debug form of a string"""
    return {"\0": "\\0", "\t": "\\t", "\r": "\\r", "\n": "\\n", '"': '\\"', "\\": "\\\\"}.get(c, c if c.isprintable() else "\\u{%x}" % ord(c))


class Printer:
    """From the syntax tree of a text to the text that the printer writes for it"""

    def __init__(self, lang, items):
        self.lang, self.db = lang, lang.db
        self.src = {it.id: it for it in items}
        self.out = []
        self.seen = {}
        self.n = 0

    def print(self, name, tree):
        """[items] of the text that Display writes for a tree of the named type"""
        fs = [f for f in self.db.fns.values() if f.crate.name == CR and f.item == "fmt" and (f.trait or "").endswith("fmt::Display") and (f.self_s or "").split("<")[0] == CR + "::" + name]
        if len(fs) != 1:
            raise Gap("Display of %s" % name)
        J = PegPrint(self.db)
        st = A.State()
        st.cells[("self", 0)] = tree
        st.cells[("out", 0)] = ("sbuf", ())
        outs = J.call_fn(fs[0], [("ref", ("self", 0), ()), ("ref", ("out", 0), ())], st, ())
        self.lang.fns |= {f.id for f in fs}
        texts = []
        for o in outs:
            if o.kind != "ret":
                return None, "panics: %s" % (o.info,)
            if o.value[0] != "adt" or o.value[3] != "Ok":
                return None, "fails"
            b = o.st.cells[("out", 0)]
            if b[0] != "sbuf":
                raise Unsure("what is written")
            texts.append(b[1])
        if len(set(texts)) != 1:
            raise Unsure("several ways to print")
        self.out, self.seen = [], {}
        for p in texts[0]:
            self.piece(p)
        return self.out, None

    def piece(self, p):
        if p[0] == "lit":
            self.lits(p[1])
        elif p[0] == "ph" and len(p) == 3 and p[1] == "display":
            self.value(p[2])
        elif p[0] == "ph" and len(p) == 4 and p[1] == "display":
            flags, width, prec = p[3]
            v = p[2]
            if width is None and prec == 1 and is_t(v, "float"):
                self.value(v, prec=1)
            else:
                raise Unsure("format options")
        elif p[0] == "ph" and len(p) == 3 and p[1] == "debug":
            self.debug(p[2])
        else:
            raise Unsure("printed piece %s" % (show(p) if isinstance(p, tuple) else p)[:80])

    def one(self, cls):
        self.n += 1
        self.out.append(Item("o%d" % self.n, "one", cls))

    def lits(self, s):
        for c in s:
            self.one(cs(c))

    def copy(self, id):
        it = self.src[id]
        k = self.seen.get(id, 0)
        self.seen[id] = k + 1
        self.out.append(it if not k else Item("%s#%d" % (id, k), it.kind, it.cls, it.val, it.info))

    def value(self, v, prec=None):
        if v[0] == "str":
            self.lits(v[1])
        elif v[0] == "int":
            self.lits(str(v[1]))
        elif is_t(v, "text"):
            for i in v[2]:
                self.copy(i)
        elif is_t(v, "num"):
            self.copy(v[2])
        elif is_t(v, "neg"):
            self.lits("-")
            self.value(v[2])
        elif is_t(v, "atom"):
            self.copy(v[3])
        elif is_t(v, "fld") and is_t(v[2], "atom"):
            # the value of a type or literal: prints like the whole
            self.copy(v[2][3])
        elif is_t(v, "float"):
            if v[2]:
                self.lits("-")
            self.value(v[3])
            if v[4] == T("zero"):
                if prec:
                    self.lits(".0")
            else:
                self.lits(".")
                if prec:
                    raise Unsure("rounding")
                self.value(v[4])
        elif v[0] == "chars":
            for x in v[1]:
                if is_t(x, "text"):
                    self.value(x)
                elif x[0] == "int":
                    self.lits(chr(x[1]))
                elif is_t(x, "char"):
                    self.one(compl(cs('"\\\n\t\r\0')))
        elif v[0] == "sbuf":
            for x in v[1]:
                self.piece(x)
        else:
            raise Unsure("printed value %s" % show(v)[:80])

    def debug(self, v):
        if v[0] == "chars":
            self.lits('"')
            for x in v[1]:
                if is_t(x, "text"):
                    self.value(x)
                elif x[0] == "int":
                    self.lits(rust_escape(chr(x[1])))
                elif is_t(x, "char"):
                    self.lits("\\u{")
                    self.copy(x[2])
                    self.lits("}")
            self.lits('"')
        elif v[0] in ("vec", "arr") and all(is_t(x, "num") for x in v[1]):
            self.lits("[")
            for k, x in enumerate(v[1]):
                if k:
                    self.lits(", ")
                self.value(x)
            self.lits("]")
        else:
            raise Unsure("debug form of %s" % show(v)[:80])


class PegPrint(PrintInterp):
    def __init__(self, db):
        super().__init__(db)
        self.refn = self.reclo = 8
        self.max_depth = 160

    def call_fn(self, fn, args, st, stack, body=None):
        if fn.item in ("fmt", "print") and fn.trait and len(args) > 1:
            # nested elements print as themselves (each kind of them is printed and parsed on its own)
            v = self.deref_read(st, args[0])
            if is_t(v, "fld") and v[3] == "value":
                v = v[2]
            if is_t(v, "atom"):
                M.emit(self, None, st, args[1], [("ph", "display", v)], None)
                return M.fmt_result(self, st)
        return super().call_fn(fn, args, st, stack, body)
