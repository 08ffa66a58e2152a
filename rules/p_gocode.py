"""M32: the Go code generated for a schema states the schema, and its three functions agree."""
import re
import absint as A
from absint import is_t, show
from rules.docs import each
from rules.gocode import *
from rules.common import loc

ATOM = "⟨%s:%s⟩"
TOKEN = re.compile(r"//[^\n]*|\"(?:[^\"\\]|\\.)*\"|(?:[A-Za-z0-9_]|⟨[^⟩]*⟩)+|\S")
SIMPLE_TYPES = {"Bool": "bool", "U8": "uint8", "U16": "uint16", "U32": "uint32", "U64": "uint64", "U128": "*big.Int", "I8": "int8", "I16": "int16", "I32": "int32",
                "I64": "int64", "I128": "*big.Int", "F32": "float32", "F64": "float64", "String": "string", "StringRef": "string", "BoxString": "string", "Bytes": "[]byte",
                "BytesRef": "[]byte", "BoxBytes": "[]byte"}
CODEC = {k: k for k in SIMPLE_TYPES}
CODEC.update(StringRef="String", BoxString="String", BytesRef="Bytes", BoxBytes="Bytes")
NUMBERS = ("U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128")
NZ_TEXT = ("String", "StringRef", "Bytes", "BytesRef")
NZ_COLL = ("Vec", "HashMap", "HashSet")


class Alt:
    """What should be there (None: not what is there), or what is known to be there instead."""

    def __init__(self, key, right, wrong):
        self.key, self.right, self.wrong = key, right, wrong


class Mark:
    def __init__(self, what):
        self.what = what


def X(fmt, *args):
    """text with parts in the place of $"""
    out = []
    parts = fmt.split("$")
    assert len(parts) == len(args) + 1, fmt
    for i, p in enumerate(parts):
        out.append(p)
        if i < len(args):
            a = args[i]
            out += a if isinstance(a, list) else [str(a) if isinstance(a, int) else a]
    return out


def up(n):
    return ATOM % ("Upper", n)


def low(n):
    return ATOM % ("Lower", n)


def joined(xs, sep=", "):
    out = []
    for i, x in enumerate(xs):
        out += ([sep] if i else []) + (x if isinstance(x, list) else [x])
    return out


def args(ts):
    return X("[$]", joined([ty(t) for t in ts])) if ts else []


def ty(t):
    k = t[0]
    if k in SIMPLE_TYPES:
        return [SIMPLE_TYPES[k]]
    if k == "Vec":
        return X("[]$", ty(t[1]))
    if k == "HashMap":
        return X("map[$]$", ty(t[1]), ty(t[2]))
    if k == "HashSet":
        return X("map[$]struct{}", ty(t[1]))
    if k == "Option":
        return X("*$", ty(t[1]))
    if k == "NonZero":
        i = t[1]
        n = {"StringRef": "String", "BytesRef": "Bytes"}.get(i[0], i[0])
        return X("mabo.NonZero$$", n, args(i[1:]) if i[0] in NZ_COLL else [])
    if k == "Tuple":
        return X("mabo.Tuple$$", len(t) - 1, args(t[1:]))
    if k == "Array":
        return X("[$]$", t[2], ty(t[1]))
    return X("$$$", ATOM % ("Snake", t[1][-1]) + "." if t[1] else "", up(t[2]), args(t[3]))


def value_fn(t, name, e):
    """the function that encodes (or sizes) a value of a nested type"""
    if e:
        return X("func(w []byte, $ $) []byte { return $ }", name, ty(t), enc(t, [name]))
    return X("func($ $) int { return $ }", name, ty(t), size(t, [name]))


def enc_or_size(t, name, e):
    k = t[0]
    P, w = ("Encode", "w, ") if e else ("Size", "")
    rec = enc if e else size
    if k in CODEC:
        return X("buf.$$($$)", P, CODEC[k], w, name)
    if k in ("Vec", "HashSet", "Option"):
        return X("buf.$$[$]($$, $)", P, k, ty(t[1]), w, name, value_fn(t[1], "v", e))
    if k == "HashMap":
        return X("buf.$$[$, $]($$, $, $,)", P, k, ty(t[1]), ty(t[2]), w, name, value_fn(t[1], "k", e), value_fn(t[2], "v", e))
    if k == "NonZero":
        return rec(t[1], X("$.Get()", name))
    if k == "Array":
        return X("buf.$$[$]($$, $)", P, "Array%d" % t[2], ty(t[1]), w, name, value_fn(t[1], "v", e))
    if k == "Tuple":
        parts = [rec(x, X("$.F$", name, i)) for i, x in enumerate(t[1:])]
        if e:
            return X("func (w []byte) []byte { $ return w }(w)", [y for p in parts for y in ["w = "] + p + ["\n"]])
        return X("func() int { size := 0\n $ return size }($)", [y for p in parts for y in ["size += "] + p + ["\n"]], [Alt("size-tuple", [], ["size"])])
    return X("$.Encode(w)" if e else "$.Size()", name)


def enc(t, name):
    return enc_or_size(t, name, True)


def size(t, name):
    return enc_or_size(t, name, False)


def read_fn(t):
    return X("func(r []byte) ([]byte, $, error) { return $ }", ty(t), dec(t))


def dec(t):
    k = t[0]
    if k in CODEC:
        return X("buf.Decode$(r)", CODEC[k])
    if k == "NonZero" and t[1][0] in CODEC:
        return X("buf.DecodeNonZero$(r)", CODEC[t[1][0]])
    nz = "NonZero" if k == "NonZero" else ""
    if nz:
        t = t[1]
        k = t[0]
    if k in ("Vec", "HashSet", "Option"):
        return X("buf.Decode$$[$](r, $)", nz, k, ty(t[1]), read_fn(t[1]))
    if k == "HashMap":
        return X("buf.Decode$$[$, $](r, $, $,)", nz, k, ty(t[1]), ty(t[2]), read_fn(t[1]), read_fn(t[2]))
    if k == "Array":
        return X("buf.Decode$[$](r, $)", "Array%d" % t[2], ty(t[1]), read_fn(t[1]))
    if k == "Tuple":
        n = len(t) - 1
        parts = [X("r2, value$, err := $\n if err != nil { return nil, $, err }\n r = r2\n tuple.F$ = value$\n", i, dec(x), [Alt("decode-tuple", ["tuple"], ["value"])], i, i) for i, x in enumerate(t[1:])]
        return X("func (r []byte) ([]byte, $, error) { $ $ return r, tuple, nil }(r)", [Alt("decode-tuple", ty(t), ["buf.Tuple%d" % n])],
                 [Alt("decode-tuple", X("var tuple $", ty(t)), [])], [y for p in parts for y in p])
    return X("func(r []byte) ([]byte, $, error) { var value $\n $ }(r)", ty(t), ty(t),
             [Alt("decode-definition", X("r, err := value.Decode(r)\n return r, value, err"), ["return value.Decode(r)"])])


# ------------------------------------------------------------------ definitions
def comment(lines):
    return [y for l in lines for y in ("// " + l, "\n")]


def names(gs):
    return X("[$]", joined([up(g) for g in gs])) if gs else []


def params(gs):
    return X("[$]", joined([up(g) + " any" for g in gs])) if gs else []


def mentions(t, g):
    if t[0] == "External":
        return not t[1] and not t[3] and t[2] == g or any(mentions(x, g) for x in t[3])
    return any(mentions(x, g) for x in t[1:] if isinstance(x, tuple))


def body(fs):
    if not fs:
        return ["struct{}"]
    return X("struct { $ }", [y for f in fs for y in comment(f["comment"]) + X("$ $\n", up(f["name"]), ty(f["ty"]))])


def new_fn(name, gs, fs):
    return X("func New$$($) $$ { return $${$} }\n", name, params(gs), [y for f in fs for y in X("$ $,\n", low(f["name"]), ty(f["ty"]))], name, names(gs), name, names(gs),
             [y for f in fs for y in X("$: $,\n", up(f["name"]), low(f["name"]))])


def codec(name, gs, kind, fs, variant):
    N = X("$$", name, names(gs))
    out = [Mark("encode")] + X("var _ buf.Encode = (*$)(nil)\n func (v *$) Encode(w []byte) []byte {", N, N)
    for f in fs:
        t, F = f["ty"], up(f["name"])
        if t[0] == "Option":
            out += X("w = buf.EncodeFieldOption[$](w, $, &v.$, func (w []byte, v $) []byte { return $ })\n", ty(t[1]), f["id"], F, ty(t[1]), enc(t[1], ["v"]))
        else:
            out += X("w = buf.EncodeField(w, $, func (w []byte) []byte { return $ })\n", f["id"], enc(t, ["v." + F]))
    end = kind != "Unit"
    out += X("$ return $ }\n", "w = buf.EncodeU32(w, buf.EndMarker)\n" if end else "", [Alt("variant-encode", ["w"], ["nil"])] if variant else "w")
    out += [Mark("decode")] + X("var _ buf.Decode = (*$)(nil)\n func (v *$) Decode(r []byte) ([]byte, error) {", N, N)
    for f in fs:
        v = ["found%s := false\n" % up(f["name"])]
        out += [Alt("decode-optional", [], v)] if f["ty"][0] == "Option" else v
    out += X("for len(r) > 0 { r2, id, err := buf.DecodeID(r)\n if err != nil { return nil, err }\n r = r2\n switch id {")
    for f in fs:
        v = ["found%s = true\n" % up(f["name"])]
        out += X("case $: r2, value, err := $\n if err != nil { return nil, err }\n r = r2\n v.$ = value\n $", f["id"], dec(f["ty"]), up(f["name"]),
                 [Alt("decode-optional", [], v)] if f["ty"][0] == "Option" else v)
    out += X("case buf.EndMarker: $ } }", [Alt("decode-end", None, ["break"])])
    for f in fs:
        v = X("if !found$ { return nil, buf.MissingFieldError{ ID: $, Field: \"$\", } }", up(f["name"]), f["id"], f["name"] if kind == "Named" else "")
        out += [Alt("decode-optional", [], v)] if f["ty"][0] == "Option" else v
    out += X("return r, nil }\n")
    out += [Mark("size")] + X("var _ buf.Size = (*$)(nil)\n func (v *$) Size() int { size := 0\n", N, N)
    for f in fs:
        t, F = f["ty"], up(f["name"])
        if t[0] == "Option":
            out += X("size += buf.SizeFieldOption[$]($, &v.$, func (v $) int { return $ })\n", ty(t[1]), f["id"], F, ty(t[1]), size(t[1], ["v"]))
        else:
            out += X("size += buf.SizeField($, func() int { return $ })\n", f["id"], size(t, ["v." + F]))
    return out + X("$ return size }\n", "size += buf.EndMarkerSize\n" if end else "")


def holder(name, gs, fields, lines, variant):
    kind, fs = fields
    head = X("$ type $$ $\n", comment(lines), name, params(gs), body(fs))
    seal = X("func (v $$) sealed() {}\n", name, names(gs)) if variant else []
    return [Mark("declaration")] + head + seal + [Mark("constructor")] + new_fn(name, gs, fs) + codec(name, gs, kind, fs, variant)


def literal(v):
    k, x = v
    if k == "Bool":
        return ["true" if x else "false"]
    if k == "Int":
        return [str(x)]
    if k == "Float":
        return [ATOM % ("number", x)]
    if k == "String":
        return [ATOM % ("quoted", x)]
    return X("[]byte{$}", joined([str(b) for b in x]))


PLAIN = tuple(k for k in SIMPLE_TYPES if not k.startswith("Box") and "128" not in k and not k.startswith("Bytes"))


def definition(d):
    k = d["kind"]
    if k == "Struct":
        return holder(up(d["name"]), d["generics"], d["fields"], d["comment"], False)
    if k == "Enum":
        N = up(d["name"])
        gs = d["generics"]
        out = [Mark("enum")]
        if gs:
            out += X("type $Variant$ interface { sealed() }\n $ type $$ $Variant$\n", N, [Alt("enum-parameters", params(gs), [])], comment(d["comment"]), N,
                     [Alt("enum-parameters", params(gs), [])], N, [Alt("enum-parameters", names(gs), [])])
        else:
            out += X("type $Variant interface { sealed() }\n $ type $ $Variant\n", N, comment(d["comment"]), N, N)
        for v in d["variants"]:
            used = [g for g in gs if any(mentions(f["ty"], g) for f in v["fields"][1])]
            out += [Mark("variant")] + holder(N + "_" + up(v["name"]), used, v["fields"], v["comment"], True)
        return out + [Alt("enum-codec", None, [])]
    if k == "TypeAlias":
        return [Mark("alias")] + X("$ type $$ $\n", comment(d["comment"]), up(d["name"]), params(d["generics"]), ty(d["target"]))
    if k == "Const":
        big = d["ty"][0] in ("U128", "I128")
        v = literal(d["value"])
        if big:
            v = [Alt("const-big", X("big.NewInt($)", v), v)]
        return [Mark("const")] + X("$ $ $ $ = $\n", comment(d["comment"]), "const" if d["ty"][0] in PLAIN else "var", up(d["name"]), ty(d["ty"]), v)
    if k == "Import":
        return [Alt("import", None, [])]
    return []


def uses_big(defs):
    def deep(t):
        return isinstance(t, (tuple, list)) and (any(x in ("U128", "I128") for x in t[:1]) or any(deep(x) for x in t))
    ts = []
    for d in defs:
        ts += [d.get("target"), d.get("ty")] + [f["ty"] for f in d.get("fields", (0, ()))[1]] + [f["ty"] for v in d.get("variants", ()) for f in v["fields"][1]]
    # (the type of a non-zero number doesn't name it)
    return any(deep(strip(t)) for t in ts if t)


def strip(t):
    if t[0] == "NonZero" and t[1][0] in NUMBERS:
        return ("NZ",)
    return tuple(strip(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0][:1].isupper() else x for x in t)


def output(name, defs, lines):
    """(name, text, modules) that a package should consist of"""
    out = [Mark("header"), "// Code generated by mabo-go (v", ATOM % ("any", ""), "). DO NOT EDIT.\n"] + comment(lines) + ["package %s\n" % (ATOM % ("Snake", name))]
    big = [Alt("import-big", ['"math/big"'], [])] if uses_big(defs) else []
    out += X('import ( $ mabo "github.com/dnaka91/mabo-go"\n buf "github.com/dnaka91/mabo-go/buf" )', big)
    for d in defs:
        out += definition(d)
    return name, out, [output(d["name"], d["defs"], d["comment"]) for d in defs if d["kind"] == "Module"]


# ------------------------------------------------------------------ what is written
HECK = {"AsUpperCamelCase": "Upper", "AsLowerCamelCase": "Lower", "AsSnakeCase": "Snake", "AsPascalCase": "Upper"}


def text(v):
    if v[0] == "sbuf":
        return "".join(map(text, v[1]))
    if v[0] == "lit":
        return v[1]
    if v[0] == "str":
        return v[1]
    if v[0] == "int":
        return str(v[1])
    if v[0] == "ph":
        w = v[2]
        if v[1] == "panic":
            raise Panics(show(w)[:80])
        if v[1] == "debug":
            return ATOM % ("quoted", inner(w))
        if v[1] != "display":
            raise Unsure("format %s" % v[1])
        if len(v) > 3 and w[0] != "str":
            raise Unsure("format options")
        if len(v) > 3:
            return w[1] + " "
        if w[0] == "adt" and w[1].startswith("heck::"):
            n = w[1].rsplit("::", 1)[1]
            if n not in HECK or len(w[4]) != 1:
                raise Unsure(n)
            return ATOM % (HECK[n], inner(w[4][0]))
        if is_t(w, "number"):
            return ATOM % ("number", w[2])
        return text(w)
    if v[0] == "adt" and v[1].endswith("borrow::Cow"):
        return text(v[4][0])
    raise Unsure("text %s" % show(v)[:80])


def inner(v):
    while v[0] == "adt" and len(v[4]) == 1:
        v = v[4][0]
    if v[0] == "sbuf":
        return text(v)
    if v[0] != "str":
        raise Unsure("name %s" % show(v)[:80])
    return v[1]


class Panics(Exception):
    pass


class Matcher:
    def __init__(self, toks):
        self.toks = toks
        self.far = (-1, None, None)

    def flatten(self, exp):
        """[token or Alt or Mark]"""
        out, run = [], []

        def flush():
            if run:
                out.extend(TOKEN.findall("".join(run)))
                run.clear()
        for e in exp:
            if isinstance(e, str):
                run.append(e)
            else:
                flush()
                out.append(e)
        flush()
        return out

    def match(self, exp, i, keys, mark):
        """[(end, keys)]"""
        cur = [(i, keys)]
        for e in self.flatten(exp):
            if isinstance(e, Mark):
                mark = e.what
                continue
            nxt = []
            for j, ks in cur:
                if isinstance(e, Alt):
                    if e.right is not None:
                        nxt += self.match(e.right, j, ks, mark)
                    if e.wrong is not None:
                        nxt += self.match(e.wrong, j, ks | {e.key}, mark)
                elif j < len(self.toks) and (self.toks[j] == e or "⟨any:⟩" in e and self.any(e, self.toks[j])):
                    nxt.append((j + 1, ks))
                elif j > self.far[0]:
                    self.far = (j, e, mark)
            best = {}
            for j, ks in nxt:
                if j not in best or len(ks) < len(best[j]):
                    best[j] = ks
            cur = list(best.items())
            if not cur:
                return []
        return cur

    def any(self, e, t):
        a, b = e.split("⟨any:⟩")
        return t.startswith(a) and t.endswith(b)


KNOWN = {
    "size-tuple": "the size of a tuple is a call of `func() int` with an argument",
    "decode-tuple": "a decoded tuple is put together in variables that don't exist",
    "decode-definition": "a value of another definition is decoded by returning two values where three are declared",
    "variant-encode": "encoding a variant with fields returns nil instead of the bytes",
    "decode-optional": "an optional field that is missing is an error",
    "decode-end": "the end marker only leaves the switch, not the loop over the fields",
    "enum-parameters": "the type parameters of an enum are missing from its interface type",
    "enum-codec": "nothing writes or reads the id of a variant",
    "const-big": "a 128-bit constant is given a number where a *big.Int is declared",
    "import": "imports have no counterpart in the code",
    "import-big": "*big.Int is used without importing math/big",
}


def tokens(s):
    return TOKEN.findall(s)


def compare(R, f, where, label, expected, got, db):
    name, exp, mods = expected
    fs = dict(zip([x[0] for x in db.variants(got[1])[0]["fields"]], got[4])) if got[0] == "adt" else {}
    if set(fs) < {"name", "content", "modules"}:
        raise Unsure("output %s" % show(got)[:80])
    R.n("files")
    toks = tokens(text(fs["content"]))
    R.n("tokens", len(toks))
    M = Matcher(toks)
    ends = M.match(exp, 0, frozenset(), "header")
    hits = [ks for j, ks in ends if j == len(toks)]
    if hits:
        for k in min(hits, key=len):
            R.v(k, "%s (%s): %s: %s" % (f.name, loc(f), label, KNOWN[k]))
    else:
        j = max([j for j, _ in ends], default=-1)
        if j >= M.far[0]:
            t, e, mark = j, "the end", "end"
        else:
            t, e, mark = M.far
        R.v("%s:%s" % (mark, label.split(",")[0]), "%s (%s): %s: the %s part of the generated code has `%s` where `%s` is due (after `%s`)" % (
            f.name, loc(f), label, mark, " ".join(toks[t:t + 6]) or "nothing", e, " ".join(toks[max(0, t - 8):t])))
    R.n("obligations")
    if text(fs["name"]) != name:
        R.v("package-name:" + label.split(",")[0], "%s (%s): %s: the file of package %s is called %s" % (f.name, loc(f), label, name, text(fs["name"])))
    ms = fs["modules"]
    if ms[0] != "vec":
        raise Unsure("modules %s" % show(ms)[:80])
    R.n("obligations")
    if len(ms[1]) != len(mods):
        R.v("modules:" + label.split(",")[0], "%s (%s): %s: %d files of nested modules instead of %d" % (f.name, loc(f), label, len(ms[1]), len(mods)))
        return
    for e, g in zip(mods, ms[1]):
        compare(R, f, where, label, e, g, db)


# ------------------------------------------------------------------ cases
def named(*ts, ids=None, comments=()):
    return ("Named", [dict(name="field_%s" % "abcdefghijklmnopqrstuvwxyz"[i], ty=t, id=(ids[i] if ids else 11 + 7 * i), comment=["about %d.%d" % (i, k) for k in range(comments[i] if i < len(comments) else 0)]) for i, t in enumerate(ts)])


def unnamed(*ts, ids=None):
    return ("Unnamed", [dict(name="n%d" % i, ty=t, id=(ids[i] if ids else 3 + 5 * i), comment=[]) for i, t in enumerate(ts)])


UNIT = ("Unit", [])


def struct(fields, generics=(), lines=(), name="some_struct"):
    return dict(kind="Struct", name=name, generics=generics, fields=fields, comment=list(lines))


def variant(name, fields, id, lines=()):
    return dict(name=name, fields=fields, id=id, comment=list(lines))


def enum(vs, generics=(), lines=(), name="some_enum"):
    return dict(kind="Enum", name=name, generics=generics, variants=vs, comment=list(lines))


def alias(t, generics=(), lines=(), name="some_alias"):
    return dict(kind="TypeAlias", name=name, generics=generics, target=t, comment=list(lines))


def const(t, v, lines=(), name="some_const"):
    return dict(kind="Const", name=name, ty=t, value=v, comment=list(lines))


def module(defs, lines=(), name="some_mod"):
    return dict(kind="Module", name=name, defs=defs, comment=list(lines))


def ext(name, path=(), gens=()):
    return ("External", tuple(path), name, tuple(gens))


def composites(a, b):
    yield "list", ("Vec", a)
    yield "map", ("HashMap", a, b)
    yield "set", ("HashSet", a)
    yield "option", ("Option", a)
    yield "pair", ("Tuple", a, b)
    yield "array", ("Array", a, 5)
    yield "non-zero list", ("NonZero", ("Vec", a))
    yield "non-zero map", ("NonZero", ("HashMap", a, b))
    yield "non-zero set", ("NonZero", ("HashSet", a))
    yield "definition with arguments", ext("other", (), (a, b))


BASIC = [(k,) for k in SIMPLE_TYPES]
PANICS = [("NonZero", t) for t in (("Bool",), ("F32",), ("F64",), ("Option", ("U8",)), ("NonZero", ("U8",)), ("BoxString",), ("BoxBytes",), ("Tuple", ("U8",), ("U8",)), ("Array", ("U8",), 2), ext("other"))]


def cases():
    """(label, definitions of the schema, what it is known to panic for)"""
    for b in BASIC:
        yield "type %s" % b[0], [struct(named(b)), enum([variant("one", unnamed(b), 3)]), alias(b)], None
        yield "type %s, nested" % b[0], [struct(named(*[t for _, t in composites(b, ("F32",))]))], None
    for n in NUMBERS + NZ_TEXT:
        yield "non-zero %s" % n, [struct(named(("NonZero", (n,)), ("Option", ("NonZero", (n,))))), alias(("NonZero", (n,)))], None
    for la, t in composites(("U16",), ("String",)):
        yield "type %s" % la, [struct(named(t)), struct(unnamed(t, t)), enum([variant("one", named(t), 3), variant("two", unnamed(t), 5)]), alias(t)], None
        for lb, u in composites(t, ("I8",)):
            yield "%s, of %s" % (lb, la), [struct(named(u)), alias(u)], None
        for lb, u in composites(("I8",), t):
            if lb in ("map", "pair", "non-zero map", "definition with arguments"):
                yield "%s, with %s second" % (lb, la), [struct(named(u)), alias(u)], None
    for n in range(2, 13):
        ts = [BASIC[(5 * i + n) % len(BASIC)] for i in range(n)]
        yield "tuple, of %d" % n, [struct(named(("Tuple", *ts))), alias(("Tuple", *ts))], None
    for n in list(range(1, 33)):
        yield "array, of %d" % n, [struct(unnamed(("Array", ("I32",), n)))], None
    for n in (33, 64):
        yield "array, of %d" % n, [struct(unnamed(("Array", ("I32",), n)))], "array"
    for t in PANICS:
        yield "non-zero type, of %s" % t[1][0], [struct(named(t))], "NonZero<%s>" % t[1][0]
    for p in ((), ("one_mod",), ("one_mod", "TwoMod")):
        for g in ((), (("U8",),), (("U8",), ("Vec", ext("third", ("far",))))):
            yield "definition, path of %d and %d arguments" % (len(p), len(g)), [struct(named(ext("other", p, g))), alias(ext("other", p, g))], None
    gs = ("K", "Val", "LAST")
    for n in (1, 2, 3):
        use = [ext(g) for g in gs[:n]]
        yield "type parameters, %d of a struct" % n, [struct(named(*use), gs[:n]), struct(unnamed(*[("Vec", u) for u in use]), gs[:n])], None
        yield "type parameters, %d of an enum" % n, [enum([variant("v%d" % i, named(u), i + 1) for i, u in enumerate(use)] + [variant("all", unnamed(*use[::-1]), 9), variant("none", UNIT, 10)], gs[:n])], None
        yield "type parameters, %d of an alias" % n, [alias(("Tuple", ("U8",), *use), gs[:n])], None
    for la, t in composites(ext("K"), ext("Val")):
        yield "type parameters in a %s" % la, [enum([variant("one", named(t), 1), variant("two", unnamed(("Vec", t)), 2), variant("three", named(("U8",)), 3)], gs[:2]), struct(named(t), gs[:2])], None
    yield "type parameters, names with a path or arguments", [enum([variant("one", named(ext("K", ("m",))), 1), variant("two", named(ext("K", (), (("U8",),))), 2), variant("three", named(ext("K")), 3)], gs[:1])], None
    O = ("Option", ("U8",))
    for fs in ((), (("U8",),), (O,), (("U8",), ("I16",)), (O, ("U8",)), (("U8",), O, ("I16",)), (O, O)):
        for k, F in (("named", named), ("unnamed", unnamed)):
            if not fs:
                continue
            for ids in (None, [4, 3, 2][:len(fs)]):
                yield "fields, %d %s%s" % (len(fs), k, "" if ids is None else " with falling ids"), [struct(F(*fs, ids=ids)), enum([variant("one", F(*fs, ids=ids), 7), variant("two", UNIT, 3), variant("three", F(*fs[::-1], ids=ids), 2)])], None
    yield "fields, none", [struct(UNIT), enum([variant("one", UNIT, 1)]), enum([variant("one", UNIT, 7), variant("two", UNIT, 2), variant("three", UNIT, 8)])], None
    for n in (1, 2, 3):
        c = ["line %d" % i for i in range(n)]
        yield "comments, %d lines" % n, [struct(named(("U8",), ("U16",), comments=(n, 3 - n)), lines=c), enum([variant("one", named(("U8",), ("U8",), comments=(0, n)), 1, c), variant("two", UNIT, 2, c[1:])], lines=c),
                                       alias(("U8",), lines=c), const(("U8",), ("Int", 5), c), module([], c)], None
    S, E, L, C = struct(named(("U8",))), enum([variant("one", UNIT, 1)]), alias(("U8",)), const(("U8",), ("Int", 1))
    yield "modules, empty", [module([])], None
    yield "modules, each kind of definition", [S, module([S, E, L, C], ["about it"]), C], None
    yield "modules, two next to each other", [module([S], name="first_mod"), L, module([E, C], name="second_mod"), S], None
    yield "modules, three levels", [module([L, module([S, module([E], ["deep"], "inner_mod"), module([C], name="LastMod")], ["mid"], "mid_mod")], ["top"], "outer_mod")], None
    yield "imports, of a module and of a definition", [dict(kind="Import", segments=("a", "b"), element=None), dict(kind="Import", segments=("a",), element="Other"), S], None
    for t in ("Bool",):
        for b in (True, False):
            yield "constant, %s" % b, [const((t,), ("Bool", b))], None
    for t in NUMBERS:
        for v in (0, 7, -3):
            yield "constant, %s %d" % (t, v), [const((t,), ("Int", v))], None
    for t in ("F32", "F64"):
        yield "constant, %s" % t, [const((t,), ("Float", "x"))], None
    for t in ("String", "StringRef"):
        for s in ("", "text", "with \"quotes\""):
            yield "constant, %s of %d" % (t, len(s)), [const((t,), ("String", s))], None
    for t in ("Bytes", "BytesRef"):
        for s in ([], [0], [1, 255, 7]):
            yield "constant, %s of %d" % (t, len(s)), [const((t,), ("Bytes", s))], None
    for t in (("BoxString",), ("BoxBytes",), ("Vec", ("U8",)), ("Array", ("U8",), 1)):
        yield "constant, %s" % t[0], [const(t, ("String", "x") if t[0] == "BoxString" else ("Bytes", [1]))], "constant"


def judge(db, R, f, case):
    label, defs, panics = case
    R.n("schemas")
    I, outs = generated(db, f, "some_package", Build(db).schema(defs))
    for g in I.visited:
        R.saw(db.fns[g] if isinstance(g, str) and g in db.fns else g)
    if len(outs) != 1:
        R.undec("outcomes:" + label, "%d outcomes" % len(outs))
        return
    o = outs[0]
    if o.kind != "ret":
        k = "panic:%s" % (panics or label.split(",")[0])
        R.v(k, "%s (%s): %s: the generator panics: %s" % (f.name, loc(f), label, str(o.info)[:100]))
        return
    try:
        compare(R, f, f.name, label, output("some_package", defs, ()), I.deref_read(o.st, o.value), db)
    except Unsure as e:
        R.undec(label, str(e)[:120])
    except Panics as e:
        k = "panic:%s" % (panics or label.split(",")[0])
        R.v(k, "%s (%s): %s: the generator panics while writing %s" % (f.name, loc(f), label, e))


def run(db, R):
    fs = [f for f in db.fns.values() if f.crate.name == CRATE and f.item == "render_schema"]
    R.floor("schemas", 250)
    R.floor("tokens", 20000)
    if len(fs) != 1:
        R.undec("generator", "the function that renders a schema")
        return
    R.saw(fs[0])
    each(db, R, list(cases()), lambda r, c: judge(db, r, fs[0], c), None)
