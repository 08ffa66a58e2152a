"""The texts that the parser is analysed on: every form of every definition, type and literal, and ways to spoil them."""
import absint as A
from absint import is_t, show
from peg import Unsure, cs, union, compl, diff, MSPACE, SPACE, DIGIT, LOWER, UPPER, ALNUM
from rules.syntax import *

S = dict(kind="struct")
NAMED = ("named", [(1, True), (0, False)], True)
UNNAMED = ("unnamed", [(True,), (False,)], False)
KINDS = {
    "struct": dict(kind="struct", fields=("named", [(0, True)], True)),
    "enum": dict(kind="enum", variants=[(0, None, True)]),
    "alias": dict(kind="alias"),
    "const": dict(kind="const"),
    "import": dict(kind="import", segments=2, element=True),
    "module": dict(kind="module", defs=[dict(kind="alias")]),
}


def definitions():
    """(label, [definitions], comment lines of the schema)"""
    yield "empty schema", [], 0
    yield "commented schema", [], 2
    # structs
    yield "unit struct", [S], 0
    yield "commented unit struct", [dict(S, comment=1)], 0
    yield "schema comment and struct", [dict(KINDS["struct"], comment=3)], 1
    for n in (1, 2, 3):
        yield "struct with %d named fields" % n, [dict(S, fields=("named", [(0, k % 2 == 0) for k in range(n)], n != 2))], 0
        yield "struct with %d unnamed fields" % n, [dict(S, fields=("unnamed", [(k % 2 == 0,) for k in range(n)], n == 2))], 0
        yield "struct with %d type parameters" % n, [dict(S, generics=(n, n == 2), fields=("unnamed", [(True,)], False))], 0
    yield "unit struct with type parameters", [dict(S, generics=(1, False))], 0
    yield "struct with commented fields", [dict(S, fields=("named", [(2, True), (0, True), (1, False)], True))], 0
    yield "struct with everything", [dict(S, comment=2, attrs=[["unit", "single"], [["unit", "single"]]], generics=(2,), fields=NAMED)], 1
    # attributes
    for n, a in (("flag", [["unit"]]), ("value", [["single"]]), ("list", [[["unit"]]]), ("nested list", [[["single", ["unit", "single"], "unit"], "unit"]]), ("several", [["unit", "single", "unit"], ["single"]])):
        yield "attribute: %s" % n, [dict(KINDS["struct"], attrs=a)], 0
    yield "attribute of an enum", [dict(KINDS["enum"], comment=1, attrs=[["unit"], ["single"]])], 0
    # enums
    for n, spec in (("unit", None), ("named", NAMED), ("unnamed", UNNAMED)):
        for id in (True, False):
            yield "enum with one %s variant, %s id" % (n, "with" if id else "without"), [dict(kind="enum", variants=[(0, spec, id)], trailing=id)], 0
    yield "enum with several variants", [dict(kind="enum", generics=(1, True), variants=[(1, None, True), (2, None, False), (0, UNNAMED, False), (1, NAMED, True)])], 0
    yield "enum without trailing comma", [dict(kind="enum", comment=1, generics=(2,), variants=[(0, NAMED, False), (0, None, False)], trailing=False)], 0
    # the others
    for k in ("alias", "const", "module"):
        yield k, [KINDS[k]], 0
        yield "commented %s" % k, [dict(KINDS[k], comment=2)], 0
    yield "alias with type parameters", [dict(kind="alias", generics=(2,))], 0
    yield "alias with type parameters and comma", [dict(kind="alias", generics=(1, True))], 0
    for n in (1, 2, 3):
        yield "import of a module over %d" % n, [dict(kind="import", segments=n)], 0
        yield "import of an element over %d" % n, [dict(kind="import", segments=n, element=True)], 0
    yield "empty module", [dict(kind="module", defs=[])], 0
    yield "nested modules", [dict(kind="module", defs=[dict(kind="module", comment=1, defs=[dict(kind="module", defs=[]), KINDS["const"]]), S])], 0


def pairs():
    """any definition behind any other one, in the schema and in a module"""
    more = dict(KINDS, **{"unit struct": S, "tuple struct": dict(S, fields=("unnamed", [(True,)], False))})
    for a, x in more.items():
        for b, y in more.items():
            y = dict(y, comment=1) if b not in ("import",) else y
            yield "%s, then %s" % (a, b), [x, y], 0
            yield "%s, then %s in a module" % (a, b), [dict(kind="module", defs=[x, y])], 0
        yield "schema comment, then %s" % a, [x], 1


def data_types():
    for t, n in Builder.BASIC:
        yield t, lambda b, t=t, n=n: b.t_basic(t, n)
    for t, n in Builder.SINGLE:
        yield t, lambda b, t=t, n=n: b.t_single(t, n)
    yield "hash_map", lambda b: b.t_map()
    for n in (2, 3, 4):
        for c in (False, True):
            yield "tuple of %d%s" % (n, " with a trailing comma" if c else ""), lambda b, n=n, c=c: b.t_tuple(n, c)
    yield "array", lambda b: b.t_array()
    for s in (0, 1, 2):
        for g in (0, 1, 2):
            yield "external type, %d path segments, %d arguments" % (s, g), lambda b, s=s, g=g: b.t_external(s, g, g == 1)


ESCAPES = (("\\n", "\n"), ("\\r", "\r"), ("\\t", "\t"), ("\\b", "\b"), ("\\f", "\f"), ("\\0", "\0"), ("\\\\", "\\"), ("\\/", "/"), ('\\"', '"'))


def literals():
    yield "true", lambda b: b.l_bool(True)
    yield "false", lambda b: b.l_bool(False)
    for s in ("", "+", "-"):
        yield "%sint" % s, lambda b, s=s: b.l_int(s)
        yield "%sfloat" % s, lambda b, s=s: b.l_float(s)
        yield "%sfloat with exponent" % s, lambda b, s=s: b.l_float(s, exp="e")
    for e in ("e-", "e+", "E", "E-"):
        yield "float with exponent %s" % e, lambda b, e=e: b.l_float("", exp=e)
    yield "empty string", lambda b: b.l_string([])
    yield "string", lambda b: b.l_string(["plain"])
    for t, m in ESCAPES:
        yield "string with escape %s" % t, lambda b, t=t, m=m: b.l_string(["plain", (t, m), "plain"])
        yield "string of escapes %s" % t, lambda b, t=t, m=m: b.l_string([(t, m), (t, m)])
    yield "string with code", lambda b: b.l_string(["plain", "code", "plain"])
    yield "string with skipped white space", lambda b: b.l_string([("\\n", "\n"), "skip", ("\\t", "\t")])
    for n in (1, 2, 3):
        for c in (False, True):
            yield "%d bytes%s" % (n, " with a trailing comma" if c else ""), lambda b, n=n, c=c: b.l_bytes(n, c)


# ------------------------------------------------------------------ texts outside the language
WORDEND = union(MSPACE, cs("{(<#/}:;=,@"))


def broken():
    """(label, what to build, mods): each text misses or spoils one thing"""
    def defs(*ds, **mods):
        return list(ds), mods
    K = KINDS
    E = dict(kind="enum", variants=[(0, None, True), (0, ("unnamed", [(True,), (True,)], False), True), (0, ("named", [(0, True), (0, True)], False), True)], generics=(2,))
    N = dict(S, generics=(2,), fields=("named", [(0, True), (0, True)], False))
    U = dict(S, fields=("unnamed", [(True,), (True,)], False))
    A_ = dict(kind="alias", generics=(2,))
    every = dict(K, **{"enum": E, "struct": N, "tuple struct": U, "alias": A_, "unit struct": S})
    for n, d in every.items():
        yield "%s without keyword" % n, [d], {"keyword": "", "keyword:space": ""}
        yield "%s without space behind the keyword" % n, [d], {"keyword:space": ""}
        w = {"struct": "strukt", "enum": "enumm", "alias": "typ", "const": "konst", "import": "usee", "module": "mods"}[d["kind"]]
        yield "%s with a misspelled keyword" % n, [d], {"keyword": w}
        yield "%s with an upper case keyword" % n, [d], {"keyword": {"struct": "Struct", "enum": "Enum", "alias": "Type", "const": "Const", "import": "Use", "module": "Mod"}[d["kind"]]}
        nk = {"import": "segment"}.get(d["kind"], d["kind"])
        first, rest = NAMES[nk]
        yield "%s without a name" % n, [d], {"first:" + nk: None}
        yield "%s name that starts wrong" % n, [d], {"first:" + nk: diff(compl(first), union(MSPACE, cs("@/#")))}
        yield "%s name with a bad character" % n, [d], {"bad:" + nk: diff(compl(rest), WORDEND)}
    for what, kind in (("field", "field"), ("type parameter", "generic")):
        first, rest = NAMES[kind]
        yield "%s without a name" % what, [N], {"first:" + kind: None}
        yield "%s name that starts wrong" % what, [N], {"first:" + kind: diff(compl(first), union(MSPACE, cs("@/#")))}
        yield "%s name with a bad character" % what, [N], {"bad:" + kind: diff(compl(rest), union(WORDEND, cs(">")))}
    first, rest = NAMES["variant"]
    yield "variant without a name", [dict(kind="enum", variants=[(0, UNNAMED, True)])], {"first:variant": None}
    yield "variant name that starts wrong", [E], {"first:variant": diff(compl(first), union(MSPACE, cs("@/#}")))}
    yield "variant name with a bad character", [E], {"bad:variant": diff(compl(rest), WORDEND)}
    first, rest = NAMES["element"]
    yield "imported element that starts wrong", [K["import"]], {"first:element": diff(compl(first), union(MSPACE, LOWER))}
    yield "imported element with a bad character", [K["import"]], {"bad:element": diff(compl(rest), WORDEND)}
    yield "imported element without a name", [K["import"]], {"first:element": None}
    for n, d in (("named fields", N), ("unnamed fields", U), ("enum", E)):
        yield "%s without commas" % n, [dict(d, generics=(0,))], {"comma": " "}
        yield "%s with semicolons for commas" % n, [dict(d, generics=(0,))], {"comma": ";"}
        yield "%s with two commas" % n, [dict(d, generics=(0,))], {"comma": ",,"}
    yield "type parameters without commas", [dict(U, generics=(2,), fields=None)], {"comma": " "}
    yield "field without colon", [N], {"field:colon": ""}
    yield "field with an equal sign", [N], {"field:colon": "="}
    for slot, n, d in (("fields", "named fields", N), ("fields", "unnamed fields", U), ("variants", "enum", E), ("module", "module", K["module"]), ("generics", "type parameters", dict(S, generics=(2,)))):
        if n not in ("unnamed fields",):
            yield "%s, not opened" % n, [d], {slot + ":open": ""}
        yield "%s, not closed" % n, [d], {slot + ":close": ""}
        yield "%s, closed with the wrong bracket" % n, [d], {slot + ":close": "]"}
        yield "%s, opened with the wrong bracket" % n, [d], {slot + ":open": "["}
    yield "id without its sign", [U], {"id:at": ""}
    yield "id with another sign", [U], {"id:at": "#"}
    yield "id that is too large", [U], {"id:bits": ("ge", 32)}
    yield "id of a field that is too large", [N], {"id:bits": ("ge", 32)}
    yield "id of a variant that is too large", [dict(kind="enum", variants=[(0, None, True)])], {"id:bits": ("ge", 32)}
    for n in ("alias", "const", "import"):
        yield "%s without semicolon" % n, [K[n]], {"semicolon": ""}
        yield "%s with a comma for the semicolon" % n, [K[n]], {"semicolon": ","}
    for n in ("alias", "const"):
        yield "%s without equal sign" % n, [K[n]], {"equal": ""}
        yield "%s with two equal signs" % n, [K[n]], {"equal": "=="}
    yield "const without colon", [K["const"]], {"colon": ""}
    yield "import with single colons", [K["import"]], {"path": ":"}
    yield "import with dots", [K["import"]], {"path": "."}
    yield "comment of two slashes", [dict(K["struct"], comment=1)], {"comment": "//x"}
    yield "comment behind a percent sign", [dict(K["struct"], comment=1)], {"comment": "%"}
    A1 = dict(K["struct"], attrs=[["unit", ["unit", "unit"]]])
    yield "attributes, not opened", [A1], {"attr:open": ""}
    yield "attributes, not closed", [A1], {"attr:close": ""}
    yield "attributes without commas", [A1], {"attr:comma": " "}
    yield "attribute without a name", [A1], {"first:attribute": None}
    yield "attribute name that starts wrong", [A1], {"first:attribute": diff(compl(LOWER), MSPACE)}


def broken_types():
    def lit(s):
        return lambda b: b.lit(s)
    for s in ("u7", "i7", "u256", "f16", "int", "str", "&u8", "&vec", "box<u8>", "box<string", "box<bytes", "box", "boxstring>", "vec", "hash_map", "hash_set", "option", "non_zero", "u8u8", "string8", "()", "[]", "(", "[", "<", "&", "_", "1", ""):
        yield "the word %s" % s, lit(s), {}
    for t in ("vec", "hash_set", "option", "non_zero", "hash_map"):
        f = (lambda b: b.t_map()) if t == "hash_map" else (lambda b, t=t: b.t_single(t, dict(Builder.SINGLE)[t]))
        yield "%s, opened wrong" % t, f, {"Angle:open": "("}
        yield "%s, not closed" % t, f, {"Angle:close": ""}
        yield "%s, closed wrong" % t, f, {"Angle:close": ")"}
    yield "vec of two types", lambda b: (b.lit("vec<"), b.nest("Type"), b.lit(","), b.nest("Type"), b.lit(">")), {}
    yield "vec of no type", lit("vec<>"), {}
    yield "hash_map of one type", lambda b: (b.lit("hash_map<"), b.nest("Type"), b.lit(">")), {}
    yield "hash_map of three types", lambda b: (b.lit("hash_map<"), b.nest("Type"), b.lit(","), b.nest("Type"), b.lit(","), b.nest("Type"), b.lit(">")), {}
    yield "hash_map without comma", lambda b: b.t_map(), {"comma": " "}
    yield "tuple without comma", lambda b: b.t_tuple(2, False), {"comma": " "}
    yield "tuple, not closed", lambda b: b.t_tuple(2, False), {"Parenthesis:close": ""}
    yield "tuple, closed wrong", lambda b: b.t_tuple(2, False), {"Parenthesis:close": "]"}
    yield "array, not closed", lambda b: b.t_array(), {"Bracket:close": ""}
    yield "array without semicolon", lambda b: b.t_array(), {"semicolon": ","}
    yield "array size that is too large", lambda b: b.t_array(), {"id:bits": ("ge", 32)}
    yield "array without a size", lambda b: (b.lit("["), b.nest("Type"), b.lit(";]")), {}
    yield "external type that starts wrong", lambda b: b.t_external(1, 0, False), {"first:external": diff(compl(UPPER), union(LOWER, MSPACE))}
    yield "external type with single colons", lambda b: b.t_external(1, 0, False), {"path": ":"}
    yield "external type, arguments without comma", lambda b: b.t_external(0, 2, False), {"comma": " "}
    yield "external type, arguments not closed", lambda b: b.t_external(0, 1, False), {"generics:close": ""}
    yield "external type without a name", lambda b: b.t_external(2, 0, False), {"first:external": None}


def broken_literals():
    def lit(s):
        return lambda b: b.lit(s)
    for s in ("True", "FALSE", "tru", "yes", "nil", "null", "-", "+", "--1", "+-1", ".5", "'a'", "[", "[]", "[,]", '"', '"\\x"', '"\\u"', '"\\u{}"', '"\\u{110000}"', '"\\u{d800}"', '"\\u{1234567}"', '"\\u41"', "[-1]", "[256]", "[1 2]", "[1,,2]", "[1", ""):
        yield "the text %s" % s, lit(s), {}
    yield "string, opened wrong", lambda b: b.l_string(["plain"]), {"quote:open": "'"}
    yield "string, not closed", lambda b: b.l_string(["plain"]), {"quote:close": ""}
    yield "byte that is too large", lambda b: b.l_bytes(2), {"byte:bits": ("ge", 8)}
    yield "int that is too large", lambda b: b.l_int(""), {"int:bits": ("ge", 127)}
    yield "negative int that is too large", lambda b: b.l_int("-"), {"int:bits": ("ge", 127)}
