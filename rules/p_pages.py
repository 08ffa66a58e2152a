"""M33: the documentation shows every definition with its own facts, and its links lead to its pages."""
import posixpath
from html.parser import HTMLParser
import absint as A
from absint import is_t, show
from rules.docs import each
from rules.doccode import *
from rules.common import loc
from rules.p_gocode import BASIC, NUMBERS, UNIT, alias, composites, const, enum, ext, module, named, struct, unnamed, variant

SPELL = {"Bool": "bool", "String": "string", "StringRef": "&string", "Bytes": "bytes", "BytesRef": "&bytes", "BoxString": "box<string>", "BoxBytes": "box<bytes>"}
COLL = {"Vec": "vec", "HashMap": "hash_map", "HashSet": "hash_set", "Option": "option", "NonZero": "non_zero"}
KINDS = (("Module", "Modules", "%s/index.html"), ("Struct", "Structs", "struct.%s.html"), ("Enum", "Enums", "enum.%s.html"), ("TypeAlias", "Aliases", "alias.%s.html"), ("Const", "Constants", "constant.%s.html"))
FILE = {k: f for k, _, f in KINDS}


# ------------------------------------------------------------------ what a page shows
class Page(HTMLParser):
    """[(kind, text)] in reading order: the text, the links with where they lead, and the parts that come from elsewhere"""

    def __init__(self, where):
        super().__init__(convert_charrefs=True)
        self.dir, self.out, self.pre, self.quiet = posixpath.dirname(where), [], 0, 0

    def lead(self, href):
        return posixpath.normpath(posixpath.join("/out", self.dir, href))

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag == "link":
            self.out.append(("style", self.lead(d.get("href") or "")))
        if tag == "a":
            self.out.append(("link", self.lead(d.get("href") or "")))
        if tag == "pre":
            self.pre += 1
            self.out.append(("pre", ""))
        if tag in ("script", "style"):
            self.quiet += 1

    def handle_endtag(self, tag):
        if tag == "a":
            self.out.append(("/link", ""))
        if tag == "pre":
            self.pre -= 1
            self.out.append(("/pre", ""))
        if tag in ("script", "style"):
            self.quiet -= 1

    def handle_data(self, data):
        if self.quiet:
            return
        if not self.pre:
            data = squeeze(data)
        if not data:
            return
        if self.out and self.out[-1][0] == "text":
            self.out[-1] = ("text", self.out[-1][1] + data)
        else:
            self.out.append(("text", data))


def squeeze(s):
    """without the white space, except in the parts that come from elsewhere"""
    out, depth = [], 0
    part = []
    for c in s:
        if c == "⟨":
            depth += 1
        if depth:
            part.append(c)
        elif not c.isspace():
            out.append(c)
        if c == "⟩":
            depth -= 1
            if not depth:
                w = "".join(part)
                part = []
                k, t = w[1:-1].split(":", 1)
                # (white space at the ends of a paragraph and of the whole means nothing in Markdown)
                out.append("⟨%s:%s⟩" % (k, "\n".join(l.rstrip() for l in t.split("\n")).strip() if k == "markdown" else t))
    return "".join(out + part)


# ------------------------------------------------------------------ what it should show
def spell(t):
    k = t[0]
    if k in COLL:
        return "%s<%s>" % (COLL[k], ", ".join(map(spell, t[1:])))
    if k == "Tuple":
        return "(%s)" % ", ".join(map(spell, t[1:]))
    if k == "Array":
        return "[%s; %d]" % (spell(t[1]), t[2])
    if k == "External":
        return "".join(p + "::" for p in t[1]) + t[2] + ("<%s>" % ", ".join(map(spell, t[3])) if t[3] else "")
    return SPELL.get(k, k.lower())


def head(word, d):
    return "%s %s%s" % (word, d["name"], "<%s>" % ", ".join(d["generics"]) if d["generics"] else "")


def body(fields, pad):
    kind, fs = fields
    if kind == "Named":
        return " {\n%s%s}" % ("".join("%s    %s: %s @%d,\n" % (pad, f["name"], spell(f["ty"]), f["id"]) for f in fs), pad)
    if kind == "Unnamed":
        return "(%s)" % ", ".join("%s @%d" % (spell(f["ty"]), f["id"]) for f in fs)
    return ""


def code(d):
    k = d["kind"]
    if k == "Struct":
        return head("struct", d) + body(d["fields"], "")
    if k == "Enum":
        return head("enum", d) + " {\n%s}" % "".join("    %s%s @%d,\n" % (v["name"], body(v["fields"], "    "), v["id"]) for v in d["variants"])
    if k == "TypeAlias":
        return "%s = %s;" % (head("type", d), spell(d["target"]))
    kind, v = d["value"]
    lit = {"Bool": lambda: "true" if v else "false", "Int": lambda: str(v), "Float": lambda: "⟨number:%s⟩" % v, "String": lambda: "⟨escaped:⟨quoted:%s⟩⟩" % v,
           "Bytes": lambda: "⟨escaped:⟨quoted:%s⟩⟩" % ",".join(map(str, v))}[kind]()
    return "const %s: %s = %s;" % (d["name"], spell(d["ty"]), lit)


def md(lines):
    return squeeze("⟨markdown:%s⟩" % "\n".join(lines))


def first(lines):
    out = []
    for l in lines:
        if not l.strip():
            break
        out.append(l)
    return out


def sized(db, t):
    return "" if t[0] == "External" else "MetadataThesizerangeis:⟨markdown:⟨size:%s⟩⟩" % show(Build(db).ty(t)).replace("⟨", "(").replace("⟩", ")")


def fields(db, fs):
    return "".join("%s:%s@%d%s%s" % (f["name"], squeeze(spell(f["ty"])), f["id"], md(f["comment"]), sized(db, f["ty"])) for f in fs)


class Out(list):
    def text(self, s):
        if not s:
            return
        if self and self[-1][0] == "text":
            self[-1] = ("text", self[-1][1] + s)
        else:
            self.append(("text", s))

    def link(self, to, s):
        self.append(("link", to))
        self.text(s)
        self.append(("/link", ""))


TITLE = {"Module": "Module", "Struct": "Struct", "Enum": "Enum", "TypeAlias": "Alias", "Const": "Constant"}


def pages(db, root, defs, lines):
    """(name, path, file below the directory of its parent, what it shows, pages below)"""
    def listing(o, where, ds):
        for k, title, f in KINDS:
            o.text(title)
            for d in ds:
                if d["kind"] == k:
                    o.link("/out/%s/%s" % (where, f % d["name"]), d["name"])
                    o.text(md(first(d["comment"])))

    def below(ds, path):
        return [page(d, path) for d in ds if d["kind"] != "Import"]

    def page(d, path):
        k, name = d["kind"], d["name"]
        o = Out([("style", "/out/assets/style.css")])
        o.text(name + "-Mabo" + TITLE[k])
        for i, p in enumerate(path):
            o.link("/out/%s/index.html" % "/".join(path[:i + 1]), p)
            o.text("::")
        o.text(name)
        if k == "Module":
            o.text(md(d["comment"]))
            listing(o, "/".join(path + [name]), d["defs"])
            return name, path + [name], FILE[k] % name, o, below(d["defs"], path + [name])
        o += [("pre", ""), ("text", code(d)), ("/pre", "")]
        o.text(md(d["comment"]))
        if k == "Struct":
            kind, fs = d["fields"]
            o.text("Metadata" + ("" if kind == "Unit" else "ThenextfreeIDis%d" % (max([f["id"] for f in fs], default=0) + 1)))
            o.text("Fields" + fields(db, fs))
        if k == "Enum":
            o.text("Variants")
            for v in d["variants"]:
                o.text("%s@%d%s" % (v["name"], v["id"], md(v["comment"])))
                if v["fields"][0] != "Unit":
                    o.text("Fields" + fields(db, v["fields"][1]))
        return name, path, FILE[k] % name, o, []

    o = Out([("style", "/out/assets/style.css")])
    o.text("%s-MaboSchema%s%s" % (root, root, md(lines)))
    listing(o, root, defs)
    return root, [root], "%s/index.html" % root, o, below(defs, [root])


# ------------------------------------------------------------------ comparison
def part(v, db):
    return dict(zip([x[0] for x in db.variants(v[1])[0]["fields"]], v[4]))


def differs(a, b):
    """where two pages differ: (what is there, what is due, what is before it)"""
    for i in range(max(len(a), len(b))):
        x, y = (l[i] if i < len(l) else ("end", "") for l in (a, b))
        if x == y:
            continue
        if x[0] == y[0] == "text":
            n = 0
            while n < min(len(x[1]), len(y[1])) and x[1][n] == y[1][n]:
                n += 1
            return x[1][n:n + 40], y[1][n:n + 40], x[1][max(0, n - 30):n]
        return "%s %s" % x, "%s %s" % y, (a[i - 1][1] if i else "")[-30:]
    return None


def compare(R, f, label, expected, got, db, parent="", kind="index"):
    name, path, file, exp, subs = expected
    fs = part(got, db) if got[0] == "adt" else {}
    if not {"name", "path", "file", "content", "modules"} <= set(fs):
        raise Unsure("output %s" % show(got)[:80])
    R.n("pages")
    R.n("obligations", 3)
    short = label.split(",")[0]
    at = posixpath.join(parent, file)
    if text(fs["name"]) != name or fs["path"][0] in ("vec", "arr") and [text(x) for x in fs["path"][1]] != path:
        R.v("place:%s:%s" % (kind, short), "%s (%s): %s: the page %s says it belongs to %s of %s" % (f.name, loc(f), label, at, text(fs["name"]), show(fs["path"])[:80]))
    if text(fs["file"]) != file:
        R.v("file:%s:%s" % (kind, short), "%s (%s): %s: the page for %s is written to %s instead of %s" % (f.name, loc(f), label, name, text(fs["file"]), file))
    P = Page(at)
    P.feed(text(fs["content"]))
    P.close()
    R.n("facts", len(P.out))
    d = differs(P.out, list(exp))
    if d:
        R.v("page:%s:%s" % (kind, short), "%s (%s): %s: the page %s shows `%s` where `%s` is due (after `%s`)" % (f.name, loc(f), label, at, d[0] or "nothing", d[1] or "nothing", d[2]))
    ms = fs["modules"]
    if ms[0] not in ("vec", "arr"):
        raise Unsure("modules %s" % show(ms)[:80])
    got_names = [text(part(g, db)["file"]) for g in ms[1]]
    if got_names != [e[2] for e in subs]:
        R.v("pages:%s:%s" % (kind, short), "%s (%s): %s: below %s there are the pages %s instead of %s" % (f.name, loc(f), label, at, got_names, [e[2] for e in subs]))
        return
    for e, g in zip(subs, ms[1]):
        compare(R, f, label, e, g, db, posixpath.join(parent, name), e[2].split(".")[0] if not e[2].endswith("/index.html") else "module")


# ------------------------------------------------------------------ cases
def cases():
    """(label, definitions, comment of the schema, path of the schema)"""
    for b in BASIC:
        yield "type %s" % b[0], [struct(named(b)), enum([variant("one", unnamed(b), 3)]), alias(b)], (), None
    for la, t in composites(("U16",), ("String",)):
        yield "type %s" % la, [struct(named(t)), struct(unnamed(t, t), name="other_struct"), enum([variant("one", named(t), 3), variant("two", unnamed(t), 5)]), alias(t)], (), None
        for lb, u in composites(t, ("I8",)):
            yield "%s, of %s" % (lb, la), [struct(named(u)), alias(u)], (), None
        for lb, u in composites(("I8",), t):
            if lb in ("map", "pair", "definition with arguments"):
                yield "%s, with %s second" % (lb, la), [struct(named(u)), alias(u)], (), None
    for n in (2, 3, 5, 12):
        ts = [BASIC[(5 * i + n) % len(BASIC)] for i in range(n)]
        yield "tuple, of %d" % n, [struct(named(("Tuple", *ts))), alias(("Tuple", *ts)), enum([variant("one", unnamed(("Tuple", *ts)), 1)])], (), None
    for n in (1, 2, 10, 4294967295):
        yield "array, of %d" % n, [struct(unnamed(("Array", ("I32",), n))), alias(("Array", ("Array", ("U8",), 3), n))], (), None
    for p in ((), ("one_mod",), ("one_mod", "TwoMod")):
        for g in ((), (("U8",),), (("U8",), ("Vec", ext("third", ("far",)))), (("U8",), ext("fourth", (), (("I8",), ("U16",))), ("Bool",))):
            yield "definition, path of %d and %d arguments" % (len(p), len(g)), [struct(named(ext("other", p, g))), alias(ext("other", p, g)), enum([variant("one", unnamed(ext("other", p, g)), 1)])], (), None
    gs = ("K", "Val", "LAST")
    for n in (1, 2, 3):
        use = [ext(g) for g in gs[:n]]
        yield "type parameters, %d" % n, [struct(named(*use), gs[:n]), struct(unnamed(*use), gs[:n], name="other_struct"), enum([variant("v%d" % i, named(u), i + 1) for i, u in enumerate(use)], gs[:n]), alias(("Tuple", ("U8",), *use), gs[:n])], (), None
    O = ("Option", ("U8",))
    for fs in ((("U8",),), (O,), (("U8",), ("I16",)), (("U8",), O, ("I16",)), (O, ext("x"), ("Bool",), O)):
        for k, F in (("named", named), ("unnamed", unnamed)):
            for ids in (None, list(range(len(fs) + 1, 1, -1)), [9, 50, 3, 7][:len(fs)], [536870911, 1, 2, 3][:len(fs)]):
                n = len(fs)
                yield "fields, %d %s%s" % (n, k, "" if ids is None else " with ids %s" % ids), [struct(F(*fs, ids=ids)), enum([variant("one", F(*fs, ids=ids), 7), variant("two", UNIT, 3), variant("three", F(*fs[::-1], ids=ids), 2)]),
                                                                                           enum([variant("last", F(*fs, ids=ids), 4294967295)], name="other_enum")], (), None
    yield "fields, none", [struct(UNIT), enum([variant("one", UNIT, 1)]), enum([variant("one", UNIT, 7), variant("two", UNIT, 2), variant("three", UNIT, 8)], name="other_enum"), enum([], name="no_variants")], (), None
    yield "fields, no named ones", [struct(("Named", [])), struct(("Unnamed", []), name="other_struct"), enum([variant("one", ("Named", []), 1), variant("two", ("Unnamed", []), 2)])], (), None
    for la, c in (("none", []), ("one line", ["line 0"]), ("two lines", ["line 0", "line 1"]), ("two paragraphs", ["line 0", "line 1", "", "line 2"]), ("three paragraphs", ["a", "", "b", "c", "", "d"]),
                  ("a blank first line", ["", "line 1"]), ("a line of spaces", ["one", "  ", "two"]), ("a blank last line", ["one", ""]), ("markup", ["a <b>bold</b> & \"word\"", "`code`", "", "- item"])):
        f = lambda k: named(("U8",), ("U16",))
        F = ("Named", [dict(name="field_a", ty=("U8",), id=1, comment=c), dict(name="field_b", ty=ext("x"), id=2, comment=["other"]), dict(name="field_c", ty=("I8",), id=3, comment=c)])
        yield "comments, %s" % la, [struct(F, lines=c), enum([variant("one", F, 1, c), variant("two", UNIT, 2, ["second"]), variant("three", ("Unnamed", F[1]), 3, c)], lines=c), alias(("U8",), lines=c), const(("U8",), ("Int", 5), c),
                                    module([struct(F, lines=c), module([], c, "deep_mod"), enum([], lines=c), alias(("U8",), lines=c), const(("Bool",), ("Bool", True), c)], c)], c, None
    S = struct(named(("U8",)), lines=["struct text"])
    E, L, C = enum([variant("one", UNIT, 1)], lines=["enum text"]), alias(("U8",), lines=["alias text"]), const(("U8",), ("Int", 1), ["const text"])
    yield "schema, empty", [], (), None
    yield "schema, with a path", [S], ["about"], "some/dir/file_name.mabo"
    again = lambda d, n: dict(d, name=n, comment=["about " + n])
    many = [again(d, "%s_%s" % (d["name"], w)) for w in ("first", "second", "third") for d in (S, E, L, C)]
    yield "definitions, three of each kind", many, (), None
    yield "definitions, three of each kind in a module", [module(many, ["many"])], (), "x.mabo"
    yield "definitions, in another order", many[::-1], (), None
    yield "modules, empty", [module([]), module([], ["more"], "other_mod")], (), None
    yield "modules, each kind of definition", [S, module([S, E, L, C], ["about it"]), C], (), None
    yield "modules, two next to each other", [module([S], name="first_mod"), L, module([E, C], name="second_mod"), S], (), None
    yield "modules, three levels", [module([L, module([S, module([E, S], ["deep"], "inner_mod"), module([C], name="LastMod")], ["mid"], "mid_mod"), C], ["top"], "outer_mod"), E], (), "a.b.mabo"
    yield "modules, four levels of the same name", [module([module([module([module([S, L, C, E], name="m")], name="m")], name="m"), S], name="m")], (), None
    I = [dict(kind="Import", segments=("a", "b"), element=None), dict(kind="Import", segments=("a",), element="Other")]
    yield "imports, of a module and of a definition", [I[0], S, I[1], module(I[::-1] + [E], name="with_imports")], (), None
    for b in (True, False):
        yield "constant, %s" % b, [const(("Bool",), ("Bool", b))], (), None
    for t in NUMBERS:
        for v in (0, 7, -3, 2 ** 100):
            yield "constant, %s %d" % (t, v), [const((t,), ("Int", v))], (), None
    for t in ("F32", "F64"):
        yield "constant, %s" % t, [const((t,), ("Float", "x"))], (), None
    for t in ("String", "StringRef"):
        for s in ("", "text", "with <markup>"):
            yield "constant, %s of %d" % (t, len(s)), [const((t,), ("String", s))], (), None
    for t in ("Bytes", "BytesRef"):
        for s in ([], [0], [1, 255, 7]):
            yield "constant, %s of %d" % (t, len(s)), [const((t,), ("Bytes", s))], (), None


def judge(db, R, f, case):
    label, defs, lines, path = case
    R.n("schemas")
    I, outs = rendered(db, f, schema_of(db, defs, lines, path))
    for g in I.visited:
        R.saw(db.fns[g] if isinstance(g, str) and g in db.fns else g)
    if len(outs) != 1:
        R.undec("outcomes:" + label, "%d outcomes" % len(outs))
        return
    o = outs[0]
    short = label.split(",")[0]
    if o.kind != "ret":
        R.v("panic:%s" % short, "%s (%s): %s: the generator panics: %s" % (f.name, loc(f), label, str(o.info)[:100]))
        return
    v = I.deref_read(o.st, o.value)
    if v[0] != "adt" or v[3] not in ("Ok", "Err"):
        R.undec(label, "result %s" % show(v)[:80])
        return
    if v[3] == "Err":
        R.v("error:%s" % short, "%s (%s): %s: the generator fails: %s" % (f.name, loc(f), label, show(v)[:100]))
        return
    try:
        root = "root" if path is None else path.rsplit("/", 1)[-1].rsplit(".", 1)[0]
        compare(R, f, label, pages(db, root, defs, lines), v[4][0], db)
    except Unsure as e:
        R.undec(label, str(e)[:120])


def run(db, R):
    fs = [f for f in db.fns.values() if f.crate.name == CRATE and f.item == "render_schema"]
    R.floor("schemas", 150)
    R.floor("pages", 500)
    if len(fs) != 1:
        R.undec("generator", "the function that renders a schema")
        return
    R.saw(fs[0])
    each(db, R, list(cases()), lambda r, c: judge(db, r, fs[0], c), None)
