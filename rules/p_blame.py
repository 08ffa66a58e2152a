"""M34: what type resolution says about a schema: the use that fails, where the search ended, and the declaration that doesn't fit."""
from rules.docs import *
from rules.p_clashes import ClashInterp
from rules.compiler import find_fn
from rules.trees import Trees
from rules import literal, maps

RES = "mabo_compiler::resolve::"
HOSTS = [("struct", "struct S { a: %s }"), ("second field", "struct S { a: u8, b: %s, c: u8 }"), ("tuple struct", "struct S(%s)"), ("second unnamed field", "struct S(u8, %s)"), ("variant", "enum E { A, B { a: u8, b: %s } }"),
         ("unnamed field of a variant", "enum E { A(u8), B(u8, %s), C }"), ("alias", "type Y = %s;"), ("const", "const C: %s = 1;"), ("later struct", "struct Q(u8) struct S { a: %s }")]
WRAPS = [("vec", "vec<%s>"), ("hash_set", "hash_set<%s>"), ("option", "option<%s>"), ("non_zero", "non_zero<%s>"), ("key", "hash_map<%s, u8>"), ("value", "hash_map<u8, %s>"), ("tuple", "(%s, u8)"), ("end of a tuple", "(u8, u32, %s)"),
         ("array", "[%s; 3]"), ("nested", "vec<option<hash_map<u8, %s>>>")]
# around a use: (label, text with the hole, path of the module, declarations that are put next to the use)
PLACES = [("root", "%s", ""), ("module", "struct Other(u8) mod inner { %s } struct Last(u8)", "::inner"), ("two modules down", "mod inner { struct Other(u8) mod deep { %s } }", "::inner::deep"),
          ("six modules down", "mod m1 { mod m2 { mod m3 { mod m4 { mod m5 { mod m6 { %s } } } struct Mid(u8) } } }", "::m1::m2::m3::m4::m5::m6")]
KINDS = [("struct", "struct ‹%s›%s(u8)"), ("enum", "enum ‹%s›%s { A, B }")]
ODD = [("type alias", "type ‹%s› = u8;", "alias"), ("constant", "const ‹%s›: u8 = 1;", "const")]


def g(n):
    return "<%s>" % ", ".join("ABC"[:n]) if n else ""


def args(n):
    return "<%s>" % ", ".join(["u8", "string", "bool"][:n]) if n else ""


def uses():
    """(label, use, declarations beside it, kind of error, fields); the path is relative to the module with the use"""
    yield "no such type", "«Nope»", "struct Near(u8)", "MissingDefinition", dict(name="Nope", path="")
    yield "no such type, with arguments", "«Nope»<u8>", "struct Near(u8) type Noper = u8;", "MissingDefinition", dict(name="Nope", path="")
    yield "no such type in a module", "sub::«Nope»", "struct Nope(u8) mod sub { struct Near(u8) }", "MissingDefinition", dict(name="Nope", path="::sub")
    yield "no such type two modules down", "sub::low::«Nope»", "mod sub { struct Nope(u8) mod low { struct Near(u8) } }", "MissingDefinition", dict(name="Nope", path="::sub::low")
    yield "no such module", "«gone»::«X»", "struct X(u8) mod other { struct X(u8) }", "MissingModule", dict(name="gone", path="")
    yield "no such module in a module", "sub::«gone»::«X»", "mod gone { struct X(u8) } mod sub { struct X(u8) }", "MissingModule", dict(name="gone", path="::sub")
    yield "no such module two modules down", "sub::low::«gone»::«X»", "mod sub { mod gone { struct X(u8) } mod low { struct X(u8) } }", "MissingModule", dict(name="gone", path="::sub::low")
    yield "no such module first", "«gone»::sub::«X»", "mod sub { mod gone { struct X(u8) } struct X(u8) }", "MissingModule", dict(name="gone", path="")
    for k, d in KINDS:
        for a in range(3):
            for b in range(3):
                yield "%s with %d, used with %d" % (k, a, b), "«G»" + args(b), d % ("G", g(a)), "GenericsCount" if a != b else None, dict(definition=a, usage=b)
                if a != b:
                    yield "%s in a module with %d, used with %d" % (k, a, b), "sub::«G»" + args(b), "struct G%s(u8) mod sub { %s }" % (g(b), d % ("G", g(a))), "GenericsCount", dict(definition=a, usage=b)
    for k, d, w in ODD:
        yield "a %s" % k, "«T»", d % "T", "InvalidKind", dict(kind=w)
        yield "a %s in a module" % k, "sub::«T»", "struct T(u8) mod sub { %s }" % (d % "T"), "InvalidKind", dict(kind=w)


def imports():
    """(label, import, texts of the other schemas, kind of error, fields)"""
    one = {"other": "struct X(u8) mod sub { struct X(u8) mod low { struct X(u8) } }", "third": "struct Nope(u8) mod gone { struct X(u8) }"}
    yield "no such schema", "use «gone»;", one, "MissingSchema", dict(name="gone")
    yield "no such schema, module", "use «gone»::sub;", one, "MissingSchema", dict(name="gone")
    yield "no such schema, type", "use «gone»::sub::X;", one, "MissingSchema", dict(name="gone")
    yield "no such module", "use other::«gone»;", one, "MissingModule", dict(name="gone", path="other")
    yield "no such module, type", "use other::«gone»::X;", one, "MissingModule", dict(name="gone", path="other")
    yield "no such module in a module", "use other::sub::«gone»;", one, "MissingModule", dict(name="gone", path="other::sub")
    yield "no such module on the way", "use other::«gone»::sub::X;", one, "MissingModule", dict(name="gone", path="other")
    yield "no such module at the end of the way", "use other::sub::low::«gone»::X;", one, "MissingModule", dict(name="gone", path="other::sub::low")
    yield "no such type", "use other::«Nope»;", one, "MissingDefinition", dict(name="Nope", path="other")
    yield "no such type in a module", "use other::sub::«Nope»;", one, "MissingDefinition", dict(name="Nope", path="other::sub")
    yield "no such type two modules down", "use other::sub::low::«Nope»;", one, "MissingDefinition", dict(name="Nope", path="other::sub::low")
    for k, d, w in ODD:
        yield "a %s" % k, "use other::«T»;", dict(one, other=d % "T"), "InvalidKind", dict(kind=w)
        yield "a %s in a module" % k, "use other::sub::«T»;", dict(one, other="struct T(u8) mod sub { struct First(u8) %s }" % (d % "T")), "InvalidKind", dict(kind=w)
    yield "everything there", "use other; use other::sub; use other::sub::X; use third::gone;", one, None, {}


def remotes():
    """(label, imports, use, texts of the other schemas, kind of error, fields)"""
    one = {"other": "struct X(u8) mod sub { struct X(u8) mod low { struct X(u8) } }", "third": "struct Nope(u8) mod gone { struct X(u8) }"}
    yield "no import", "use other;", "«Nope»", one, "MissingImport", dict(ty="Nope")
    yield "no import of the module", "use other;", "gone::«X»", one, "MissingImport", dict(ty="gone::X")
    yield "no import of the outer module", "use other::sub;", "gone::low::«X»", one, "MissingImport", dict(ty="gone::low::X")
    yield "import of another type", "use other::X;", "«Y»", one, "MissingImport", dict(ty="Y")
    yield "import of a type with a module's name", "use other::X;", "X::«Y»", one, "MissingImport", dict(ty="X::Y")
    yield "no such type", "use other;", "other::«Nope»", one, "MissingDefinition", dict(name="Nope", path="other")
    yield "no such type in a module", "use third; use other;", "other::sub::«Nope»", one, "MissingDefinition", dict(name="Nope", path="other::sub")
    yield "no such type in an imported module", "use other::sub;", "sub::«Nope»", one, "MissingDefinition", dict(name="Nope", path="other::sub")
    yield "no such type below an imported module", "use other::sub;", "sub::low::«Nope»", one, "MissingDefinition", dict(name="Nope", path="other::sub::low")
    yield "no such module", "use other;", "other::«gone»::«X»", one, "MissingModule", dict(name="gone", path="other")
    yield "no such module in a module", "use third; use other;", "other::sub::«gone»::«X»", one, "MissingModule", dict(name="gone", path="other::sub")
    yield "no such module below an imported module", "use other::sub;", "sub::«gone»::«X»", one, "MissingModule", dict(name="gone", path="other::sub")
    for k, d in KINDS:
        for a in range(3):
            for b in range(3):
                for im, u, t in (("use other;", "other::«G»", "%s"), ("use third; use other::sub;", "sub::«G»", "struct G(u8) mod sub { %s }"), ("use other;", "other::sub::«G»", "struct G(u8) mod sub { %s }"),
                                 ("use third; use other::G;", "«G»", "struct First(u8) %s"), ("use other::sub::G;", "«G»", "struct First(u8) mod sub { struct Second(u8) %s }")):
                    yield "%s with %d, used with %d, %s" % (k, a, b, im), im, u + args(b), dict(one, other=t % (d % ("G", g(a)))), "RemoteGenericsCount" if a != b else None, dict(definition=a, usage=b)
    for k, d, w in ODD:
        for im, u, t in (("use other;", "other::«T»", "%s"), ("use other::sub;", "sub::«T»", "struct T(u8) mod sub { %s }"), ("use third; use other;", "other::sub::«T»", "struct T(u8) mod sub { struct X(u8) %s }")):
            yield "a %s, %s" % (k, im), im, u, dict(one, other=t % (d % "T")), "RemoteInvalidKind", dict(kind=w)


def cases():
    """(label, schemas, kind, fields); the schema with the use comes first, in the middle or last"""
    for label, use, near, kind, want in uses():
        for place, around, path in PLACES:
            w = dict(want)
            if "path" in w:
                w["path"] = "main" + path + w["path"]
            yield "local: %s, %s" % (label, place), [("main", around % (near + " struct S { a: %s }" % use))], kind, w
            yield "local: %s, %s, used before" % (label, place), [("main", around % ("struct S { a: %s } " % use + near))], kind, w
    for h, host in HOSTS:
        for label, use, near, kind, want in list(uses())[:5] + [u for u in uses() if u[3] == "GenericsCount"][:1] + [u for u in uses() if u[3] == "InvalidKind"][:1]:
            w = dict(want)
            if "path" in w:
                w["path"] = "main" + w["path"]
            yield "local: %s, %s" % (label, h), [("main", near + " " + host % use)], kind, w
            if use == "«Nope»":
                for v, wrap in WRAPS:
                    yield "local: %s, %s in %s" % (label, v, h), [("main", near + " " + host % (wrap % use))], kind, w
    nope = ("MissingDefinition", dict(name="Nope", path="main"))
    yield ("local: argument of a type", [("main", "struct G<A>(A) struct S(G<«Nope»>)")]) + nope
    yield ("local: second argument of a type", [("main", "struct G<A, B>(A, B) struct S(G<u8, vec<«Nope»>>)")]) + nope
    yield ("local: not one of the type parameters", [("main", "struct G<A, B>(A, «Nope», B)")]) + nope
    yield ("local: parameter of another definition", [("main", "struct G<Nope>(Nope) struct S(«Nope»)")]) + nope
    yield ("local: parameter of another definition, enum", [("main", "enum G<Nope> { A(Nope) } enum S<A> { B(A), C { x: «Nope» } }")]) + nope
    yield ("local: type parameter with arguments", [("main", "struct G<Nope>(«Nope»<u8>)")]) + nope
    yield "local: type parameter in a path", [("main", "mod sub { struct B(u8) } struct G<Nope>(Nope, sub::«Nope»)")], "MissingDefinition", dict(name="Nope", path="main::sub")
    yield "local: type of the outer module", [("main", "struct Out(u8) mod inner { struct S(«Out») }")], "MissingDefinition", dict(name="Out", path="main::inner")
    yield "local: type of an inner module", [("main", "mod inner { struct In(u8) } struct S(«In»)")], "MissingDefinition", dict(name="In", path="main")
    yield "local: type of a module beside", [("main", "mod inner { struct In(u8) } mod next { struct S(«inner»::«In») }")], "MissingModule", dict(name="inner", path="main::next")
    for ok_ in ("struct G<A>(A, vec<A>) enum E<A, B> { X(A), Y { b: G<B> } } struct S(E<u8, G<u8>>)", "mod a { mod b { struct X(u8) } struct Y(b::X) } struct Z(a::Y, a::b::X) type T = a::Y; const C: u8 = 1;"):
        yield "valid: %s" % ok_[:20], [("main", ok_)], None, {}
    for label, im, others, kind, want in imports():
        for place, around, path in PLACES:
            yield from orders("import: %s, %s" % (label, place), around % (im + " struct Here(u8)"), others, kind, want)
        if kind:
            for before in ("use third;", "use other; use third::gone;"):
                yield "import: %s, after %s" % (label, before), [("main", before + " struct Here(u8) " + im)] + list(others.items()), kind, want
    for label, im, use, others, kind, want in remotes():
        for place, around, path in PLACES[:2]:
            yield from orders("remote: %s, %s" % (label, place), around % (im + " struct Here(u8) struct S { a: u8, b: %s }" % use), others, kind, want)
    one = {"other": "struct X(u8) mod sub { struct X(u8) mod low { struct X(u8) } }"}
    yield "remote: import of the outer module", [("main", "use other; mod inner { struct S(«other»::«X») }")] + list(one.items()), "MissingModule", dict(name="other", path="main::inner")
    yield "remote: import of an inner module", [("main", "struct S(«other»::«X») mod inner { use other; struct F(other::X) }")] + list(one.items()), "MissingModule", dict(name="other", path="main")


def orders(label, text, others, kind, want):
    o = list(others.items())
    yield label, [("main", text)] + o, kind, want
    yield label + ", given last", o + [("main", text)], kind, want
    if len(o) > 1:
        yield label + ", given in the middle", o[1:] + [("main", text)] + o[:1], kind, want


def places(texts):
    """The texts without the marks, and the marked places: (schema, start, end)"""
    out, used, declared = [], [], []
    for i, (n, t) in enumerate(texts):
        s, at = "", {}
        for c in t:
            if c in "«‹":
                at[c] = len(s)
            elif c in "»›":
                (used if c == "»" else declared).append((i, at["«" if c == "»" else "‹"], len(s)))
            else:
                s += c
        out.append((n, s))
    return out, used, declared


class BlameInterp(ClashInterp):
    def __init__(self, db):
        super().__init__(db, None)
        self.opaque = lambda g: g.crate.name not in ("mabo_compiler", "mabo_parser") or g.name.startswith("mabo_compiler::highlight")
        literal.add(self)
        same = lambda I, fr, st, args, m, site, stack, tys: I.deref_read(st, args[0])
        for n in ("std::path::Path::display", "std::path::Path::to_string_lossy", "std::path::PathBuf::as_path"):
            self.models[n] = same
        self.models["miette::NamedSource::new"] = self.models["miette::named_source::NamedSource::new"] = lambda I, fr, st, args, m, site, stack, tys: T("file", *(("str", spelled(I, st, a)) if spelled(I, st, a) is not None else I.deref_read(st, a) for a in args[:2]))
        for i, ns in enumerate((("keys", "into_keys"), ("values", "into_values", "values_mut"))):
            for n in ns:
                self.models[maps.HM + n] = column(i, self.models.get(maps.HM + n))
        self.max_depth = 200
        self.refn = self.reclo = 12


def column(i, base):
    """The keys or the values of a known map"""
    def h(I, fr, st, args, m, site, stack, tys):
        v = maps.contents(I, st, args[0])
        if v is None or any(e[0] != "tup" for e in v[1]):
            return base(I, fr, st, args, m, site, stack, tys) if base else NotImplemented
        return ("iter", ("arr", tuple(e[1][i] for e in v[1])), ())
    return h


def number(v):
    return v[1] if v[0] == "int" else None


def run(db, R):
    f = find_fn(db, RES + "schemas")
    R.floor("schemas", 300)
    R.floor("errors", 300)
    R.floor("obligations", 1500)
    if f is None:
        return
    R.saw(f)
    each(db, R, cases(), lambda r, c: judge(db, r, f, c), None)


def judge(db, R, f, case):
    label, texts, kind, want = case
    texts, used, declared = places(texts)
    # the second one has no path
    paths = [None if i == 1 else "dir/%s.mabo" % n for i, (n, _) in enumerate(texts)]
    trees = [Trees(db, t, p).schema() for (_, t), p in zip(texts, paths)]
    I = BlameInterp(db)
    st = A.State()
    refs = []
    for i, t in enumerate(trees):
        st.cells[("schema", i)] = t
        refs.append(("tup", (("str", texts[i][0]), ("ref", ("schema", i), ()))))
    st.cells[("all", 0)] = ("arr", tuple(refs))
    outs = I.call_fn(f, [("ref", ("all", 0), ())], st, ())
    R.n("schemas")
    for x in I.visited:
        R.saw(x)
    for o in outs:
        if o.kind == "panic":
            R.undec("panic", "%s: %s" % (label, str(o.info)[:160]))
            continue
        v = I.deref_read(o.st, o.value)
        if v[0] != "adt" or v[3] not in ("Ok", "Err"):
            R.undec("result", "%s: %s" % (label, show(v)[:160]))
            continue
        part = label.split(":")[0]
        if kind is None:
            R.n("obligations")
            if v[3] == "Err":
                R.v("%s:valid" % part, "%s, %s: an error for a schema that resolves: %s" % (f.name, label, texts[0][1]))
            continue
        R.n("obligations")
        if v[3] == "Ok":
            R.v("%s:%s:missed" % (part, kind), "%s, %s: no error for `%s`" % (f.name, label, texts[0][1]))
            continue
        e = I.deref_read(o.st, v[4][0])
        while is_t(e, "from", "into"):
            e = I.deref_read(o.st, e[-1])
        R.n("errors")
        said(db, R, I, o.st, f, label, part, e, kind, want, texts, paths, used, declared)


def inner(db, I, st, v):
    """The struct the error is about"""
    for _ in range(12):
        v = I.deref_read(st, v)
        if is_t(v, "from", "into", "box"):
            v = v[-1]
        elif v[0] == "adt" and v[1] == RES + "error::Error":
            v = fields(db, v)["cause"]
        elif v[0] == "adt" and len(v[4]) == 1 and db.variants(v[1])[v[2]]["fields"][0][0] == "0":
            v = v[4][0]
        else:
            return v
    return v


def source(I, st, v):
    v = I.deref_read(st, v)
    if is_t(v, "file"):
        a, b = v[2], v[3]
        return (a[1] if a[0] == "str" else None, b[1] if b[0] == "str" else None)
    return None


def spelled(I, st, v):
    """The text a value is, or None"""
    v = I.deref_read(st, v)
    if v[0] in ("str", "lit"):
        return v[1]
    if is_t(v, "from", "into"):
        return spelled(I, st, v[-1])
    if v[0] == "ph" and len(v) == 3 and v[1] == "display":
        return spelled(I, st, v[2])
    if v[0] == "adt" and short(v) == "Name":
        return spelled(I, st, v[4][0])
    if v[0] == "adt" and v[1].endswith("::Cow"):
        return spelled(I, st, v[4][0])
    if v[0] == "sbuf":
        ps = [spelled(I, st, p) for p in v[1]]
        return None if None in ps else "".join(ps)
    return None


def said(db, R, I, st, f, label, part, e, kind, want, texts, paths, used, declared):
    top = fields(db, e) if e[0] == "adt" else {}
    x = inner(db, I, st, e)
    if x[0] != "adt" or "source_code" not in top:
        R.undec("error", "%s: %s" % (label, show(x)[:160]))
        return
    name = x[1].rsplit("::", 1)[1]
    fs = {k: I.deref_read(st, v) for k, v in fields(db, x).items()}
    where = "%s, %s (`%s`)" % (f.name, label, texts[used[0][0]][1])
    sig = {"MissingDefinition": "definition", "MissingModule": "module", "MissingSchema": "schema", "MissingImport": "import", "GenericsCount": "count", "RemoteGenericsCount": "count", "InvalidKind": "kind", "RemoteInvalidKind": "kind"}
    if name not in sig:
        R.undec("kind:" + name, "%s: reported as %s" % (label, name))
        return
    key = "%s:%s" % (part, kind)
    R.n("obligations")
    if sig[name] != sig[kind]:
        R.v(key + ":kind", "%s: reported as %s instead of %s" % (where, name, kind))
        return
    remote = [d for d in declared if d[0] != used[0][0]]

    def same(field, got, wanted, what):
        R.n("obligations")
        if got is None:
            R.undec("%s:%s" % (name, field), "%s: %s is not known" % (label, field))
        elif got not in wanted:
            R.v("%s:%s" % (key, field), "%s: %s `%s` instead of `%s` is given as %s" % (where, name, got, wanted[0], what))

    def at(v):
        if v[0] == "adt" and len(v[4]) == 2 and all(a[0] == "int" for a in v[4]):
            return (v[4][0][1], v[4][1][1])
        return None

    def here(field, got, wanted, i, what):
        show_ = lambda p: None if p is None else texts[i][1][p[0]:p[1]] + "@%d" % p[0]
        same(field, show_(at(got)), [show_(w[1:]) for w in wanted], what)

    def string(v):
        return spelled(I, st, v)
    u = used[0][0]
    same("source", source(I, st, top["source_code"]), [(paths[u] or "<unknown>", texts[u][1])], "the schema with the use")
    if "used" in fs:
        here("used", fs["used"], used[::-1], u, "the place of the use")
    for k, what in (("name", "what is missing"), ("path", "the module where the search ended"), ("ty", "the type")):
        if k in want and k in fs:
            same(k, string(fs[k]), [want[k]], what)
    d = fs.get("declaration")
    ds = d[1] if d is not None and d[0] in ("arr", "vec") else ()
    if kind.endswith("GenericsCount"):
        for w in ("usage", "amount"):
            if w in fs:
                same("usage", number(fs[w]), [want["usage"]], "the number of arguments")
        if "definition" in fs:
            same("definition", number(fs["definition"]), [want["definition"]], "the number of type parameters")
    if kind.endswith("InvalidKind") and "kind" in fs:
        k = string(fs["kind"])
        same("kind", k and ("alias" if "alias" in k else "const" if "const" in k else k), [want["kind"]], "the kind of definition")
    if not declared:
        return
    R.n("obligations")
    if "declared" in fs:
        if remote:
            R.v(key + ":declared", "%s: %s says where in `%s` the declaration is, but it is in another schema (`%s`)" % (where, name, texts[u][0], texts[remote[0][0]][1]))
        else:
            here("declared", fs["declared"], declared, u, "the place of the declaration")
    elif not ds:
        R.undec("%s:declaration" % name, "%s: %s" % (label, show(d)[:100] if d else "none"))
    for y in ds:
        y = I.deref_read(st, y)
        ys = {k: I.deref_read(st, v) for k, v in fields(db, y).items()} if y[0] == "adt" else {}
        j = declared[0][0]
        if not {"source_code", "used"} <= set(ys):
            R.undec("%s:declaration" % name, "%s: %s" % (label, show(y)[:100]))
            continue
        same("declaring source", source(I, st, ys["source_code"]), [(paths[j] or "<unknown>", texts[j][1])], "the schema with the declaration")
        here("declared", ys["used"], declared, j, "the place of the declaration")
        if "amount" in ys:
            same("definition", number(ys["amount"]), [want["definition"]], "the number of type parameters")
        if "kind" in ys:
            k = string(ys["kind"])
            same("declared kind", k and ("alias" if "alias" in k else "const" if "const" in k else k), [want["kind"]], "the kind of definition")
