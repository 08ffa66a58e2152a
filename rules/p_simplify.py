"""M13: the simplified schema that code generators work on says what the parsed schema says."""
import re
from rules.compiler import *
from rules.p_valid import counters, derived_id, counter_of
from rules.tmpl import run_case
from rules.evalt import ev

S = "mabo_compiler::simplify::"
PLAIN = ("arg", "elem", "fld", "index", "len", "punct", "skip", "take", "rev", "stepby", "default", "chain")


def fld(x, *names):
    """x.a.b.Variant.0 as nested projections."""
    i = 0
    while i < len(names):
        k = 2 if names[i][0].isupper() else 1
        x = T("fld", x, *names[i:i + k])
        i += k
    return x


def run(db, R):
    R.floor("values compared", 60)
    ent = [f for f in db.fns.values() if f.crate.name == "mabo_compiler" and f.kind == "Fn" and f.argc == 1
           and f.local_ty(1)["s"].startswith("&mabo_parser::Schema<") and f.local_ty(0)["s"].startswith(S + "Schema<")]
    if len(ent) != 1:
        R.undec("entry", "%d functions from a parsed to a simplified schema" % len(ent))
        return
    f = ent[0]
    for g in db.reach(f, {"mabo_compiler"}).values():
        R.saw(g)
    C = Check(db, R, f)
    C.definitions()
    C.recursive_types()


class Check:
    def __init__(self, db, R, f):
        self.db, self.R, self.f = db, R, f
        self.arg = T("arg", "schema")
        self.vars = {a: {v["name"]: i for i, v in enumerate(db.variants(a))} for a in (DEF, DT, "mabo_parser::Fields", "mabo_parser::LiteralValue")}
        self.walkers = {}

    # ---- the cases -------------------------------------------------------
    def definitions(self):
        top = fld(self.arg, "definitions")
        e = elem(top)
        V = self.vars
        F, L = V["mabo_parser::Fields"], V["mabo_parser::LiteralValue"]
        for dn, i in V[DEF].items():
            d = fld(e, dn, "0")
            base = {e: i}
            cases = []
            gens = [{fld(d, "generics"): 0}, {fld(d, "generics"): 1}]
            if dn == "Struct":
                cases = [dict(g, **{}) for g in gens]
                cases = [{**g, **c} for g in gens for c in self.field_cases(fld(d, "fields"))]
            elif dn == "Enum":
                v = elem(fld(d, "variants"))
                cases = [{**g, fld(v, "id"): k, **c} for g, k in ((gens[0], 0), (gens[1], 1)) for c in self.field_cases(fld(v, "fields"))]
            elif dn == "TypeAlias":
                cases = [{**g, **c} for g in gens for c in self.type_cases(fld(d, "target"))]
            elif dn == "Const":
                cases = [{fld(d, "value", "value"): l} for l in L.values()] + self.type_cases(fld(d, "ty"), {fld(d, "value", "value"): L["Int"]})
                cases = [{**self.type_case(fld(d, "ty"), "U8"), **c} if fld(d, "ty", "value") not in c else c for c in cases]
            elif dn == "Import":
                cases = [{fld(d, "element"): k} for k in (0, 1)]
            else:
                cases = [{}]
            for c in cases:
                self.case(dn, {**base, **c}, self.schema)

    def type_case(self, t, name):
        return {fld(t, "value"): self.vars[DT][name]}

    def type_cases(self, t, more={}):
        out = []
        for name, i in self.vars[DT].items():
            c = {**more, fld(t, "value"): i}
            if name == "External":
                out += [{**c, fld(t, "value", "External", "0", "generics"): k} for k in (0, 1)]
            else:
                out.append(c)
        return out

    def field_cases(self, fields):
        F = self.vars["mabo_parser::Fields"]
        out = [{fields: F["Unit"]}]
        for kind in ("Named", "Unnamed"):
            e = elem(fld(fields, kind, "1"))
            base = {fields: F[kind]}
            out += self.type_cases(fld(e, "ty"), {**base, fld(e, "id"): 1})
            out.append({**base, **self.type_case(fld(e, "ty"), "U8"), fld(e, "id"): 0})
        return out

    def case(self, label, refine, want, fn=None, args=None):
        R = self.R
        self.refine = refine
        self.I = A.Interp(self.db)
        self.phis = {}
        try:
            outs = run_case(self.I, fn or self.f, args or [self.arg], refine)
        except A.Unsupported as e:
            R.undec(label, str(e))
            return
        self.bad, self.unk = [], []
        for o in outs:
            R.n("cases")
            if o.kind != "ret":
                self.bad.append(("panic", "simplifying a schema can panic (%s)" % (o.info,)))
                continue
            want(o.value)
        for k, t in self.bad:
            R.v("%s:%s" % (label, k), "%s (%s): %s: %s" % (self.f.name, loc(self.f), label, t))
        for k in self.unk:
            R.undec(label, k)
        if not self.bad and not self.unk:
            counters(R, self.I, self.f.name, self.phis, follow=False)

    # ---- what is expected ------------------------------------------------
    def schema(self, v):
        for x, n in self.adt(v, "Schema", "schema", ("comment", "definitions")):
            if n == "comment":
                self.comment(x, self.arg, "the schema")
            else:
                self.each(x, fld(self.arg, "definitions"), self.definition, "the definitions of the schema")

    def definition(self, v, e):
        dn = next(n for n, i in self.vars[DEF].items() if self.refine.get(e) == i)
        if not (v[0] == "adt" and v[1] == S + "Definition"):
            return self.mismatch("kind", v, "a definition")
        if self.db.variants(v[1])[v[2]]["name"] != dn:
            return self.no("kind", "a %s becomes a %s" % (dn, self.db.variants(v[1])[v[2]]["name"]))
        d = fld(e, dn, "0")
        fields = {"Module": ("comment", "name", "definitions"), "Struct": ("comment", "name", "generics", "fields"), "Enum": ("comment", "name", "generics", "variants"),
                  "TypeAlias": ("comment", "name", "generics", "target"), "Const": ("comment", "name", "ty", "value"), "Import": ("segments", "element")}[dn]
        for x, n in self.adt(v[4][0], dn, dn, fields, d):
            if n == "comment":
                self.comment(x, d, "the " + dn)
            elif n == "name":
                self.same("name", x, fld(d, "name", "value"))
            elif n == "generics":
                self.generics(x, fld(d, "generics"))
            elif n == "fields":
                self.fields(x, fld(d, "fields"))
            elif n == "variants":
                self.each(x, fld(d, "variants"), self.variant, "the variants")
            elif n in ("target", "ty"):
                self.type(x, fld(d, n), n)
            elif n == "value":
                self.literal(x, fld(d, "value"))
            elif n == "definitions":
                self.nested(x, fld(d, "definitions"))
            elif n == "segments":
                self.each(x, fld(d, "segments"), lambda y, s: self.same("segment", y, fld(s, "value")), "the segments of the import")
            elif n == "element":
                self.option(x, fld(d, "element"), lambda y, s: self.same("element", y, fld(s, "1", "value")), "element of the import")

    def nested(self, x, coll):
        f = self.db.fns.get(x[2]) if is_t(x, "call") else None
        if f is not None and f.local_ty(0)["s"] and S + "Definition<" in f.local_ty(0)["s"] and tuple(strip_views(a) for a in x[3]) == (coll,):
            self.ok()
            return
        if f is None:
            # the recursion may also happen per element
            def one(y, e):
                g = self.db.fns.get(y[2]) if is_t(y, "call") else None
                if g is not None and S + "Definition<" in g.local_ty(0)["s"] and tuple(y[3]) == (e,):
                    return self.ok()
                self.mismatch("nested", y, "the simplified definition")
            return self.each(x, coll, one, "the definitions of a module")
        self.mismatch("nested", x, "all definitions of the module")

    def variant(self, v, e):
        for x, n in self.adt(v, "Variant", "variant", ("comment", "name", "fields", "id"), e):
            if n == "comment":
                self.comment(x, e, "the variant")
            elif n == "name":
                self.same("variant-name", x, fld(e, "name", "value"))
            elif n == "fields":
                self.fields(x, fld(e, "fields"))
            else:
                self.id(x, e, "variant")

    def fields(self, v, src):
        kind = next(n for n, i in self.vars["mabo_parser::Fields"].items() if self.refine.get(src) == i)
        for x, n in self.adt(v, "Fields", "fields", ("fields", "kind"), src):
            if n == "kind":
                if x[0] == "adt":
                    got = self.db.variants(x[1])[x[2]]["name"]
                    self.ok() if got == kind else self.no("field-kind", "%s fields become %s fields" % (kind, got))
                else:
                    self.mismatch("field-kind", x, kind)
            elif kind == "Unit":
                self.empty("unit", x, "a unit struct or variant")
            else:
                self.each(x, fld(src, kind, "1"), lambda y, e: self.field(y, e, kind), "the %s fields" % kind.lower())

    def field(self, v, e, kind):
        for x, n in self.adt(v, "Field", "field", ("comment", "name", "ty", "id")):
            if n == "comment":
                if kind == "Named":
                    self.comment(x, e, "the field")
                else:
                    self.empty("unnamed-comment", x, "an unnamed field")
            elif n == "name":
                if kind == "Named":
                    self.same("field-name", x, fld(e, "name", "value"))
                elif any(w == T("index", e) for w in walk(x)):
                    self.ok()
                else:
                    self.no("unnamed-name", "unnamed fields are not given different names: %s" % show(x)[:80])
            elif n == "ty":
                self.type(x, fld(e, "ty"), "field")
            else:
                self.id(x, e, "field")

    def id(self, x, e, what):
        ex = fld(fld(fld(e, "id"), "Some", "0"), "value")
        x = strip_views(x)
        if self.refine.get(fld(e, "id")) == 1:
            if counter_of(x) is not None and not any(mentions(x, y) for y in (e, ex)):
                return self.no("%s-id" % what, "the given id of a %s is ignored" % what)
            k = counter_of(x)
            if k is not None:
                # the counter may only be mentioned where it makes no difference
                got = [(a, b, ev(x, {ex: a, k: b})) for a in (0, 1, 7, 4294967295) for b in (0, 1, 9, 4294967295)]
                if any(r is not None and r != a for a, b, r in got):
                    return self.no("%s-id" % what, "the given id of a %s is changed: %s" % (what, show(x)[:100]))
            return self.same("%s-id" % what, x, ex)
        c = counter_of(x)
        over = next((w for w in walk(x) if is_t(w, "phi") and any(is_t(y, "phi", "accn") for y in walk(w[4]))), None)
        if over is not None:
            return self.no("%s-id-scope" % what, "omitted ids of a %s continue the numbering of another loop, instead of starting anew" % what)
        if not is_t(x, "accn") and derived_id(x, ex, self.phis):
            return self.ok()
        if c is not None and is_t(c, "phi") and c[4][0] == "int" and ev(x, {c: c[4][1]}) not in (None, 1):
            return self.no("%s-id-start" % what, "omitted ids of a %s start at %s" % (what, ev(x, {c: c[4][1]})))
        if is_t(x, "accn") or (not any(is_t(w, "call") for w in walk(x)) and any(w == T("index", e) for w in walk(x))):
            return self.no("%s-id" % what, "an omitted id of a %s is %s: it does not continue after an explicit one" % (what, show(x)[:80]))
        self.mismatch("%s-id" % what, x, "the previous id plus one")

    def literal(self, x, lit):
        v = fld(lit, "value")
        if fld(lit, "value") not in self.refine:
            return
        want = next(n for n, i in self.vars["mabo_parser::LiteralValue"].items() if self.refine.get(v) == i)
        if x[0] != "adt":
            return self.mismatch("literal", x, want)
        got = self.db.variants(x[1])[x[2]]["name"]
        if got != want:
            return self.no("literal", "a literal %s becomes a %s" % (want, got))
        self.same("literal-" + want, x[4][0], fld(v, want, "0"))

    def type(self, x, t, where):
        dt = fld(t, "value")
        i = self.refine.get(dt)
        if i is None:
            return
        want = self.db.variants(DT)[i]
        wn = want["name"]
        if x[0] != "adt":
            return self.mismatch("type:%s:%s" % (where, wn), x, wn)
        got = self.db.variants(x[1])[x[2]]["name"]
        if got != wn:
            return self.no("type:%s:%s" % (where, wn), "the data type %s becomes %s" % (wn, got))
        self.ok()
        key = "type:%s:%s" % (where, wn)
        b = lambda *n: fld(dt, wn, *n)
        p = x[4]
        if wn in ("Vec", "HashSet", "Option", "NonZero"):
            self.inner(key, p[0], b("ty"))
        elif wn == "HashMap":
            if p[0][0] != "tup":
                return self.mismatch(key, p[0], "key and value")
            self.inner(key, p[0][1][0], b("key"))
            self.inner(key, p[0][1][1], b("value"))
        elif wn == "Array":
            self.inner(key, p[0], b("ty"))
            self.same(key + ":size", p[1], b("size"))
        elif wn == "Tuple":
            self.each(p[0], b("types"), lambda y, e: self.inner(key, y, e), "the elements of the tuple")
        elif wn == "External":
            src = b("0")
            for y, n in self.adt(p[0], "ExternalType", "external", ("path", "name", "generics")):
                if n == "path":
                    self.each(y, fld(src, "path"), lambda z, e: self.same(key + ":path", z, fld(e, "0", "value")), "the path of the type")
                elif n == "name":
                    self.same(key + ":name", y, fld(src, "name", "value"))
                elif self.refine.get(fld(src, "generics")) == 1:
                    self.each(y, fld(src, "generics", "Some", "0"), lambda z, e: self.inner(key, z, e), "the type arguments")
                else:
                    self.empty(key + ":generics", y, "a type without arguments")

    def inner(self, key, x, t):
        """The component type, simplified by the recursion."""
        x = strip_views(x)
        f = self.db.fns.get(x[2]) if is_t(x, "call") else None
        if f is not None and f.local_ty(0)["s"].startswith(S + "Type<") and len(x[3]) == 1:
            got = strip_views(x[3][0])
            if got in (t, fld(t, "value")):
                self.walkers[f.id] = (f, got != t)
                return self.ok()
            if plain(got):
                return self.no(key, "the component %s is made from %s" % (show(t)[-60:], show(got)[-80:]))
        self.mismatch(key, x, "the simplified " + show(t)[-60:])

    def recursive_types(self):
        for f, on_value in list(self.walkers.values()):
            t = T("arg", "ty")
            for c in self.type_cases(t):
                self.case("type function", c, lambda v: self.type(v, t, "component"), f, [fld(t, "value") if on_value else t])

    # ---- building blocks -------------------------------------------------
    def generics(self, x, src):
        if self.refine.get(src) == 1:
            self.each(x, fld(src, "Some", "0", "types"), lambda y, e: self.same("generics", y, fld(e, "value")), "the type parameters")
        else:
            self.empty("generics", x, "a definition without type parameters")

    def comment(self, x, of, what):
        self.each(x, fld(of, "comment", "0"), lambda y, e: self.same("comment", y, fld(e, "value")), "the comment lines of " + what)

    def adt(self, v, name, key, wanted, source=None):
        if not (v[0] == "adt" and v[1] == S + name):
            self.mismatch(key, v, name)
            return []
        names = [n for n, _, _ in self.db.variants(v[1])[v[2]]["fields"]]
        out = []
        for n in wanted:
            if n in names:
                out.append((v[4][names.index(n)], n))
        return out

    def each(self, x, coll, one, what):
        """One result per element, in order."""
        x = strip_views(x)
        key = what.split()[-1] if not what.startswith("the comment") else "comment"
        if x == coll:
            return one(elem(coll), elem(coll))
        if x[0] != "vec":
            return self.mismatch(key, x, what)
        if len(x[1]) != 1 or x[1][0][0] not in ("rep", "spread"):
            if any(y[0] == "acc" for y in x[1]):
                return self.unk.append("%s: %s" % (what, show(x)[:120]))
            return self.no(key, "%s: %s instead of one item per element" % (what, show(x)[:120]))
        if x[1][0][0] == "spread":
            return one(T("elem", x[1][0][1]), elem(coll)) if x[1][0][1] == coll else self.mismatch(key, x, what)
        for alt in x[1][0][1]:
            if len(alt) == 1:
                one(alt[0], elem(coll))
            elif not alt:
                self.no(key, "%s: some elements are left out" % what)
            else:
                self.no(key, "%s: %d items per element" % (what, len(alt)))

    def option(self, x, src, one, what):
        some = self.refine.get(src) == 1
        if not (x[0] == "adt" and x[1] == A.OPTION):
            return self.mismatch(what.split()[0], x, what)
        if (x[2] == 1) != some:
            return self.no(what.split()[0], "the %s is %s" % (what, "dropped" if some else "made up"))
        if some:
            one(x[4][0], fld(src, "Some", "0"))
        else:
            self.ok()

    def empty(self, key, x, what):
        x = strip_views(x)
        if x in (("vec", ()), ("arr", ()), T("default")) or (is_t(x, "call") and str(callname_(x)).endswith(("default", "Vec::new"))):
            return self.ok()
        if x[0] in ("vec", "arr"):
            return self.no(key, "%s gets %s" % (what, show(x)[:100]))
        self.mismatch(key, x, "nothing, for " + what)

    def same(self, key, x, want):
        x = strip_views(x)
        if x[0] == "adt" and x[1].endswith("borrow::Cow"):
            x = strip_views(x[4][0])
        if x == want:
            return self.ok()
        self.mismatch(key, x, show(want)[-80:])

    def mismatch(self, key, x, want):
        if plain(x):
            self.no(key, "%s where %s belongs" % (show(x)[-120:], want))
        else:
            self.unk.append("%s: %s instead of %s" % (key, show(x)[:160], want))

    def no(self, key, text):
        self.R.n("values compared")
        if (key, text) not in self.bad:
            self.bad.append((key, text))

    def ok(self):
        self.R.n("values compared")


def callname_(x):
    return x[2] if isinstance(x[2], str) else x[2][0]


def plain(x):
    """Built from the parsed schema and constants alone, so that a difference is a difference."""
    return all(not is_t(w) or w[1] in PLAIN or is_t(w, "idx") and w[3][0] == "int" or is_t(w, "call") and CHANGES.search(str(callname_(w))) for w in walk(x))


# library functions whose result differs from their argument for some value
CHANGES = re.compile(r"::(trim\w*|to_(ascii_)?(lower|upper)case|abs|unsigned_abs|signum|max|min|clamp|(wrapping|saturating|overflowing)_\w+|neg|not|replace\w*|repeat|concat|join|default|new|swap_bytes|rotate_\w+|pow|floor|ceil|round|trunc|fract|to_be|strip_\w+)$")
