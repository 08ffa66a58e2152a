"""M16: type resolution accepts exactly the schemas whose type names all denote an existing struct or enum."""
from rules.compiler import *
from rules.p_types import type_positions, call_args
from rules.evalt import ev

RES = "mabo_compiler::resolve::"
MODULE, EXT, IMPORT, SCHEMA = "&%sModule<" % RES, "&mabo_parser::ExternalType<", "&mabo_parser::Import<", "&mabo_parser::Schema<"
LIMIT = 5


def run(db, R):
    R.floor("obligations", 30)
    R.floor("rejections explained", 10)
    C = Check(db, R)
    if C.find():
        for part in (C.entry, C.tree_builder, C.module, C.types, C.local, C.remote, C.imports, C.import_, C.remotely):
            try:
                part()
            except A.Unsupported as e:
                R.undec(part.__name__, str(e))


class Check:
    def __init__(self, db, R):
        self.db, self.R = db, R
        self.fns = [f for f in db.fns.values() if f.crate.name == "mabo_compiler" and f.kind in ("Fn", "AssocFn")]
        self.W = type_walkers(db, "mabo_compiler")

    # ---- the parts, by what they take and give ---------------------------
    def by(self, ret, *args, among=None):
        """The functions with these kinds of parameters (any order) and this kind of result."""
        out = []
        for f in (among if among is not None else self.fns):
            tys = [f.local_ty(i)["s"] for i in range(1, f.argc + 1)]
            if f.argc == len(args) and ret(f.local_ty(0)["s"]) and all(any(a(t) for t in tys) for a in args):
                out.append(f)
        return out

    def find(self):
        db, R = self.db, self.R
        st = lambda p: (lambda s: s.startswith(p))
        has = lambda *p: (lambda s: all(x in s for x in p))
        result = st("core::result::Result<()")
        adts = {n: db.adts.get(RES + n) for n in ("Module", "Declaration", "DeclarationKind", "ResolvedImport")}
        want = {"Module": {"types", "modules", "imports", "definitions", "name"}, "Declaration": {"kind", "name"}}
        for n, a in adts.items():
            if a is None or n in want and not want[n] <= {x for x, _, _ in db.variants(RES + n)[0]["fields"]}:
                R.undec("structure", "the module tree is not built as known (%s)" % n)
                return False
        defs = lambda s: s.startswith("&[mabo_parser::Definition<")
        tree = [f for f in self.fns if f.local_ty(0)["s"].startswith(RES + "Module<") and recursive(db, f) and any(defs(f.local_ty(i)["s"]) for i in range(1, f.argc + 1))]
        entry = [f for f in self.fns if f.name == RES + "schemas"]
        types = self.by(lambda s: s == "()", st(MODULE), has("&mut", "LocallyMissingType<"))
        imports = self.by(has("Result<", "Vec<" + RES + "ResolvedImport<"), st(MODULE), has("&[(&str, " + RES + "Module<"))
        import_ = self.by(has("Result<" + RES + "ResolvedImport<"), st(MODULE), st(IMPORT))
        remotely = self.by(result, st(RES + "LocallyMissingType<"), has("&[" + RES + "ResolvedImport<"))
        module = self.by(result, st(SCHEMA), st(MODULE), has("&[(&str, " + RES + "Module<"))
        found = self.by(result, st(MODULE), st(EXT))
        local = [f for f in found if types and f.id in db.reach(types[0], {"mabo_compiler"})]
        remote = [f for f in found if remotely and f.id in db.reach(remotely[0], {"mabo_compiler"})]
        self.f = {}
        for n, l in (("tree", tree), ("entry", entry), ("types", types), ("imports", imports), ("import", import_), ("remotely", remotely), ("module", module),
                     ("local", local), ("remote", remote)):
            if len(l) != 1:
                R.undec("structure", "%d candidates for the part '%s'" % (len(l), n))
                return False
            self.f[n] = l[0]
            R.saw(l[0])
        return True

    def order(self, name, *terms):
        """Arguments for the part, by parameter type."""
        f = self.f[name]
        left = list(terms)
        out = []
        for i in range(1, f.argc + 1):
            s = f.local_ty(i)["s"]
            k = next((j for j, (p, t) in enumerate(left) if p in s), None)
            if k is None:
                raise A.Unsupported("unknown parameter of %s: %s" % (f.name, s))
            out.append(left.pop(k)[1])
        return out

    def exec(self, name, *terms, refine={}):
        ids = {g.id for g in self.f.values()} | {w.id for w, _ in self.W}
        I = self.I = A.Interp(self.db, opaque=lambda g: g.id in ids)
        outs = I.call_fn(self.f[name], self.order(name, *terms), self.state(refine), ())
        for v in I.visited:
            self.R.saw(v)
        return outs

    def state(self, refine):
        st = A.State()
        st.refine.update(refine)
        return st

    def is_call(self, t, name):
        return is_t(t, "call") and t[2] == self.f[name].name

    def arg(self, t, name, part):
        """The argument of a call of the part whose parameter type mentions `part`."""
        f = self.f[name]
        for i in range(1, f.argc + 1):
            if part in f.local_ty(i)["s"]:
                return strip_views(t[3][i - 1]) if i - 1 < len(t[3]) else None

    def v(self, key, name, text):
        f = self.f[name]
        self.R.v(key, "%s (%s): %s" % (f.name, loc(f), text))

    # ---- building the tree -----------------------------------------------
    def tree_builder(self):
        R, db = self.R, self.db
        defs, schema, name = T("arg", "defs"), T("arg", "schema"), T("arg", "name")
        V = {x["name"]: i for i, x in enumerate(db.variants(DEF))}
        dk = {x["name"]: i for i, x in enumerate(db.variants(RES + "DeclarationKind"))}
        fields = [n for n, _, _ in db.variants(RES + "Module")[0]["fields"]]
        d = elem(defs)
        for k in KINDS:
            x = fld(d, k, "0")
            for gen in ((1, 0) if k in ("Struct", "Enum") else (None,)):
                cs = {d: V[k]}
                if gen is not None:
                    cs[fld(x, "generics")] = gen
                outs = self.exec("tree", ("[mabo_parser::Definition", defs), ("mabo_parser::Schema", schema), ("&[&str]", T("arg", "path")), ("&str", name), refine=cs)
                for o in outs:
                    self.tree_case(o, k, gen, x, fields, defs, schema, name, dk)

    def tree_case(self, o, k, gen, x, fields, defs, schema, name, dk):
        R = self.R
        if o.kind != "ret":
            self.v("tree:panic", "tree", "collecting the definitions of a module can panic: %s" % (o.info,))
            return
        m = o.value
        if not (m[0] == "adt" and m[1] == RES + "Module"):
            R.undec("tree", "result %s" % show(m)[:100])
            return
        get = lambda n: m[4][fields.index(n)]
        for n, w in (("name", name), ("definitions", defs)) + ((("schema", schema),) if "schema" in fields else ()):
            R.n("obligations")
            if strip_views(get(n)) != w:
                self.doubt("tree:" + n, "tree", get(n), "the %s of a module is %s" % (n, show(get(n))[:80]))
        coll = {"Module": "modules", "Import": "imports"}.get(k, "types")
        for c in ("modules", "imports", "types"):
            R.n("obligations")
            items = self.added(o, get(c), defs)
            if items is None and c == coll:
                R.undec("tree:" + k, "how %s are collected is not understood" % coll)
            for it in items or ():
                if len(it) != (c == coll):
                    self.v("tree:" + k, "tree", "a %s is added %d times to the %s that the module declares" % (k, len(it), c))
                    continue
                if c != coll:
                    continue
                y = it[0]
                if k == "Import":
                    if strip_views(y) != x:
                        self.doubt("tree:Import", "tree", y, "an import is recorded as %s" % show(y)[:80])
                elif k == "Module":
                    if len(y) == 2 and not isinstance(y[0], str):
                        key, sub = y
                    elif y[0] == "tup":
                        key, sub = y[1]
                    else:
                        R.undec("tree:Module", "nested module %s" % show(y)[:80])
                        continue
                    nm = fld(fld(x, "name"), "value")
                    if strip_views(key) != nm:
                        self.doubt("tree:Module", "tree", key, "a nested module is recorded under %s" % show(key)[:80])
                    if not self.is_call(sub, "tree"):
                        R.undec("tree:Module", "nested module %s" % show(sub)[:80])
                    else:
                        for part, w in (("&[mabo_parser::Definition", fld(x, "definitions")), ("&str", nm), (SCHEMA[1:], schema)):
                            got = self.arg_exact(sub, part)
                            if got is not None and got != w:
                                self.doubt("tree:Module:" + part, "tree", got, "a nested module is built from %s, not %s" % (show(got)[:80], show(w)))
                else:
                    self.declaration(y, x, k, {1: "Some", 0: "None"}.get(gen), dk)

    def arg_exact(self, t, part):
        f = self.f["tree"]
        for i in range(1, f.argc + 1):
            s = f.local_ty(i)["s"]
            if s == part or s.startswith(part) and part != "&str" or part in s and part.startswith("mabo"):
                return strip_views(t[3][i - 1])

    def declaration(self, y, x, k, gen, dk):
        R = self.R
        fields = [n for n, _, _ in self.db.variants(RES + "Declaration")[0]["fields"]]
        if not (y[0] == "adt" and y[1] == RES + "Declaration"):
            R.undec("tree:" + k, "declaration %s" % show(y)[:80])
            return
        nm = strip_views(y[4][fields.index("name")])
        if nm not in (fld(x, "name"), fld(fld(x, "name"), "value")):
            self.doubt("tree:%s:name" % k, "tree", nm, "a %s is recorded under the name %s" % (k, show(nm)[:80]))
        kind = y[4][fields.index("kind")]
        want = {"TypeAlias": "Alias"}.get(k, k)
        if kind[0] != "adt":
            R.undec("tree:" + k, "kind %s" % show(kind)[:80])
            return
        if kind[2] != dk.get(want, kind[2]):
            self.v("tree:%s:kind" % k, "tree", "a %s is recorded as %s" % (k, show(kind)[:60]))
            return
        if k in ("Struct", "Enum"):
            n = strip_views(kind[4][0])
            w = T("len", fld(fld(fld(x, "generics"), "Some", "0"), "types"))
            if gen == "Some" and n != w or gen == "None" and n != ("int", 0):
                self.doubt("tree:%s:generics" % k, "tree", n, "a %s %s type parameters is recorded with %s of them" % (k, "with" if gen == "Some" else "without", show(n)[:80]))

    def added(self, o, value, defs):
        """What an element of `defs` adds to a collection: alternatives, each a list of items."""
        v = value
        if v[0] == "vec" and len(v[1]) == 1 and v[1][0][0] == "rep":
            return [list(a) for a in v[1][0][1]]
        if v == ("vec", ()):
            return [[]]
        if is_t(v, "accn", "mut"):
            v = v[2]
        if not is_t(v, "phi"):
            return None
        out = []
        lid = v[2]
        evs = [e for e in o.events if e[0] == "loop" and (e[1] == lid or str(e[1]) == str(lid))]
        for e in evs or [e for e in o.events if e[0] == "loop"]:
            for alt in e[2]:
                items = []
                for x in alt:
                    if x[0] == "push" and same_cell(x[1], v):
                        items.append(x[2])
                    elif x[0] == "call" and isinstance(x[1], str) and x[2] and same_cell(x[2][0], v):
                        n = x[1].rsplit("::", 1)[-1]
                        if n == "insert" and len(x[2]) == 3:
                            items.append((x[2][1], x[2][2]))
                        elif n == "push" and len(x[2]) == 2:
                            items.append(x[2][1])
                        elif n not in ("reserve", "len"):
                            return None
                out.append(items)
        return out or None

    def doubt(self, key, name, x, text):
        if known(x):
            self.v(key, name, text)
        else:
            self.R.undec(key, text)

    # ---- the sequence of steps -------------------------------------------
    def entry(self):
        R = self.R
        vals = T("arg", "values")
        outs = self.exec("entry", ("[(", vals))
        good, bad = split_result(outs)
        e = elem(vals)
        name, schema = fld(e, "0"), fld(e, "1")
        R.n("obligations")

        def tree_of(t):
            return self.is_call(t, "tree") and self.arg_exact(t, "&[mabo_parser::Definition") == fld(schema, "definitions")
        why = []

        def check(events, cs):
            for t, v in cs.items():
                if self.is_call(t, "module") and v == "Ok":
                    m = self.arg(t, "module", RES + "Module<")
                    s = self.arg(t, "module", SCHEMA)
                    rest = strip_views(next((t[3][i - 1] for i in range(1, self.f["module"].argc + 1) if self.f["module"].local_ty(i)["s"].startswith("&[")), A.UNIT))
                    if not tree_of(m):
                        why.append(("the module that is resolved is %s" % show(m)[:100], m))
                    elif s != schema:
                        why.append(("errors are reported for %s" % show(s)[:80], s))
                    elif not (rest[0] == "vec" and len(rest[1]) == 1 and rest[1][0][0] == "rep"):
                        why.append(("imports are looked up in %s" % show(rest)[:100], rest))
                    elif any(len(a) != 1 or a[0][0] != "tup" or len(a[0][1]) != 2 or strip_views(a[0][1][0]) != name or not tree_of(a[0][1][1]) for a in rest[1][0][1]):
                        why.append(("imports are looked up in %s" % show(rest)[:200], rest))
                    else:
                        return True
            return False
        steps = [("each", vals), ("check", check)]
        if not all(satisfied(g, steps) for g, _ in good):
            if why:
                self.doubt("entry", "entry", why[0][1], why[0][0])
            elif any(self.is_call(t, "module") for g, _ in good for x in flat(g) for t in x[1:2]):
                R.undec("entry", "not every schema is seen to be resolved")
            else:
                self.v("entry", "entry", "schemas are accepted without their types being resolved")
        self.explained("entry", bad, ("module",))

    def module(self):
        R = self.R
        s, m, all_ = T("arg", "schema"), T("arg", "module"), T("arg", "schemas")
        outs = self.exec("module", (SCHEMA, s), (MODULE, m), ("&[(", all_))
        good, bad = split_result(outs)
        sub = fld(m, "modules")

        def called(events, name, module=m):
            return any(e[0] == "call" and e[1] == self.f[name].name and any(strip_views(a) == module for a in e[2]) for e in events)

        def deeper(events, cs):
            return any(self.is_call(t, "module") and v == "Ok" and any(strip_views(a) in (fld(elem(sub), "1"), elem(sub)) for a in t[3])
                       and any(strip_views(a) == all_ for a in t[3]) for t, v in cs.items())
        for g, o in good:
            R.n("obligations", 4)
            if not any(called([e], "types") for e in flat(g)):
                self.unless(g, "module:types", "the types used in a module are not resolved", ("types",))
            cs = {e[1]: e[2] for e in g if e[0] in ("is", "cond")}
            imp = [t for t, v in cs.items() if self.is_call(t, "imports") and v == "Ok" and self.arg(t, "imports", RES + "Module<") == m]
            if not imp:
                self.unless(g, "module:imports", "the imports of a module are not resolved", ("imports",))
            ok = False
            for i, e in enumerate(g):
                if e[0] == "loop":
                    alts, full = alternatives(g, i)
                    res = [self.remote_of(a) for a in alts]
                    if full and alts and all(res):
                        ok = True
            if not ok and not any(is_t(t, "eq") and v is True and ("int", 0) in t[2:] for t, v in cs.items()):
                self.unless(g, "module:missing", "types that are not declared in the module are accepted without looking at its imports", ("remotely",))
            if not satisfied(g, [("each", sub), ("check", deeper)]):
                self.unless(g, "module:nested", "the types used in nested modules are not resolved", ("module",))
        self.explained("module", bad, ("imports", "remotely", "module"))

    def remote_of(self, alt):
        return any(e[0] == "is" and self.is_call(e[1], "remotely") and e[2] == "Ok" for e in alt)

    def unless(self, g, key, text, names):
        """A violation, unless the part is at least called in some way."""
        if any(e[0] == "call" and e[1] in [self.f[n].name for n in names] for e in flat(g)):
            for e in flat(g):
                if e[0] == "call" and e[1] in [self.f[n].name for n in names]:
                    bad = [a for a in e[2] if is_t(strip_views(a), "idx", "take", "skip")]
                    if bad:
                        self.v(key, "module", text + " (only %s)" % show(bad[0])[:80])
                        return
            self.R.undec(key, text + "?")
        else:
            self.v(key, "module", text)

    def explained(self, name, bad, parts):
        for events, o in bad:
            self.R.n("rejections explained")
            if o.kind != "ret":
                self.v(name + ":panic", name, "panics: %s" % (str(o.info)[:120],))
                continue
            dec = [e for e in events if e[0] in ("is", "cond")]
            if any(e[0] == "is" and e[2] == "Err" and any(self.is_call(e[1], p) for p in parts) for e in dec):
                continue
            if any(self.is_call(w, p) for w in walk(o.value) for p in parts):
                continue
            if all(known(e[1]) for e in dec):
                self.v(name + ":reject", name, "rejects schemas for a reason other than an unresolved name (%s)" % (show(dec[-1][1])[:100] if dec else "always"))
            else:
                self.R.undec(name + ":reject", "reason of a rejection is not understood")

    # ---- every used type is looked up ------------------------------------
    def types(self):
        R = self.R
        m = T("arg", "module")
        outs = self.exec("types", (MODULE, m), ("LocallyMissing", T("arg", "missing")))
        names = {w.name: w for w, _ in self.W}
        top = fld(m, "definitions")
        I = self.I
        seen = {}
        for label, steps, x, generic in type_positions(top):
            R.n("obligations")
            d = x
            kind = next(s[2] for s in steps if s[0] == "when" and s[2] in KINDS)
            gens = None if kind == "Const" else fld(fld(elem(top), kind, "0"), "generics")

            def check(events, cs):
                for e in flat(events):
                    if e[0] == "call" and e[1] in names and any(strip_views(a) == x for a in e[2]):
                        a = next((a for a in call_args(I, e) if a[0] == "clo"), None)
                        if a is not None:
                            self.visitor(a, m, gens, label)
                        return True
                return False
            if all(satisfied(list(o.events), steps + [("check", check)]) for o in outs):
                continue
            text = "the types used in a %s are accepted without being looked up" % label
            if any(e[0] == "call" and not str(e[1]).startswith(("mabo_parser", "core", "alloc")) and mentions(e, x) for o in outs for e in flat(o.events)):
                R.undec("types:" + label, text + "?")
            else:
                self.v("types:" + label, "types", text)

    def visitor(self, clo, m, gens, label):
        R = self.R
        body = self.db.fn(clo[1])
        if body is None or body.argc != 2:
            R.undec("visitor", "visitor of %s" % label)
            return
        x = T("arg", "external")
        st = A.State()
        if gens is not None:
            st.refine[gens] = 1
            outs = self.I.call_fn(body, [clo, x], st, ())
            self.judge(outs, m, x, fld(fld(gens, "Some", "0"), "types"), label, body)
            st = A.State()
            st.refine[gens] = 0
        outs = self.I.call_fn(body, [clo, x], st, ())
        self.judge(outs, m, x, None, label, body)
        R.saw(body)

    def judge(self, outs, m, x, params, label, body):
        R = self.R
        for o in outs:
            R.n("obligations")
            if o.kind != "ret":
                self.v("visitor:panic", "types", "panics")
                continue
            evs = list(flat(o.events))
            cs = {e[1]: e[2] for e in o.events if e[0] in ("is", "cond")}
            stored = [e for e in evs if e[0] == "push" or e[0] == "call" and isinstance(e[1], str) and e[1].rsplit("::", 1)[-1] in ("push", "insert", "push_back", "extend")]
            look = [t for t in cs if self.is_call(t, "local")]
            for t in look:
                if self.arg(t, "local", RES + "Module<") != m:
                    self.v("visitor:module", "types", "a type used in a %s is looked up in %s" % (label, show(self.arg(t, "local", RES + "Module<"))[:60]))
                if self.arg(t, "local", EXT) != x:
                    self.doubt("visitor:type", "types", self.arg(t, "local", EXT), "another type than the one used in a %s is looked up" % label)
            here = any(cs[t] == "Ok" for t in look)
            same = [t for t, v in cs.items() if v is True and is_t(t, "eq") and set(map(strip_views, t[2:])) == {fld(fld(x, "name"), "value"), fld(elem(params), "value") if params else None}]
            other = [t for t, v in cs.items() if v is True and is_t(t, "eq") and t not in same and mentions(t, fld(x, "name"))]
            empty = path_free(cs, fld(x, "path"))
            param = bool(same) and empty and cs.get(fld(x, "generics")) == "None"
            odd = [t for t in cs if not known(t) and not self.is_call(t, "local") and not is_t(t, "len")]
            if stored:
                if here:
                    self.v("visitor:found", "types", "a type that the module declares is reported as missing (%s)" % label)
                elif param:
                    self.v("visitor:param", "types", "a type parameter used in a %s is reported as missing" % label)
                elif not look and not odd:
                    self.v("visitor:unsought", "types", "a type used in a %s is reported as missing without being looked up" % label)
                continue
            if here or param:
                continue
            if odd:
                R.undec("visitor", "a type used in a %s is accepted for a reason that is not understood" % label)
            elif any(cs[t] == "Err" for t in look):
                self.v("visitor:lost", "types", "a type used in a %s that could not be found is not reported" % label)
            elif same and not empty:
                self.v("visitor:param-path", "types", "a type of another module (a::T) used in a %s is taken for the type parameter T" % label)
            elif same:
                self.v("visitor:param-args", "types", "a type with type arguments used in a %s is taken for a type parameter" % label)
            else:
                self.v("visitor:skip", "types", "a type used in a %s is accepted without being looked up%s" % (label, ": " + show(other[0])[:80] if other else ""))

    # ---- looking a name up -----------------------------------------------
    def local(self):
        m, x = T("arg", "module"), T("arg", "ty")
        self.lookup("local", m, x, [(MODULE, m), (EXT, x)], 0)

    def remote(self):
        m, x = T("arg", "module"), T("arg", "ty")
        self.lookup("remote", m, x, [(MODULE, m), (EXT, x)], 1)

    def lookup(self, part, m, x, args, skip):
        outs = self.exec(part, *args)
        name = fld(fld(x, "name"), "value")
        path = fld(x, "path")
        use = fld(x, "generics")
        good, bad = split_result(outs)
        for g, o in good:
            self.R.n("obligations", 4)
            cs = conds(g)
            if not self.declared(part, g, cs, m, path, skip, "0", name):
                continue
            D = self.decl(cs, name)
            K = self.struct_or_enum(part, cs, D)
            if K:
                self.counts(part, cs, D, K, use, True)
        for g, o in bad:
            self.refused(part, g, o, m, path, skip, "0", name, use)

    def decl(self, cs, name):
        for t, v in cs.items():
            if v is True and is_t(t, "eq"):
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if strip_views(b) == name and is_t(a, "fld") and a[-1] == "value" and is_t(a[2], "fld") and a[2][-1] == "name":
                        D = a[2][2]
                        if is_t(D, "elem") and is_t(D[2], "fld") and D[2][-1] == "types":
                            return D
        return None

    def declared(self, part, g, cs, m, path, skip, sel, name):
        """On an accepting path: the name is declared in the module at the end of the path."""
        D = self.decl(cs, name)
        if D is None:
            near = [t for t, v in cs.items() if is_t(t, "eq") and v is True and any(is_t(w, "fld") and w[-1] == "types" for w in walk(t))]
            if near and all(known(t, extra=("fold", "phi", "accn")) for t in near):
                self.v(part + ":name", part, "a name is found by comparing %s" % show(near[0])[:160])
            elif not any(is_t(w, "fld") and w[-1] == "types" for e in flat(g) for w in walk(e)) and all(known(t) or is_get(t) for t in cs):
                self.v(part + ":exists", part, "a name is accepted without being declared")
            else:
                self.R.undec(part + ":exists", "how a declaration is found is not understood")
            return False
        w = self.walked(D[2][2], m, path, skip, sel, cs)
        if w is True:
            return True
        if w is None:
            self.R.undec(part + ":path", "how the path is followed is not understood: %s" % show(D[2][2])[:120])
        else:
            self.v(part + ":path", part, w)
        return False

    def walked(self, X, base, path, skip, sel, cs):
        if X == base:
            L = T("len", path)
            hold = [t for t in cs if mentions(t, L)]
            for n in range(skip + 1, LIMIT):
                got = [(ev(t, {L: n}), cs[t]) for t in hold]
                if any(g is not None and bool(g) != bool(v) for g, v in got if isinstance(v, bool)):
                    continue
                if any(g is None for g, v in got) or any(mentions(t, path) and not mentions(t, L) for t in cs):
                    return None
                return "the modules of a path of %d segments are ignored: the name is looked up in the module itself" % n
            return True
        if is_t(X, "fold") and X[2] == base and X[3][0] in ("arr", "vec") and len(X[3][1]) == 1:
            return self.step(X[3][1][0], base, path, skip, sel)
        p = X
        if is_t(p, "accn", "phi"):
            last = self.I.carry.get(p, set())
            init = p[4] if is_t(p, "phi") else None
            if init == base and last:
                r = [self.step(y, base, path, skip, sel) for y in last if y != p]
                bad = [y for y in r if y is not True]
                return bad[0] if bad else (True if r else None)
        return None

    def step(self, y, base, path, skip, sel):
        """One step along the path: the module of that name in the module reached so far."""
        if not (is_t(y, "fld") and y[3:] == ("Some", "0") and is_get(y[2])):
            return None
        src, key = y[2][3][0], strip_views(y[2][3][1])
        if not (is_t(src, "fld") and src[-1] == "modules" and is_t(src[2], "phi") and src[2][4] == base):
            if src == fld(base, "modules"):
                return "every segment of a path is looked up in the first module"
            return None
        P, n = path, 0
        e = next((w for w in walk(key) if is_t(w, "elem")), None)
        if e is None:
            return "a path is followed by looking up %s" % show(key)[:80] if known(key) else None
        P = e[2]
        if is_t(P, "skip") and P[3][0] == "int":
            P, n = P[2], P[3][1]
        elif is_t(P, "index_") and P[3][0] == "adt" and P[3][1].endswith("RangeFrom") and P[3][4][0][0] == "int":
            P, n = P[2], P[3][4][0][1]
        if P != path:
            return "only part of a path is followed: %s" % show(e[2])[:80] if known(e[2]) else None
        want = fld(fld(e, sel), "value") if sel else fld(e, "value")
        if key != want:
            return "a path is followed by looking up %s" % show(key)[:80] if known(key) else None
        if n != skip:
            return "a path is followed from segment %d instead of segment %d on" % (n + 1, skip + 1)
        return True

    def struct_or_enum(self, part, cs, D):
        k = cs.get(fld(D, "kind"))
        if k in ("Struct", "Enum"):
            return k
        if k is not None:
            self.v(part + ":kind", part, "the name of %s is accepted as a type" % {"Alias": "a type alias", "Const": "a constant"}.get(k, k))
        elif any(mentions(t, fld(D, "kind")) for t in cs if not known(t)) or any(("not", fld(D, "kind")) == t for t in cs):
            self.R.undec(part + ":kind", "which kinds of definitions are accepted is not understood")
        else:
            self.v(part + ":kind", part, "the name of any definition is accepted as a type")
        return None

    def counts(self, part, cs, D, K, use, accept):
        """Are the numbers of type parameters and arguments equal in all (accepted) cases?"""
        d = fld(fld(D, "kind"), K, "generics")
        state = cs.get(use)
        u = T("len", fld(use, "Some", "0"))
        hold = [t for t in cs if isinstance(t, tuple) and is_t(t) and t != use and (mentions(t, d) or mentions(t, u))]
        for a in range(3):
            for b in ((0,) if state == "None" else range(3) if state == "Some" else range(3)):
                if a == b:
                    continue
                env = {d: a, u: b}
                got = [(ev(t, env), cs[t]) for t in hold]
                if any(g is not None and bool(g) != bool(v) for g, v in got):
                    continue
                if any(g is None for g, v in got) or any(not known(t, extra=("fold", "phi", "accn")) and not is_get(t) and mentions(t, use) for t in cs):
                    self.R.undec(part + ":generics", "how the numbers of type arguments are compared is not understood")
                else:
                    self.v(part + ":generics", part, "%d type arguments are accepted for a type with %d parameters" % (b, a))
                return

    def refused(self, part, g, o, m, path, skip, sel, name, use):
        self.R.n("rejections explained")
        if o.kind != "ret":
            self.v(part + ":panic", part, "panics: %s" % (str(o.info)[:120],))
            return
        cs = conds(g)
        gone = [t for t, v in cs.items() if is_get(t) and v == "None"]
        for t in gone:
            # a segment of the path does not name a module: but is it the right one?
            r = self.step(fld(t, "Some", "0"), m, path, skip, sel)
            if r not in (True, None):
                self.v(part + ":path", part, r)
        if gone:
            return
        D = self.decl(cs, name)
        if D is None:
            for i, e in enumerate(g):
                if e[0] == "loop" and any(is_t(w, "elem") and is_t(w[2], "fld") and w[2][-1] == "types" for a in e[2] for x in a for w in walk(x)):
                    for a in e[2]:
                        c2 = conds(a)
                        neg = [t for t, v in c2.items() if v is False and is_t(t, "eq") and any(strip_views(s) == name for s in t[2:])]
                        if neg:
                            X = next((w[2][2] for w in walk(neg[0]) if is_t(w, "elem") and is_t(w[2], "fld") and w[2][-1] == "types"), None)
                            r = self.walked(X, m, path, skip, sel, cs) if X is not None else None
                            if isinstance(r, str):
                                self.v(part + ":path", part, r)
                        elif a and all(known(t, extra=("fold", "phi", "accn")) for t in c2):
                            self.v(part + ":skipped", part, "a declared name is not found when %s is %s" % next(((show(t)[:100], v) for t, v in c2.items()), ("", "")))
                    return
            if all(known(t, extra=("fold", "phi", "accn")) or is_get(t) for t in cs):
                self.v(part + ":reject", part, "names are rejected without being looked up (%s)" % "; ".join("%s is %s" % (show(t)[:60], v) for t, v in list(cs.items())[-2:]))
            return
        k = cs.get(fld(D, "kind"))
        if k in ("Alias", "Const"):
            return
        if k is None:
            nk = cs.get(("not", fld(D, "kind")), ())
            if "Struct" in nk and "Enum" in nk:
                return
            if all(known(t, extra=("fold", "phi", "accn")) or is_get(t) for t in cs if t != ("not", fld(D, "kind"))):
                self.v(part + ":kind", part, "the name of a declared type is rejected without looking at its kind")
            return
        d = fld(fld(D, "kind"), k, "generics")
        u = T("len", fld(use, "Some", "0")) if use is not None else None
        hold = [t for t in cs if isinstance(t, tuple) and is_t(t) and t != use and (mentions(t, d) or u is not None and mentions(t, u))]
        state = cs.get(use) if use is not None else None
        for a in range(3):
            if state == "None" and a:
                continue
            got = [(ev(t, {d: a, u: a}), cs[t]) for t in hold]
            if any(g is None for g, v in got):
                return
            if all(bool(g) == bool(v) for g, v in got):
                self.v(part + ":reject", part, "a declared %s with %d type parameters is rejected when used with %d arguments" % (k.lower(), a, a))
                return

    # ---- imports ---------------------------------------------------------
    def imports(self):
        R = self.R
        m, all_ = T("arg", "module"), T("arg", "schemas")
        outs = self.exec("imports", (MODULE, m), ("&[(", all_))
        good, bad = split_result(outs)
        imps = fld(m, "imports")
        im = elem(imps)
        first = [T("index_", fld(im, "segments"), ("int", 0)), T("idx", fld(im, "segments"), ("int", 0)), fld(T("idx", fld(im, "segments"), ("int", 0)), "Some", "0")]
        names = [fld(f, "value") for f in first]
        why = []

        def check(events, cs):
            for t, v in cs.items():
                if self.is_call(t, "import") and v == "Ok":
                    s, i = self.arg(t, "import", RES + "Module<"), self.arg(t, "import", IMPORT)
                    if i != im:
                        why.append(("the import %s is resolved" % show(i)[:80], i))
                    elif s != fld(elem(all_), "1"):
                        why.append(("an import is resolved in %s" % show(s)[:80], s))
                    else:
                        eq = [c for c, w in cs.items() if w is True and is_t(c, "eq") and fld(elem(all_), "0") in map(strip_views, c[2:])]
                        if any(strip_views(y) in names for c in eq for y in c[2:]):
                            return True
                        why.append(("the schema of an import is found by %s" % (show(eq[0])[:100] if eq else "nothing"), eq[0] if eq else A.UNIT))
            return False
        for g, o in good:
            R.n("obligations", 2)
            v = o.value[4][0] if o.value[0] == "adt" and o.value[4] else None
            alts = v[1][0][1] if v is not None and v[0] == "vec" and len(v[1]) == 1 and v[1][0][0] == "rep" else None
            if not satisfied(g, [("each", imps), ("check", check)]):
                if v == ("vec", ()):
                    continue
                if why:
                    self.doubt("imports:each", "imports", why[0][1], why[0][0])
                elif any(e[0] == "call" and e[1] == self.f["import"].name for e in flat(g)):
                    R.undec("imports:each", "not every import is seen to be resolved")
                else:
                    self.v("imports:each", "imports", "imports are accepted without being resolved")
            if alts is not None:
                for a in alts:
                    if len(a) == 0:
                        self.v("imports:dropped", "imports", "some imports are not made available")
                    elif len(a) == 1 and not (is_t(a[0], "fld") and a[0][3:] == ("Ok", "0") and self.is_call(a[0][2], "import")):
                        self.doubt("imports:value", "imports", a[0], "an import makes %s available" % show(a[0])[:80])
        for g, o in bad:
            R.n("rejections explained")
            if o.kind != "ret":
                self.v("imports:panic", "imports", "panics: %s" % (str(o.info)[:120],))
                continue
            cs = conds(g)
            if any(self.is_call(t, "import") and v == "Err" for t, v in cs.items()) or any(self.is_call(w, "import") for w in walk(o.value)):
                continue
            loops = [e for e in flat(g) if e[0] == "loop" and any(mentions(x, elem(all_)) for a in e[2] for x in a)]
            if not loops:
                if all(known(t) for t in cs):
                    self.v("imports:reject", "imports", "imports are rejected without looking for their schema")
                continue
            for a in loops[-1][2]:
                c2 = conds(a)
                if not any(v is False and is_t(t, "eq") and fld(elem(all_), "0") in map(strip_views, t[2:]) and any(strip_views(y) in names for y in t[2:]) for t, v in c2.items()):
                    if c2 and all(known(t) for t in c2):
                        self.v("imports:missing", "imports", "an existing schema is not found when %s is %s" % next((show(t)[:100], v) for t, v in c2.items()))

    def import_(self):
        R = self.R
        m, im = T("arg", "module"), T("arg", "import")
        outs = self.exec("import", (MODULE, m), (IMPORT, im))
        good, bad = split_result(outs)
        path = fld(im, "segments")
        el = fld(im, "element")
        name = fld(fld(fld(el, "Some", "0"), "1"), "value")
        ri = {v["name"]: v for v in self.db.variants(RES + "ResolvedImport")}
        for g, o in good:
            R.n("obligations", 3)
            cs = conds(g)
            v = o.value[4][0] if o.value[0] == "adt" and o.value[1] == A.RESULT else None
            if v is None or v[0] != "adt":
                R.undec("import", "result %s" % show(o.value)[:100])
                continue
            got = self.db.variants(v[1])[v[2]]["name"]
            if cs.get(el) == "None":
                if got != "Module":
                    self.v("import:module", "import", "an import of a module gives a %s" % got)
                    continue
                w = self.walked(v[4][0], m, path, 1, None, cs)
                if w is None:
                    R.undec("import:path", "how the path is followed is not understood")
                elif w is not True:
                    self.v("import:path", "import", w)
            elif cs.get(el) == "Some":
                if not self.declared("import", g, cs, m, path, 1, None, name):
                    continue
                D = self.decl(cs, name)
                K = self.struct_or_enum("import", cs, D)
                if not K:
                    continue
                if got != "Type":
                    self.v("import:type", "import", "an import of a type gives a %s" % got)
                    continue
                for (n, _, _), y in zip(ri["Type"]["fields"], v[4]):
                    y = strip_views(y)
                    want = {"name": (fld(D, "name"), fld(fld(D, "name"), "value")), "generics": (fld(fld(D, "kind"), K, "generics"),),
                            "schema": (fld(m, "schema"),)}.get(n)
                    if want and y not in want:
                        self.doubt("import:" + n, "import", y, "the %s of an imported type is %s" % (n, show(y)[:80]))
            else:
                R.undec("import", "whether an element is imported is not looked at")
        for g, o in bad:
            self.refused("import", g, o, m, path, 1, None, name, None)

    def remotely(self):
        R = self.R
        x0, imps = T("arg", "missing"), T("arg", "imports")
        outs = self.exec("remotely", ("LocallyMissing", x0), ("ResolvedImport", imps))
        good, bad = split_result(outs)
        x = fld(x0, "external")
        i = elem(imps)
        mod = fld(i, "Module", "0")
        name, path, use = fld(fld(x, "name"), "value"), fld(x, "path"), fld(x, "generics")
        tn = fld(fld(i, "Type", "name"), "value")
        firsts = [fld(fld(T("idx", path, ("int", 0)), "0"), "value"), fld(fld(fld(T("idx", path, ("int", 0)), "Some", "0"), "0"), "value")]
        d = fld(i, "Type", "generics")
        u = T("len", fld(use, "Some", "0"))
        L = T("len", path)

        def eqs(cs, want):
            return [t for t, v in cs.items() if is_t(t, "eq") and v is want]

        def pathy(cs):
            """Is the path empty? True / False / None."""
            r = {n for n in range(LIMIT) if all(bool(ev(t, {L: n})) == bool(v) for t, v in cs.items() if isinstance(t, tuple) and is_t(t) and mentions(t, L) and ev(t, {L: n}) is not None)}
            return True if r == {0} else False if r and 0 not in r else None

        for g, o in good:
            R.n("obligations", 3)
            cs = conds(g)
            e = pathy(cs)
            rem = [t for t, v in cs.items() if self.is_call(t, "remote") and v == "Ok"]
            if rem:
                t = rem[0]
                if self.arg(t, "remote", RES + "Module<") != mod:
                    self.doubt("remotely:module", "remotely", self.arg(t, "remote", RES + "Module<"), "a type is looked up in %s" % show(self.arg(t, "remote", RES + "Module<"))[:80])
                elif self.arg(t, "remote", EXT) != x:
                    self.doubt("remotely:type", "remotely", self.arg(t, "remote", EXT), "another type than the missing one is looked up")
                elif not any(fld(mod, "name") in map(strip_views, q[2:]) and any(strip_views(y) in firsts for y in q[2:]) for q in eqs(cs, True)):
                    q = [q for q in eqs(cs, True) if mentions(q, mod)]
                    if q and known(q[0]):
                        self.v("remotely:import", "remotely", "the import of a path is found by %s" % show(q[0])[:120])
                    elif not q and all(known(t) or self.is_call(t, "remote") for t in cs):
                        self.v("remotely:import", "remotely", "a type is looked up in an import of another name")
                    else:
                        R.undec("remotely:import", "how the import is found is not understood")
                continue
            hit = [q for q in eqs(cs, True) if {tn, name} == set(map(strip_views, q[2:]))]
            if hit:
                if e is not True:
                    if e is False:
                        self.v("remotely:path", "remotely", "a type of a module (a::T) is taken for the imported type T")
                    else:
                        R.undec("remotely:path", "whether the type has a path is not understood")
                fake = {t: v for t, v in cs.items()}
                hold = [t for t in cs if isinstance(t, tuple) and is_t(t) and t != use and (mentions(t, d) or mentions(t, u))]
                done = False
                for a in range(3):
                    for b in (0,) if cs.get(use) == "None" else range(3):
                        if a == b or done:
                            continue
                        got = [(ev(t, {d: a, u: b}), cs[t]) for t in hold]
                        if any(y is not None and bool(y) != bool(v) for y, v in got):
                            continue
                        done = True
                        if any(y is None for y, v in got):
                            R.undec("remotely:generics", "how the numbers of type arguments are compared is not understood")
                        else:
                            self.v("remotely:generics", "remotely", "%d type arguments are accepted for an imported type with %d parameters" % (b, a))
                continue
            if all(known(t) for t in cs):
                self.v("remotely:accept", "remotely", "a type that is not declared locally is accepted although no import provides it (%s)" % "; ".join(
                    "%s is %s" % (show(t)[:80], v) for t, v in list(cs.items())[-2:]))
            else:
                R.undec("remotely:accept", "why a missing type is accepted is not understood")
        for g, o in bad:
            R.n("rejections explained")
            if o.kind != "ret":
                self.v("remotely:panic", "remotely", "panics: %s" % (str(o.info)[:120],))
                continue
            cs = conds(g)
            if any(self.is_call(t, "remote") and v == "Err" for t, v in cs.items()):
                continue
            LI = T("len", imps)
            if any(mentions(t, LI) and ev(t, {LI: 0}) is not None and bool(ev(t, {LI: 0})) == bool(v) and bool(ev(t, {LI: 1})) != bool(v) for t, v in cs.items()):
                continue        # no imports at all
            hit = [q for q in eqs(cs, True) if {tn, name} == set(map(strip_views, q[2:]))]
            if hit:
                hold = [t for t in cs if isinstance(t, tuple) and is_t(t) and t != use and (mentions(t, d) or mentions(t, u))]
                for a in range(3):
                    if cs.get(use) == "None" and a:
                        continue
                    got = [(ev(t, {d: a, u: a}), cs[t]) for t in hold]
                    if all(y is not None and bool(y) == bool(v) for y, v in got):
                        self.v("remotely:reject", "remotely", "an imported type with %d type parameters is rejected when used with %d arguments" % (a, a))
                        break
                continue
            if any(fld(mod, "name") in map(strip_views, q[2:]) for q in eqs(cs, True)) and all(known(t) for t in cs):
                self.v("remotely:reject", "remotely", "a type of an imported module is rejected without being looked up")
                continue
            for e in [e for e in flat(g) if e[0] == "loop" and any(mentions(y, i) for a in e[2] for y in a)][-1:]:
                for a in e[2]:
                    c2 = conds(a)
                    kind = c2.get(i)
                    nope = eqs(c2, False)
                    if kind == "Type" and pathy(cs) is False or kind == "Module" and pathy(cs) is True:
                        continue
                    if any(fld(mod, "name") in map(strip_views, q[2:]) and any(strip_views(y) in firsts for y in q[2:]) or {tn, name} == set(map(strip_views, q[2:])) for q in nope):
                        continue
                    if c2 and all(known(t) for t in c2) and pathy(cs) is not None:
                        self.v("remotely:skipped", "remotely", "an import is not considered when %s" % " and ".join("%s is %s" % (show(t)[:100], v) for t, v in list(c2.items())[:3]))


def same_cell(a, v):
    while is_t(a, "mut", "deref", "accn"):
        a = a[2]
    return a == v or is_t(a, "phi") and is_t(v, "phi") and a[2:4] == v[2:4]


def conds(events):
    cs = {}
    for e in events:
        if e[0] in ("is", "cond"):
            cs.setdefault(e[1], e[2])
        elif e[0] == "not":
            cs[("not", e[1])] = e[2]
    return cs


def is_get(t):
    return is_t(t, "call") and isinstance(t[2], str) and t[2].endswith(("Map::get", "Map<K, V>::get", "Map::get_mut", "Map::remove")) and len(t[3]) == 2


BASIC = ("arg", "elem", "fld", "index", "len", "skip", "take", "rev", "idx", "index_", "eq", "ne", "lt", "le", "gt", "ge", "not", "add", "chain", "bin")


def known(t, extra=()):
    """Made of the schema and comparisons alone."""
    if isinstance(t, tuple) and t and t[0] == "not":
        return known(t[1], extra)
    return all(not is_t(w) or w[1] in BASIC or w[1] in extra for w in walk(t))


def path_free(cs, path):
    L = T("len", path)
    for t, v in cs.items():
        if isinstance(t, tuple) and is_t(t) and mentions(t, L):
            if ev(t, {L: 1}) is not None and bool(ev(t, {L: 1})) != bool(v) and bool(ev(t, {L: 0})) == bool(v):
                return True
    return False
