"""M17: code is generated from every project file, and only after all of them parsed, validated and resolved."""
from rules.common import rewrite
from rules.pipe import *

SIMPLE = "mabo_compiler::simplify::Schema"


def takes(f, ty):
    return any(ty in f.local_ty(i)["s"] for i in range(1, f.argc + 1))


def entries(db):
    """Functions that lead from a loaded project to written files of generated code: not themselves called by such a function."""
    gens = {f.id for f in db.fns.values() if f.crate.name in ("mabo_build", "mabo_go") and f.kind in ("Fn", "AssocFn") and takes(f, SIMPLE)}
    out = []
    for f in db.fns.values():
        if f.kind not in ("Fn", "AssocFn") or f.crate.name not in ("mabo_build", "mabo_go"):
            continue
        r = db.reach([f.id]) if False else reach(db, f)
        names = {n for g in r for n in external(db, g)}
        if any(g.id in gens for g in r) and any(n.startswith(WRITES + OTHER_WRITES) for n in names) and any(n == "mabo_project::load" for n in {g.name for g in r} | names):
            out.append(f)
    ids = {f.id for f in out}
    top = [f for f in out if not any(f.id in {m for m in db.mentions(g)} for g in out if g.id != f.id)]
    return top, gens


def reach(db, f):
    seen, work = {f.id: f}, [f]
    while work:
        g = work.pop()
        for h in db.mentions(g):
            x = db.fns.get(h)
            if x is not None and x.id not in seen:
                seen[x.id] = x
                work.append(x)
    return list(seen.values())


def external(db, f):
    for h in db.mentions(f):
        if h not in db.fns:
            yield h


def run(db, R):
    ro = roles(db)
    if len(ro) < len(ROLES):
        R.undec("roles", "no unique function for %s" % sorted(set(ROLES) - set(ro)))
        return
    top, gens = entries(db)
    for f in top:
        tool(db, R, ro, f, gens)
    writers(db, R, "mabo_go")
    R.floor("generators", 2)
    R.floor("writes", 2)
    R.floor("paths", 40)


def tool(db, R, ro, f, gens):
    name = f.crate.name
    R.saw(f)
    own = {"mabo_build": "mabo_build", "mabo_go": "mabo_go"}[name]
    I = A.Interp(db, opaque=lambda g: g.id in gens or (g.crate.name != own) or (own == "mabo_go" and "@bin" not in g.id))
    try:
        outs = I.run(f)
    except A.Unsupported as x:
        R.undec(name, str(x))
        return
    for g in I.visited:
        R.saw(g)
    R.n("generators")
    surface(db, I, R, name, f, outs)
    good = 0
    for o in outs:
        ws = list(writes(o.events))
        for known, w in ws:
            R.n("writes")
            try:
                gate(I, R, ro, name, f, known, w)
            except Undecided as x:
                R.undec("%s:gate" % name, str(x))
        if success(o):
            good += 1
            try:
                every(I, R, ro, name, f, o)
            except Undecided as x:
                R.undec("%s:every" % name, str(x))
    if not good:
        R.v("%s:never" % name, "%s (%s): no path ends in success" % (f.name, loc(f)))


def source(t, ro):
    """(parse call, file) for generated content, or None: simplify(parse(read(file), file).Ok)."""
    for v in walk(t):
        if is_t(v, "call") and v[2] == ro["simplify"]:
            x = strip_views(v[3][0])
            if is_t(x, "fld") and x[3:] == ("Ok", "0") and is_t(x[2], "call") and x[2][2] == ro["parse"]:
                p = x[2]
                for u in walk(p[3][0]):
                    if is_t(u, "call") and u[2] == "std::fs::read_to_string":
                        return x, p, strip_views(u[3][0])
            return None
    return None


def project_files(t, ro):
    """The list of project files of which t is an element."""
    if is_t(t, "elem") and is_t(t[2], "fld") and t[2][3] == "files":
        b = t[2][2]
        if is_t(b, "fld") and is_t(b[2], "call") and b[2][2] == ro["load"]:
            return t[2]
    return None


def facts_of(events):
    return {(e[1], e[2]) for e in events if e[0] in ("is", "cond")}


def gate(I, R, ro, name, f, known, w):
    where = "%s (%s)" % (f.name, loc(f))
    src = source(w[2][1], ro)
    if src is None:
        if any(is_t(v, "call") and v[2] == ro["simplify"] for v in walk(w[2][1])):
            R.undec("%s:source" % name, "cannot tell where the generated content comes from")
            return
        R.v("%s:source" % name, "%s: writes content that is not generated from a parsed schema: %s" % (where, show(w[2][1])[:160]))
        return
    x, p, file = src
    coll = project_files(file, ro)
    if coll is None:
        R.v("%s:file" % name, "%s: generates code from %s, which is not a file of the project" % (where, show(file)[:120]))
        return
    named = [u for u in walk(p[3][1])] if len(p[3]) > 1 else []
    if file not in named:
        R.v("%s:label" % name, "%s: a schema is parsed under the name of another file" % where)
    done = set()
    unsure = None
    for i, e, alts, full in loops(I, known):
        it = iterated(known, i)
        cov = covers(it, coll) if it is not None else None
        if not any(mentions(a, p) for a in alts):
            continue
        R.n("obligations")
        if not full or cov is None:
            unsure = "a loop over %s" % (show(it)[:80] if it else "something unknown")
            continue
        if cov is False:
            continue
        if all((p, "Ok") in facts_of(a) for a in alts):
            done.add("parse")
        if all(any(is_t(t, "call") and t[2] == ro["validate"] and strip_views(t[3][0]) == x and v == "Ok" for t, v in facts_of(a)) for a in alts):
            done.add("validate")
    if done != {"parse", "validate"}:
        if unsure:
            raise Undecided(unsure)
        R.v("%s:unchecked" % name, "%s: writes generated code although not every project file has been parsed and validated before" % where)
    res = [t for t, v in facts_of(known) if is_t(t, "call") and t[2] == ro["resolve"] and v == "Ok"]
    if not res:
        R.v("%s:unresolved" % name, "%s: writes generated code without (successful) type resolution before" % where)
        return
    for t in res:
        arg = t[3][0]
        c = covers(arg, coll)
        if c is None:
            R.undec("%s:resolved-set" % name, "cannot tell which schemas are resolved: %s" % show(arg)[:100])
        elif c is False:
            R.v("%s:resolved-set" % name, "%s: not every schema takes part in type resolution" % where)
        elif not mentions(arg, x):
            R.v("%s:resolved-set" % name, "%s: other schemas than the generated ones are resolved" % where)


def every(I, R, ro, name, f, o):
    """A path that reports success wrote the generated code of every project file."""
    where = "%s (%s)" % (f.name, loc(f))
    R.n("obligations")
    unsure = None
    for i, e, alts, full in loops(I, o.events):
        if not any(w for a in alts for w in writes(a)):
            continue
        it = iterated(o.events, i)
        srcs = [[source(w[2][1], ro) for _, w in writes(a)] for a in alts]
        files = {s[2] for l in srcs for s in l if s}
        if len(files) != 1:
            continue
        coll = project_files(next(iter(files)), ro)
        if coll is None:
            continue
        c = covers(it, coll) if it is not None and full else None
        if c is None:
            unsure = "a loop over %s" % (show(it)[:80] if it else "something unknown")
            continue
        if c and all(any(l) for l in srcs):
            place(I, R, ro, name, f, o.events, alts, next(iter(files)))
            return
    if unsure:
        raise Undecided(unsure)
    R.v("%s:every" % name, "%s: reports success without having written the code of every project file" % where)


def place(I, R, ro, name, f, events, alts, file):
    """Where the code ends up: below the output directory, under a name made from the schema's own."""
    for a in alts:
        for known, w in writes(a):
            if not source(w[2][1], ro):
                continue
            ps = parts(w[2][0])
            last = ps[-1]
            if is_t(last, "call") and str(last[2]).endswith(("::with_extension", "::set_extension")) and name == "mabo_build":
                if any(is_t(v, "call") and v[2].endswith("Path::file_stem") for v in walk(last[3][0])):
                    R.v("%s:place" % name, "%s (%s): the code of <stem>.mabo is written to %s, which replaces the last part of a stem with a dot" % (f.name, loc(f), show(w[2][0])[:160]))
                    continue
            if last[0] != "sbuf":
                R.undec("%s:place" % name, "file name %s" % show(last)[:80])
                continue
            vals = [x for x in last[1] if x[0] != "lit"]
            lits = "".join(x[1] for x in last[1] if x[0] == "lit")
            R.n("obligations")
            if name == "mabo_build":
                stem = [v for v in walk(vals[0][2]) if is_t(v, "call") and v[2].endswith("Path::file_stem")] if len(vals) == 1 else []
                dirs = ps[:-1]
                good = lits == ".rs" and last[1][-1] == ("lit", ".rs") and stem and strip_views(stem[0][3][0]) == file
                good = good and len(dirs) == 2 and dirs[1] == ("str", "mabo") and any(is_t(v, "call") and v[2] == "std::env::var_os" and v[3] == (("str", "OUT_DIR"),) for v in walk(dirs[0]))
                if not good:
                    R.v("%s:place" % name, "%s (%s): the code of <stem>.mabo is written to %s, where `mabo::include!(\"<stem>\")` doesn't look for it" % (f.name, loc(f), show(w[2][0])[:160]))
            if not mentions(named(I, w[2][0]), file):
                R.v("%s:overwrite" % name, "%s (%s): the code of every project file is written to the same file %s, each replacing the one before" % (f.name, loc(f), show(named(I, w[2][0]))[:120]))
                continue
            seen_unique(R, name, f, events, file)


def named(I, path):
    """The path with names of rendered outputs replaced by what the renderer sets them to."""
    def f(v):
        if is_t(v, "fld") and v[3:] == ("name",) and is_t(v[2], "call"):
            g = [g for g in I.db.fns.values() if g.name == v[2][2] and g.kind == "Fn" and "::Output<" in g.local_ty(0)["s"]]
            if len(g) == 1:
                J = A.Interp(I.db, opaque=lambda h: True)
                try:
                    vals = {project(I.db, o.value)["name"] for o in J.call_fn(g[0], list(v[2][3]), A.State(), ()) if o.kind == "ret" and o.value[0] == "adt"}
                except A.Unsupported:
                    return v
                if len(vals) == 1:
                    return strip_views(next(iter(vals)))
        return v
    return rewrite(path, f)


def project(db, v):
    return {f[0]: x for f, x in zip(db.variants(v[1])[0]["fields"], v[4])}


def ok_test(t):
    """Tests whether there is a file name at all, or what became of the schema that was parsed under it."""
    calls = [str(v[2]) for v in walk(t) if is_t(v, "call")]
    return is_t(t, "call") and calls and str(t[2]).endswith(("::file_stem", "::to_str")) or any(c.startswith(("mabo_", "std::fs::", "syn::")) for c in calls)


def seen_unique(R, name, f, events, file):
    """Two project files with the same stem must not silently overwrite each other's code."""
    for key, c, new in ((k, c, n) for e in events if e[0] == "loop" for a in e[2] for k, c, n in membership(a)):
        if new and any(is_t(v, "call") and v[2].endswith("Path::file_stem") for v in walk(key)):
            return
    if any(e[0] in ("is", "cond") and not ok_test(e[1]) and any(is_t(v, "call") and v[2].endswith("Path::file_stem") for v in walk(e[1])) for l in events if l[0] == "loop" for a in l[2] for e in flat(a)):
        R.undec("%s:collision" % name, "some test of the file name")
        return
    R.v("%s:collision" % name, "%s (%s): two project files of the same stem are written to the same file, the later one replacing the earlier one without an error" % (f.name, loc(f)))


def writers(db, R, crate):
    """Functions that write a tree of generated modules: the content of each node, and all of its modules."""
    for f in db.fns.values():
        if f.kind not in ("Fn", "AssocFn") or f.crate.name != crate or "@bin" not in f.id:
            continue
        ads = [i for i in range(1, f.argc + 1) if "::Output<" in f.local_ty(i)["s"]]
        if len(ads) != 1 or not recursive_self(db, f):
            continue
        R.saw(f)
        I = A.Interp(db, opaque=lambda g: "@bin" not in g.id)
        out = T("arg", "output")
        args = [out if i == ads[0] else T("arg", "parent") for i in range(1, f.argc + 1)]
        key = f.name
        try:
            outs = I.call_fn(f, args, A.State(), ())
        except A.Unsupported as x:
            R.undec(key, str(x))
            continue
        R.n("tree writers")
        surface(db, I, R, key, f, outs)
        for o in outs:
            if not success(o):
                continue
            R.n("obligations")
            ws = [w for k, w in writes(o.events) if mentions(w[2][1], fld(out, "content"))]
            if not any(w in o.events for w in ws):
                R.v(key + ":content", "%s (%s): returns without having written the node's own content" % (f.name, loc(f)))
            mods = fld(out, "modules")
            done = False
            for i, e, alts, full in loops(I, o.events):
                it = iterated(o.events, i)
                if covers(it, mods) and full and all(any(is_t(t, "call") and t[2] == f.name and t[3] and any(strip_views(x) == elem(mods) for x in t[3]) and v == "Ok"
                                                         for t, v in facts_of(a)) for a in alts):
                    done = True
                    for a in alts:
                        for t, v in facts_of(a):
                            if is_t(t, "call") and t[2] == f.name and not any(mentions(x, fld(out, "name")) for x in t[3]):
                                R.v(key + ":dir", "%s (%s): nested modules are written to a directory that doesn't depend on the module, so equally named ones replace each other" % (f.name, loc(f)))
            if not done:
                R.v(key + ":modules", "%s (%s): returns without having written all nested modules" % (f.name, loc(f)))
    R.floor("tree writers", 1)


def recursive_self(db, f):
    return any(h == f.id for g in reach(db, f) for h in db.mentions(g))
