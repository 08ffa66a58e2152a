"""M18: the verdicts and effects of the `mabo` command line tool."""
from rules.pipe import *
from rules.p_generators import source, facts_of, reach, external, project_files, writers

FILES = "alloc::vec::Vec<std::path::PathBuf>"


def bin_fns(db):
    return [f for f in db.fns.values() if f.kind in ("Fn", "AssocFn") and f.id.startswith("mabo@bin::")]


def names_reached(db, f):
    r = reach(db, f)
    return {g.name for g in r} | {n for g in r for n in external(db, g)}


def run(db, R):
    ro = roles(db)
    fns = bin_fns(db)
    if len(ro) < len(ROLES) or not fns:
        R.undec("roles", "no unique function for %s" % sorted(set(ROLES) - set(ro)))
        return
    listing = [f for f in fns if FILES in f.local_ty(0)["s"]]
    cmds = {}
    for f in fns:
        n = [f.local_ty(i)["s"] for i in range(1, f.argc + 1)]
        for a in n:
            if a.split("::")[-1] in ("CheckArgs", "FmtArgs", "DocArgs") and "clap" not in f.name and f.kind == "Fn":
                cmds.setdefault(a.split("::")[-1], []).append(f)
    for k, what in (("CheckArgs", check), ("FmtArgs", fmt), ("DocArgs", doc)):
        l = cmds.get(k, [])
        l = [f for f in l if not any(f.id in db.mentions(g) for g in l if g is not f)]
        if len(l) != 1:
            R.undec(k, "%d functions take these arguments" % len(l))
            continue
        one(db, R, ro, l[0], listing, k, what)
    for f in listing:
        selection(db, R, ro, f)
    writers(db, R, "mabo")
    main(db, R, fns, [f for l in cmds.values() for f in l])
    R.floor("commands", 3)
    R.floor("selections", 1)
    R.floor("dispatches", 6)


def one(db, R, ro, f, listing, k, what):
    ids = {g.id for g in listing}
    I = A.Interp(db, opaque=lambda g: "@bin" not in g.id or g.id in ids)
    R.saw(f)
    try:
        outs = I.run(f)
    except A.Unsupported as x:
        R.undec(f.name, str(x))
        return
    for g in I.visited:
        R.saw(g)
    R.n("commands")
    surface(db, I, R, f.name, f, outs)
    good = 0
    for o in outs:
        if o.kind != "ret":
            continue
        s = success(o)
        good += bool(s)
        try:
            what(db, I, R, ro, f, o, s)
        except Undecided as x:
            R.undec(f.name, str(x))
    if not good:
        R.v(f.name + ":never", "%s (%s): no path reports success" % (f.name, loc(f)))


def files_of(t, ro):
    """The list of input files of which t is an element."""
    if is_t(t, "elem"):
        c = t[2]
        if project_files(t, ro) is not None:
            return c
        if is_t(c, "fld") and c[3:] == ("Ok", "0") and is_t(c[2], "call"):
            return c
    return None


def parses(events, ro):
    """{parse call: file} on a path, with where the text comes from."""
    out = {}
    for e in flat(events):
        if e[0] == "is" and is_t(e[1], "call") and e[1][2] == ro["parse"]:
            for u in walk(e[1][3][0]):
                if is_t(u, "call") and u[2] == "std::fs::read_to_string":
                    out[e[1]] = strip_views(u[3][0])
    return out


def caused(I, events):
    """Is there a failure (of anything) on the path, also one remembered by a loop?"""
    for e in events:
        if e[0] == "is" and (e[2] == "Err" or e[2] == "None"):
            return True
    for e in flat(events):
        if e[0] == "is" and e[2] == "Err" and fails(e[1]):
            return True
    return False


def check(db, I, R, ro, f, o, s):
    where = "%s (%s)" % (f.name, loc(f))
    if not s:
        R.n("obligations")
        if not caused(I, o.events):
            R.v("check:rejects", "%s: reports a failure although nothing failed" % where)
        return
    ps = parses(o.events, ro)
    files = set(ps.values())
    colls = {files_of(x, ro) for x in files}
    if len(colls) != 1 or None in colls:
        if files:
            R.undec("check:files", "files %s" % ", ".join(show(x)[:80] for x in files))
        elif any(e[0] == "loop" for e in o.events):
            R.v("check:parse", "%s: reports success without having parsed the files" % where)
        return
    coll = next(iter(colls))
    parsed = valid = False
    unsure = None
    res = {t for t, v in facts_of(o.events) if is_t(t, "call") and t[2] == ro["resolve"] and v == "Ok"}
    for i, e, alts, full in loops(I, o.events):
        it = iterated(o.events, i)
        c = covers(it, coll) if it is not None and full else None
        if not any(mentions(a, p) for a in alts for p in ps):
            continue
        if c is None:
            unsure = "a loop over %s" % (show(it)[:80] if it else "something unknown")
            continue
        if not c:
            continue
        R.n("obligations", 2)
        if all(any((p, "Ok") in facts_of(a) for p in ps) for a in alts):
            parsed = True
        if all(any(is_t(t, "call") and t[2] == ro["validate"] and v == "Ok" and strip_views(t[3][0]) in [fld(p, "Ok", "0") for p in ps] for t, v in facts_of(a)) for a in alts):
            valid = True
    if unsure and not (parsed and valid):
        raise Undecided(unsure)
    if not parsed:
        R.v("check:parse", "%s: reports success although not every file has been parsed successfully" % where)
    if not valid:
        R.v("check:validate", "%s: reports success although not every schema has passed validation" % where)
    R.n("obligations")
    if not res:
        R.v("check:resolve", "%s: reports success without (successful) type resolution" % where)
    for t in res:
        # schemas that failed before are missing in the list; those paths end in an error
        c = set_of(I, o, t[3][0], coll, ps)
        if c is None:
            R.undec("check:resolve", "cannot tell which schemas are resolved")
        elif c is False:
            R.v("check:resolve", "%s: not every schema takes part in type resolution" % where)


def set_of(I, o, arg, coll, ps):
    c = covers(arg, coll)
    if c or c is None:
        return c
    # iterations that left an element out must be ones that the path rules out
    good = [fld(p, "Ok", "0") for p in ps]
    for i, e, alts, full in loops(I, o.events):
        tab = {a: I.altcarry.get((e[1], a), []) for a in e[2]}
        keys = {k for l in tab.values() for d in l for k, v in d.items() if not is_t(k, "phi") and isinstance(v, tuple) and any(mentions(v, g) for g in good)}
        if any(all(any(mentions(d[k], g) for g in good) for a in alts for d in tab.get(a, [])) for k in keys):
            return True
    return False


def fmt(db, I, R, ro, f, o, s):
    where = "%s (%s)" % (f.name, loc(f))
    for known, w in writes(o.events):
        R.n("obligations")
        path, content = strip_views(w[2][0]), w[2][1]
        ps = parses(known, ro)
        shown = printed(content)
        if shown is None:
            raise Undecided("content %s" % show(content)[:80])
        p = shown[2] if is_t(shown, "fld") and shown[3:] == ("Ok", "0") else None
        if p is None or p not in ps:
            R.v("fmt:content", "%s: writes something else than the printed form of the schema that was read: %s" % (where, show(content)[:120]))
            continue
        if ps[p] != path:
            R.v("fmt:target", "%s: writes to %s what was read from %s" % (where, show(path)[:80], show(ps[p])[:80]))
        if (p, "Ok") not in facts_of(known):
            R.v("fmt:parsed", "%s: rewrites a file that didn't parse" % where)
    if not s:
        R.n("obligations")
        if not caused(I, o.events):
            R.v("fmt:rejects", "%s: reports a failure although nothing failed" % where)
        return
    seen = False
    for i, e, alts, full in loops(I, o.events):
        ps = {p: x for a in alts for p, x in parses(a, ro).items()}
        if not ps:
            continue
        it = iterated(o.events, i)
        colls = {files_of(x, ro) for x in ps.values()}
        c = covers(it, next(iter(colls))) if len(colls) == 1 and None not in colls and it is not None and full else None
        if c is None:
            raise Undecided("a loop over %s" % (show(it)[:80] if it else "something unknown"))
        if not c:
            R.v("fmt:files", "%s: doesn't visit every file" % where)
        seen = True
        for a in alts:
            R.n("obligations")
            if any(True for _ in writes(a)):
                continue
            if not any(unchanged(t, v, ps) for t, v in facts_of(a)):
                R.v("fmt:unwritten", "%s: leaves a file as it is although its text differs from the printed form of its schema" % where)
    if not seen and any(e[0] == "loop" for e in o.events):
        R.v("fmt:files", "%s: reports success without having parsed the files" % where)


def printed(t):
    """The schema whose printed form (Display) the text is."""
    t = strip_one(t)
    if t[0] == "sbuf" and len(t[1]) == 1 and t[1][0][0] == "ph" and t[1][0][1] == "display":
        return strip_views(t[1][0][2])
    if is_t(t, "call") and isinstance(t[2], str) and t[2].endswith("::to_string") and len(t[3]) == 1:
        return strip_views(t[3][0])
    return None


def strip_one(t):
    while is_t(t, "call") and isinstance(t[2], str) and t[2].rsplit("::", 1)[-1] in ("as_str", "as_bytes", "as_ref", "deref", "borrow", "into_bytes", "clone"):
        t = t[3][0]
    return t


def unchanged(t, v, ps):
    """A comparison that found the text of the file equal to the printed form."""
    if not (is_t(t, "call") or is_t(t)):
        return False
    reads = {u for p in ps for u in walk(p[3][0]) if is_t(u, "call") and u[2] == "std::fs::read_to_string"}
    if t[1] in ("eq", "ne") or (is_t(t, "call") and str(t[2]).rsplit("::", 1)[-1] in ("eq", "ne")):
        eq = (t[1] == "eq" or str(t[2]).endswith("eq")) == (v is True)
        ops = list(t[3]) if is_t(t, "call") else list(t[2:])
        texts = [strip_views(strip_one(x)) for x in ops if isinstance(x, tuple)]
        return eq and len(texts) == 2 and any(x == fld(r, "Ok", "0") for x in texts for r in reads) and any(printed(x) is not None for x in texts)
    return False


def doc(db, I, R, ro, f, o, s):
    where = "%s (%s)" % (f.name, loc(f))
    for known, w in writes(o.events):
        R.n("obligations")
        src = source(w[2][1], ro)
        if src is None:
            if any(is_t(v, "call") and v[2].endswith("write_doc_output") for v in walk(w[2][1])):
                continue
            R.v("doc:source", "%s: writes documentation that is not rendered from a parsed schema" % where)
            continue
        if (src[1], "Ok") not in facts_of(known):
            R.v("doc:parsed", "%s: writes documentation of a schema that didn't parse" % where)
        if not any(is_t(v, "call") and False for v in ()) and not mentions(w[2][0], fld(T("arg", "args"), "out_dir")) and not any(is_t(v, "fld") and v[3] == "out_dir" for v in walk(w[2][0])):
            R.v("doc:place", "%s: writes outside of the output directory: %s" % (where, show(w[2][0])[:120]))
    if not s:
        R.n("obligations")
        if not caused(I, o.events):
            R.v("doc:rejects", "%s: reports a failure although nothing failed" % where)
        return
    ok = False
    for i, e, alts, full in loops(I, o.events):
        srcs = [[source(w[2][1], ro) for _, w in writes(a)] for a in alts]
        files = {x[2] for l in srcs for x in l if x}
        if not files:
            continue
        it = iterated(o.events, i)
        coll = project_files(next(iter(files)), ro)
        c = covers(it, coll) if coll is not None and it is not None and full else None
        if c is None:
            raise Undecided("a loop over %s" % (show(it)[:80] if it else "something unknown"))
        ok = ok or (c and all(any(l) for l in srcs))
    if not ok:
        R.v("doc:every", "%s: reports success without having written the documentation of every project file" % where)


def selection(db, R, ro, f):
    """The input files: those of the project, or everything with the .mabo extension that matches one of the patterns."""
    where = "%s (%s)" % (f.name, loc(f))
    I = A.Interp(db, opaque=lambda g: "@bin" not in g.id)
    R.saw(f)
    try:
        outs = I.run(f)
    except A.Unsupported as x:
        R.undec("selection", str(x))
        return
    R.n("selections")
    surface(db, I, R, f.name, f, outs)
    pats = None
    for i in range(f.argc):
        if "Vec<alloc::string::String>" in f.local_ty(i + 1)["s"]:
            pats = I.arg_terms(f)[i]
    for o in outs:
        if not success(o):
            continue
        R.n("obligations")
        v = o.value[4][0]
        if project_files(elem(v), ro) is not None:
            if pats is not None and not any(mentions(e[1], pats) for e in o.events if e[0] in ("cond", "is")):
                R.v("selection:patterns", "%s: file patterns are disregarded" % where)
            continue
        if v[0] != "vec" or len(v[1]) != 1 or v[1][0][0] != "rep":
            R.undec("selection", "returns %s" % show(v)[:120])
            continue
        for e in flat(o.events):
            if e[0] != "loop" or e[1] == "iter":
                continue
            for a in e[2]:
                fs = facts_of(a)
                ext = [b for t, b in fs if is_mabo(t) and isinstance(b, bool)]
                if not ext and not any(is_t(t, "call") and t[2].endswith("Path::extension") and b == "None" for t, b in fs):
                    continue
                want = ext == [True]
                for d in I.altcarry.get((e[1], a), []):
                    accs = [x for k, x in d.items() if not is_t(k, "phi")]
                    R.n("obligations")
                    got = any(x for x in accs)
                    if got and not want:
                        R.v("selection:extension", "%s: selects a file without the .mabo extension" % where)
                    elif want and not got:
                        R.v("selection:dropped", "%s: leaves out a .mabo file that matches a pattern" % where)


def is_mabo(t):
    return (is_t(t, "eq") or (is_t(t, "call") and str(t[2]).endswith("::eq"))) and any(x == ("str", "mabo") for x in walk(t)) \
        and any(is_t(x, "call") and str(x[2]).endswith("Path::extension") for x in walk(t))


def main(db, R, fns, cmds):
    """`main` runs the function of the chosen command and turns its error into a failure exit status."""
    f = next((f for f in fns if f.name == "mabo::main"), None)
    if f is None:
        R.undec("main", "not found")
        return
    ids = {c.id for c in cmds}
    I = A.Interp(db, opaque=lambda g: g.id in ids or "@bin" not in g.id)
    R.saw(f)
    try:
        outs = I.run(f)
    except A.Unsupported as x:
        R.undec("main", str(x))
        return
    want = {"Check": "CheckArgs", "Fmt": "FmtArgs", "Doc": "DocArgs"}
    for o in outs:
        if o.kind != "ret":
            continue
        s = success(o)
        if s is None:
            R.undec("main", "exit status %s" % show(o.value)[:80])
            continue
        chosen = [e[2] for e in o.events if e[0] == "is" and e[2] in want]
        calls = [e for e in o.events if e[0] == "call" and any(e[1] == c.name for c in cmds)]
        for c in chosen:
            R.n("dispatches")
            g = [x for x in cmds if any(x.local_ty(i)["s"].endswith(want[c]) for i in range(1, x.argc + 1))]
            if not any(e[1] == x.name for e in calls for x in g):
                R.v("main:dispatch", "%s (%s): `%s` doesn't run %s" % (f.name, loc(f), c.lower(), ", ".join(x.name for x in g)))
        failed = [e for e in o.events if e[0] == "is" and e[2] == "Err" and fails(e[1])]
        if bool(failed) == s:
            R.v("main:status", "%s (%s): the exit status is %s although the command %s" % (f.name, loc(f), "success" if s else "failure", "failed" if failed else "succeeded"))
        for e in calls:
            if e[3] not in {x[1] for x in o.events if x[0] == "is"}:
                R.v("main:status", "%s (%s): the result of %s is disregarded" % (f.name, loc(f), e[1]))
