"""M19: which files belong to a project."""
from rules.pipe import *
from rules.p_cli import is_mabo
from rules.p_generators import facts_of

PROJECT = "mabo_project::Project"


def run(db, R):
    fs = [f for f in db.fns.values() if f.crate.name == "mabo_project" and f.kind == "Fn" and f.d.get("pub") and PROJECT in f.local_ty(0)["s"]]
    one = [f for f in fs if "Vec<" not in f.local_ty(0)["s"]]
    many = [f for f in fs if "Vec<" in f.local_ty(0)["s"]]
    for f in one:
        load(db, R, f)
    for f in many:
        discover(db, R, f)
    R.floor("loaders", 2)
    R.floor("walks", 1)
    R.floor("selections", 4)


def interp(db, R, f):
    I = A.Interp(db)
    R.saw(f)
    try:
        outs = I.run(f)
    except A.Unsupported as x:
        R.undec(f.name, str(x))
        return I, None
    for g in I.visited:
        if g.startswith("mabo_project"):
            R.saw(g)
    R.n("loaders")
    return I, outs


def load(db, R, f):
    I, outs = interp(db, R, f)
    if outs is None:
        return
    where = "%s (%s)" % (f.name, loc(f))
    surface(db, I, R, f.name, f, outs)
    base = I.arg_terms(f)[0]
    good = 0
    for o in outs:
        if not success(o):
            continue
        good += 1
        v = o.value[4][0]
        if v[0] != "adt":
            R.undec(f.name, "returns %s" % show(v)[:80])
            continue
        p = project(db, v)
        toml = T("call", "std::path::Path::join", (base, ("str", "Mabo.toml")))
        if strip_views(p["project_path"]) != toml and not same_path(p["project_path"], toml):
            R.v("load:path", "%s: the project file is given as %s" % (where, show(p["project_path"])[:80]))
        try:
            content(I, R, where, f.name, o.events, p, toml)
            files(I, R, where, f.name, o.events, p["files"], base, fld(fld(p["project_file"], "package"), "files"))
        except Undecided as x:
            R.undec(f.name, str(x))
    if not good:
        R.v("load:never", "%s: no path ends in success" % where)


def same_path(a, b):
    a, b = strip_views(a), strip_views(b)
    return is_t(a, "call") and is_t(b, "call") and str(a[2]).endswith("Path::join") and a[3][1] == b[3][1] and root_of(a[3][0]) == root_of(b[3][0])


def root_of(t):
    return strip_views(t)


def project(db, v):
    ad = db.adts[v[1]]
    return {f[0]: x for f, x in zip(db.variants(v[1])[0]["fields"], v[4])}


def content(I, R, where, key, events, p, toml):
    R.n("obligations")
    t = strip_views(p["project_file"])
    reads = [u for u in walk(t) if is_t(u, "call") and u[2] == "std::fs::read_to_string"]
    if not is_t(t, "fld") or not reads:
        raise Undecided("project file %s" % show(t)[:80])
    if not any(same_path(u[3][0], toml) for u in reads):
        R.v(key + ":read", "%s: reads the project description from %s" % (where, show(reads[0][3][0])[:80]))


def files(I, R, where, key, events, v, base, pats):
    """v: the list of files that a path returns."""
    v = strip_views(v)
    if v[0] != "vec":
        raise Undecided("files %s" % show(v)[:80])
    R.n("walks")
    matches = [e for e in flat(events) if e[0] == "cond" and is_t(e[1], "call") and str(e[1][2]).endswith("::is_match")]
    loop = None
    for i, e, alts, full in loops(I, events):
        if any(f[0] == "cond" and is_t(f[1], "call") and str(f[1][2]).endswith("::is_match") for a in alts for f in flat(a)):
            loop = (i, e, alts, full)
    if loop is None or not matches:
        if not any(e[0] == "loop" for e in events):
            R.v(key + ":unmatched", "%s: returns files without having compared any with the patterns" % where)
            return
        raise Undecided("no loop that matches files against the patterns")
    i, e, alts, full = loop
    if not full:
        raise Undecided("the walk ends early")
    walker(R, where, key, events[:i + 1], iterated(events, i), base)
    # every pattern takes part
    added = []
    for j, e2, al2, full2 in loops(I, events[:i]):
        it = iterated(events, j)
        for a in al2:
            for c in a:
                if c[0] == "call" and c[1].endswith("GlobSetBuilder::add"):
                    cov = covers(it, pats) if it is not None and full2 else None
                    every = all(any(x[0] == "call" and x[1].endswith("GlobSetBuilder::add") and mentions(x[2], elem(pats)) for x in b) for b in al2)
                    added.append(cov and every)
                    if not literal(c[2][1]):
                        R.v(key + ":separator", "%s: a `*` in a pattern matches across directories" % where)
                    names = {}
                    for u in walk(c[2][1]):
                        if is_t(u, "call") and "GlobBuilder::" in str(u[2]):
                            names[str(u[2]).rsplit("::", 1)[1]] = u[3]
                    for nm, args in names.items():
                        option(R, where, key, GLOB, set(), nm, args, "meaning of patterns")
                    if names and "empty_alternates" not in names:
                        R.v(key + ":option", "%s: alternatives of a pattern cannot be empty" % where)
    R.n("obligations")
    if not added:
        R.undec(key + ":patterns", "cannot tell which patterns are used")
    elif not any(added):
        if any(a is None for a in added):
            R.undec(key + ":patterns", "cannot tell whether all patterns are used")
        else:
            R.v(key + ":patterns", "%s: not every pattern of the project takes part in the matching" % where)
    for a in alts:
        R.n("selections")
        fs = facts_of(a)
        m = [(t, b) for t, b in fs if is_t(t, "call") and str(t[2]).endswith("::is_match")]
        ext = [b for t, b in fs if is_mabo(t) and isinstance(b, bool)]
        noext = any(is_t(t, "call") and str(t[2]).endswith("Path::extension") and b == "None" for t, b in fs)
        pushed = [x for d in I.altcarry.get((e[1], a), []) for k, x in d.items() if not is_t(k, "phi") and x]
        if pushed:
            if not any(b is True for t, b in m):
                R.v(key + ":unmatched", "%s: includes a file that matches none of the patterns" % where)
            if ext != [True]:
                R.v(key + ":extension", "%s: includes a file without the .mabo extension" % where)
            for t, b in m:
                rel = [u for u in walk(t[3][1]) if is_t(u, "call") and str(u[2]).endswith("strip_prefix")]
                if not rel:
                    R.v(key + ":relative", "%s: matches patterns against a path that is not relative to the project" % where)
                arg = strip_views(t[3][1])
                if rel and not (is_t(arg, "fld") and arg[2] in rel):
                    c = arg
                    while is_t(c, "fld"):
                        c = c[2]
                    if is_t(c, "call") and str(c[2]).startswith(("std::path::", "ignore::")):
                        R.v(key + ":relative", "%s: matches patterns against %s instead of the path relative to the project" % (where, show(arg)[:80]))
                    else:
                        R.undec(key + ":relative", show(arg)[:80])
                for u in rel:
                    if strip_views(u[3][1]) != strip_views(base):
                        R.v(key + ":relative", "%s: matches patterns against a path relative to %s" % (where, show(u[3][1])[:60]))
        elif (any(b is True for t, b in m) or not m) and (ext == [True] or (not ext and not noext)):
            R.v(key + ":missing", "%s: leaves out a .mabo file that matches a pattern" % where)


# what walks and patterns may be told without leaving out files (or matching others), and with which argument
WALK = {"new": None, "build": None, "follow_links": True, "same_file_system": None, "skip_stdout": None, "threads": None, "sort_by_file_name": None, "sort_by_file_path": None,
        "hidden": False, "ignore": False, "parents": False, "git_ignore": False, "git_global": False, "git_exclude": False, "standard_filters": False, "require_git": True,
        "max_depth": "None", "min_depth": "None", "max_filesize": "None"}
NARROW = {"max_depth", "min_depth", "max_filesize", "filter_entry", "follow_links", "add_custom_ignore_filename", "add_ignore", "overrides", "types"}
GLOB = {"new": None, "build": None, "literal_separator": True, "empty_alternates": True, "case_insensitive": False, "backslash_escape": None}


def is_bool(v):
    return True if v in (A.TRUE, ("int", 1)) else False if v in (A.FALSE, ("int", 0)) else None


def option(R, where, key, table, narrow, name, args, what):
    want = table.get(name, "?")
    if name not in table and name not in narrow:
        R.undec(key + ":option", "%s option %s" % (what, name))
    elif want is None:
        return
    elif name in narrow and want == "?":
        R.v(key + ":option", "%s: the %s is narrowed by `%s`" % (where, what, name))
    elif want == "None":
        if not (args and args[-1][0] == "adt" and args[-1][2] == 0 and args[-1][1] == A.OPTION):
            R.v(key + ":option", "%s: the %s is narrowed by `%s`" % (where, what, name))
    else:
        b = is_bool(args[-1]) if args else None
        if b is None:
            R.undec(key + ":option", "%s option %s(%s)" % (what, name, show(args[-1])[:40] if args else ""))
        elif b is not want:
            R.v(key + ":option", "%s: the %s is changed by `%s(%s)`" % (where, what, name, str(b).lower()))


def walker(R, where, key, events, it, base):
    """The walk starts at the project's directory and skips nothing by its options."""
    calls = [e for e in flat(events) if e[0] == "call" and e[1].startswith("ignore::walk::WalkBuilder::")]
    if not calls:
        if it is not None and any(is_t(u, "call") and str(u[2]) == "ignore::walk::Walk::new" for u in walk(it)):
            R.v(key + ":option", "%s: symbolic links are not followed" % where)
            return
        R.undec(key + ":walk", "no directory walk")
        return
    seen = set()
    for e in calls:
        n = e[1].rsplit("::", 1)[1]
        seen.add(n)
        R.n("obligations")
        option(R, where, key, WALK, NARROW, n, e[2], "search for files")
        if n == "new":
            if strip_views(e[2][0]) != strip_views(base):
                R.v(key + ":base", "%s: files are searched in %s instead of the project's directory" % (where, show(e[2][0])[:80]))
        if n == "add":
            R.undec(key + ":option", "further directories are searched")
    if "follow_links" not in seen:
        R.v(key + ":option", "%s: symbolic links are not followed" % where)


def literal(t):
    """Was `literal_separator(true)` the last setting of that kind on the glob?"""
    for u in walk(t):
        if is_t(u, "call") and str(u[2]).endswith("literal_separator"):
            return u[3][1] in (A.TRUE, ("int", 1))
    return not any(is_t(u, "call") and "GlobBuilder::new" in str(u[2]) or is_t(u, "call") and str(u[2]).endswith("Glob::new") for u in walk(t))


def discover(db, R, f):
    I, outs = interp(db, R, f)
    if outs is None:
        return
    where = "%s (%s)" % (f.name, loc(f))
    good = 0
    for o in outs:
        s = success(o)
        if s is None:
            R.undec(f.name, "returns %s" % show(o.value)[:80])
        if not s:
            continue
        good += 1
        try:
            for i, e, alts, full in loops(I, o.events):
                for a in alts:
                    m = [(t, b) for t, b in facts_of(a) if is_t(t, "call") and str(t[2]).endswith("::is_match") and not any(is_t(u, "call") and str(u[2]).endswith("strip_prefix") for u in walk(t))]
                    if not any(b is True for t, b in m):
                        continue
                    R.n("obligations")
                    path = strip_views(m[0][0][3][1])
                    if any(is_t(t, "call") and str(t[2]).endswith("Path::parent") and b == "None" for t, b in facts_of(a)):
                        continue
                    pats = [u[3][0] for u in walk(m[0][0]) if is_t(u, "call") and str(u[2]).endswith("GlobBuilder::new")]
                    if any(x[0] == "str" and x[1] != "**/Mabo.toml" for x in pats):
                        R.v("discover:pattern", "%s: project files are searched by the pattern %s" % (where, show(pats[0])))
                    for c in flat(a):
                        if c[0] == "call" and (c[1] == "ignore::walk::WalkBuilder::new" or c[1].endswith("Path::strip_prefix")):
                            d = strip_views(c[2][-1])
                            if not (is_t(d, "fld") and is_t(d[2], "call") and str(d[2][2]).endswith("Path::parent") and strip_views(d[2][3][0]) == path):
                                if any(strip_views(u) == path for u in walk(d)) or not mentions(d, elem(iterated(o.events, i) or A.UNIT)):
                                    R.v("discover:base", "%s: the files of a project are searched relative to %s instead of the directory of its Mabo.toml" % (where, show(d)[:80]))
                                else:
                                    R.undec("discover:base", show(d)[:80])
                    reads = [t for t, b in facts_of(a) if is_t(t, "call") and t[2] == "std::fs::read_to_string" and b == "Ok"]
                    if not any(strip_views(t[3][0]) == path for t in reads):
                        R.v("discover:skipped", "%s: a project file that was found is not loaded" % where)
                    for t in failures(I, a):
                        R.v("discover:swallowed", "%s: reports success although %s failed" % (where, show(t)[:120]))
        except Undecided as x:
            R.undec(f.name, str(x))
    if not good:
        R.v("discover:never", "%s: no path ends in success" % where)
