"""M36: the diagnostic of an error shows what the error holds: each place with a label of its own, every name and number, and the error that it wraps."""
import re
import absint as A
from absint import T, is_t, show
from rules.common import loc
from rules.lsp import LspInterp

CRATES = ("mabo_parser", "mabo_compiler")

SHOWN = ("labels", "related", "code", "help", "source_code", "diagnostic_source")


def mentions(v, x):
    return v == x or isinstance(v, tuple) and any(mentions(w, x) for w in v)


def fields_in(v, fs):
    return [n for n, x in fs if mentions(v, x)]


class Err:
    """one kind of error: a type of diagnostic, or a variant of one"""

    def __init__(self, db, crate, name, idx, errors):
        var = db.variants(name)[idx]
        self.db, self.crate, self.name = db, crate, name
        self.label = name.split("::", 1)[1] + ("" if var["name"] == name.split("::")[-1] else "::" + var["name"])
        self.value = ("adt", name, idx, var["name"], tuple(T("arg", "F." + f[0]) for f in var["fields"]))
        self.fields, self.places, self.inner, self.files = [], [], [], []
        for f, x in zip(var["fields"], self.value[4]):
            t = crate.ty(f[1])["s"]
            self.fields.append((f[0], x))
            bare = re.sub(r"^(alloc|std)::boxed::Box<(.*)>$", r"\2", t)
            bare = re.sub(r"^\[(.*); 1(_usize)?\]$", r"\1", bare)
            if bare in errors:
                self.inner.append((f[0], x))
            elif "NamedSource" in t:
                self.files.append((f[0], x))
            elif "ops::Range<usize>" in t or "ops::range::Range<usize>" in t:
                self.places.append((f[0], x))
            elif t == "usize" and f[0] == "at":
                self.places.append((f[0], x))
        skip = self.inner + self.files + self.places
        self.facts = [(n, x) for n, x in self.fields if (n, x) not in skip]


class Outer(Exception):
    pass


def interp(db):
    def to_option(I, fr, st, args, m, site, stack, tys):
        return A.some(args[-1])

    def span(I, fr, st, args, m, site, stack, tys):
        return T("label", I.deref_read(st, args[0]), I.deref_read(st, args[1]))
    I = LspInterp(db)
    own = I.models
    for n in ("miette::macro_helpers::ToOption::to_option", "miette::macro_helpers::OptionalWrapper::to_option"):
        own[n] = to_option
    for n in ("miette::LabeledSpan::new_with_span", "miette::protocol::LabeledSpan::new_with_span", "miette::LabeledSpan::new_primary_with_span", "miette::protocol::LabeledSpan::new_primary_with_span"):
        own[n] = span
    return I


def ask(db, R, f, e):
    """[(value, what is written to the formatter)] of a method of the diagnostic"""
    R.saw(f)
    I = interp(db)
    args = [e.value] + [T("arg", "fm")] * (f.argc - 1)
    out = []
    for o in I.call_fn(f, args, A.State(), ()):
        if o.kind != "ret":
            raise Outer("%s panics" % f.item)
        out.append((I.deref_read(o.st, o.value), events(o.st.events)))
    return out


def events(ev):
    out = []
    while ev:
        if len(ev) == 2 and (ev[0] is None or isinstance(ev[0], tuple)) and isinstance(ev[1], tuple):
            out.append(ev[1])
            ev = ev[0]
        else:
            out += list(ev)
            break
    return [x for x in reversed(out) if x]


def pieces(ev):
    """the text that is written: literal strings and shown values"""
    out = []
    for x in ev:
        if x and x[0] == "emit":
            out += [(p[0], p[-1]) for p in x[2]]
    return out


def text(v):
    if v[0] == "str":
        return [("lit", v[1])]
    if v[0] == "sbuf":
        return [(p[0], p[-1]) for p in v[1]]
    return [("ph", v)]


def words(ps):
    return " ".join(p[1] for p in ps if p[0] == "lit")


def labels_of(v):
    """[(text, span)] or None where it isn't a list of labels"""
    if v[0] == "adt" and v[3] == "None":
        return []
    if not (v[0] == "adt" and v[3] == "Some"):
        return None
    v = v[4][0]
    while v[0] in ("box", "ref"):
        v = v[1]
    if v[0] != "iter" or v[1][0] not in ("vec", "arr"):
        return None
    b = v[1]
    while b[0] == "arr":
        b = b[1]
    if b[0] not in ("vec", "tuple", "list"):
        return None
    out = []
    for x in b[1]:
        if x[0] == "adt" and x[3] == "None":
            continue
        if x[0] == "adt" and x[3] == "Some":
            x = x[4][0]
        if not is_t(x, "label"):
            return None
        t = x[2]
        out.append(([] if t[0] == "adt" and t[3] == "None" else text(t[4][0]) if t[0] == "adt" else [("ph", t)], x[3]))
    return out


# words that a message uses for a case
SAYS = {"Empty": ("zero", "empty", "no element"), "Single": ("single", "one element"), "TooLarge": ("more", "large", "many")}


def chosen(outs, e):
    """(fact, {case: message}) where the message is chosen by the case of one fact of the error"""
    per, who = {}, set()
    for v, ev in outs:
        cs = [x for x in ev if x[0] == "is" and fields_in(x[1], e.facts)]
        if len(cs) != 1:
            return None
        who.add(fields_in(cs[0][1], e.facts)[0])
        said = []
        for x in ev:
            said += [t for t in flat(x) if isinstance(t, str) and " " in t and "::" not in t]
        if cs[0][2] in per:
            return None
        per[cs[0][2]] = " / ".join(said)
    return (who.pop(), per) if len(who) == 1 else None


def flat(v):
    if isinstance(v, tuple):
        for x in v:
            yield from flat(x)
    else:
        yield v


def judge(db, R, e, fns):
    got, told = {}, set()
    for k in SHOWN + ("fmt", "source"):
        if k in fns:
            got[k] = ask(db, R, fns[k], e)
            if k == "fmt" and len(got[k]) > 1 and chosen(got[k], e):
                n, per = chosen(got[k], e)
                R.n("cases of facts", len(per))
                for v, w in sorted(per.items()):
                    own = SAYS.get(v, (v.lower(),))
                    others = [x for u in per if u != v for x in SAYS.get(u, (u.lower(),))]
                    if any(x in w for x in others) and not any(x in w for x in own):
                        R.v("%s:fmt:%s:%s" % (e.label, n, v), "%s (%s): the message of %s for the %s %s says %r" % (fns[k].name, loc(fns[k]), e.label, n, v, w))
                if len(set(per.values())) < len(per):
                    R.v("%s:fmt:%s" % (e.label, n), "%s (%s): the message of %s is the same for two kinds of %s" % (fns[k].name, loc(fns[k]), e.label, n))
                told.add(n)
                got[k] = got[k][:1]
            elif len(got[k]) != 1:
                raise Outer("%s of %s depends on %s" % (k, e.label, "more than the kind of error"))
    fn = fns.get("labels") or fns["fmt"]

    def bad(key, msg):
        R.v("%s:%s" % (e.label, key), "%s (%s): %s" % (fns.get(key.split(":")[0], fn).name, loc(fns.get(key.split(":")[0], fn)), msg))
    R.n("kinds of errors")
    shown = []          # everything that a reader sees of the error itself
    if "fmt" in got:
        v, ev = got["fmt"][0]
        msg = pieces(ev)
        shown += msg
        forwarded = fields_in(v, e.fields)
        if not msg and not forwarded:
            bad("fmt", "%s has no message" % e.label)
        if forwarded and not all(n in dict(e.inner) or n == "cause" for n in forwarded):
            bad("fmt", "%s has the message of %s" % (e.label, ", ".join(forwarded)))
        R.n("messages")
        # in the order of the sentence: this one, the other one
        names = [n for p in msg if p[0] == "ph" for n in fields_in(p[1], e.fields)]
        for n in names:
            if "other_" + n in names and names.index(n) > names.index("other_" + n):
                bad("fmt:order", "the message of %s shows other_%s in the place of %s" % (e.label, n, n))
        if "name" in names and "path" in names and names.index("path") < names.index("name"):
            bad("fmt:order", "the message of %s shows its path in the place of its name" % e.label)
        for (n, w) in (("definition", "defin"), ("usage", "use")):
            for i, p in enumerate(msg):
                if p[0] == "ph" and fields_in(p[1], e.fields) == [n]:
                    before = [m[1] for m in msg[:i] if m[0] == "lit"]
                    if before and w not in before[-1] and not any(w in b for b in [m[1] for m in msg[i + 1:i + 2] if m[0] == "lit"]):
                        bad("fmt:side", "the message of %s shows %s as the number of the other side" % (e.label, n))
    if "help" in got:
        v = got["help"][0][0]
        if v[0] == "adt" and v[3] == "Some":
            shown += text(v[4][0])
    ls = None
    if "labels" in got:
        v = got["labels"][0][0]
        if v[0] == "adt" and v[3] == "Some" and e.inner and any(mentions(v, x) for _, x in e.inner):
            if re.search(r"\b(filter|take|skip|take_while|skip_while|step_by|filter_map|nth)\b", show(v)) or "'filter'" in str(v) or "'take" in str(v) or "'skip" in str(v):
                bad("labels:some", "%s shows only some of the labels of the error inside: %s" % (e.label, show(v)[:100]))
        ls = labels_of(v)
        if ls is None and not is_t(v) and v[0] != "adt":
            raise Outer("labels of %s: %s" % (e.label, show(v)[:80]))
    if ls is not None:
        for t, s in ls:
            R.n("labels")
            shown += t
            at = fields_in(s, e.places)
            if len(at) != 1 or fields_in(s, e.fields) != at:
                bad("labels:span", "a label of %s is at %s, not at one of the places of the error" % (e.label, show(s)))
            elif s != dict(e.places)[at[0]] and not plainly(s, dict(e.places)[at[0]]):
                bad("labels:at", "a label of %s is at %s instead of %s" % (e.label, show(s), at[0]))
            elif len(e.places) > 1:
                w = words(t).lower()
                if at[0] in ("first", "declared") and ("again" in w or "used" in w and "declared" not in w) or at[0] in ("second", "used") and "declared" in w and "used" not in w:
                    bad("labels:words", "the label at %s of %s says %r" % (at[0], e.label, words(t)))
        for n, x in e.places:
            R.n("places")
            if not any(mentions(s, x) for _, s in ls) and not any(p[0] == "ph" and mentions(p[1], x) for p in shown):
                bad("labels:" + n, "no label of %s is at its place %s" % (e.label, n))
    for n, x in e.facts:
        for p in shown:
            if p[0] == "ph" and mentions(p[1], x) and changed(p[1], x):
                bad("fmt:changed:" + n, "%s shows %s instead of its %s" % (e.label, show(p[1])[:80], n))
    for n, x in e.facts:
        R.n("facts")
        if n not in told and not any(p[0] == "ph" and mentions(p[1], x) for p in shown):
            bad("fmt:" + n, "neither the message nor the help of %s shows its %s" % (e.label, n))
    # the error inside
    if e.inner:
        R.n("wrapped errors")
        n, x = e.inner[-1]
        part = [k for k in ("related", "diagnostic_source") if k in got and mentions(got[k][0][0], x) and not is_t(got[k][0][0])]
        whole = [k for k in ("labels", "code", "help", "related") if k in got and is_t(got[k][0][0]) and mentions(got[k][0][0], x)]
        if not part and set(whole) < {"labels", "help"}:
            bad("related", "the diagnostic of %s doesn't show its %s: neither as related nor by its labels and help" % (e.label, n))
        for k in ("labels", "code", "help", "related", "source_code"):
            if k in got and is_t(got[k][0][0]) and whole:
                v = got[k][0][0]
                R.n("forwarded parts")
                if not mentions(v, x):
                    bad(k + ":other", "%s of %s isn't that of its %s" % (k, e.label, n))
                elif v[1] == "call" and not v[2].rsplit("::", 1)[-1] == k:
                    bad(k + ":method", "%s of %s is %s of its %s" % (k, e.label, v[2].rsplit("::", 1)[-1], n))
    for n, x in e.files:
        R.n("files")
        if "source_code" not in got or not mentions(got["source_code"][0][0], x):
            bad("source_code", "the diagnostic of %s doesn't give its text, %s" % (e.label, n))


def changed(v, x):
    """whether a value is computed from a fact, not just the fact"""
    while v != x:
        if is_t(v, "call") and re.search(r"::(min|max|clamp|saturating_\w+|wrapping_\w+|checked_\w+|to_(upper|lower)case|trim\w*|split\w*)$", v[2]):
            return True
        if is_t(v) and v[1] in ("bin", "add", "sub", "mul", "rem", "neg", "min", "max", "saturating_sub", "saturating_add"):
            return True
        nx = [y for y in flat1(v) if mentions(y, x)]
        if not nx:
            return False
        v = nx[0]
    return False


def flat1(v):
    """parts of a term that are terms"""
    for y in v:
        if isinstance(y, tuple) and y and isinstance(y[0], str):
            yield y
        elif isinstance(y, tuple):
            yield from (z for z in y if isinstance(z, tuple))


def plainly(s, x):
    """the place itself, or the empty range at it"""
    if s[0] == "adt" and len(s[4]) == 2:
        return all(y == x or is_t(y, "fld") and y[2] == x for y in s[4])
    return s[0] in ("ref", "tuple", "t") and s[-1] == x and not (is_t(s) and s[1] in ("bin", "add", "sub"))


def marks(db, R):
    """what emphasizes a part of a message shows that part, whatever the terminal is like"""
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if f.crate.name not in CRATES or "::highlight::" not in f.name or f.kind != "Fn" or not f.argc or not f.local_ty(0)["s"].endswith("String"):
            continue
        R.saw(f)
        I = interp(db)
        I.opaque = lambda g: g.crate.name not in CRATES or g.local_ty(0)["s"] == "bool"
        x = T("arg", "value")
        try:
            for o in I.call_fn(f, [x] + [T("arg", "p%d" % i) for i in range(f.argc - 1)], A.State(), ()):
                R.n("emphasized parts")
                ps = text(I.deref_read(o.st, o.value)) if o.kind == "ret" else []
                hit = [p[1] for p in ps if p[0] == "ph" and mentions(p[1], x)]
                if len(hit) != 1 or changed(hit[0], x):
                    R.v("highlight:" + f.item, "%s (%s): %s is written for a part of a message" % (f.name, loc(f), show(o.value)[:120]))
        except (A.Unsupported, KeyError, IndexError, TypeError) as e:
            R.undec(f.name, "%s: %s" % (type(e).__name__, str(e)[:120]))


def run(db, R):
    by = {}
    for f in db.fns.values():
        tr = f.trait or ""
        if f.crate.name not in CRATES or not f.self_s:
            continue
        if tr.endswith("::Diagnostic") and f.item in SHOWN:
            by.setdefault(f.self_s, {})[f.item] = f
    for f in db.fns.values():
        tr = f.trait or ""
        if f.self_s in by and (tr.endswith("fmt::Display") and f.item == "fmt" or tr.endswith("error::Error") and f.item == "source"):
            by[f.self_s][f.item] = f
    n = 0
    for name in sorted(by):
        vs = db.variants(name)
        fns = by[name]
        crate = next(iter(fns.values())).crate
        if not vs:
            R.undec(name, "no such type")
            continue
        for i in range(len(vs)):
            n += 1
            try:
                judge(db, R, Err(db, crate, name, i, by), fns)
            except (A.Unsupported, Outer, KeyError, IndexError, TypeError) as x:
                R.undec(name, "%s: %s" % (type(x).__name__, str(x)[:160]))
    marks(db, R)
    R.floor("kinds of errors", 100)
