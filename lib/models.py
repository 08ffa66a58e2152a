"""Models of library functions for the abstract interpreter (see absint.py)."""
import zlib
import absint as A
from absint import T, Outcome, some, NONE, ok, err, UNIT, TRUE, FALSE, is_t

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ret(v, st):
    return Outcome("ret", v, st)


def ident(I, fr, st, args, m, site, stack, tys):
    return I.deref_read(st, args[0]) if args else UNIT


for n in """core::clone::Clone::clone core::ops::deref::Deref::deref alloc::borrow::ToOwned::to_owned
core::convert::AsRef::as_ref core::borrow::Borrow::borrow alloc::string::String::as_str alloc::vec::Vec::as_slice
core::hint::must_use core::option::Option::as_deref core::option::Option::as_ref core::option::Option::cloned
core::option::Option::copied core::result::Result::as_ref core::result::Result::as_deref alloc::boxed::Box::new
alloc::rc::Rc::new alloc::sync::Arc::new alloc::vec::Vec::into_boxed_slice alloc::string::String::into_boxed_str
alloc::string::String::into_bytes core::str::<impl str>::as_bytes alloc::string::String::as_bytes
alloc::borrow::Cow::into_owned core::convert::identity alloc::slice::<impl [T]>::to_vec alloc::slice::<impl [T]>::into_vec
alloc::str::<impl str>::to_owned core::mem::ManuallyDrop::new
core::hint::black_box alloc::boxed::Box::leak core::array::<impl [T; N]>::as_slice
alloc::boxed::Box::into_inner core::pin::Pin::new""".split():
    MODELS[n] = ident


def mutident(I, fr, st, args, m, site, stack, tys):
    return args[0]


for n in """core::ops::deref::DerefMut::deref_mut core::convert::AsMut::as_mut core::borrow::BorrowMut::borrow_mut
core::iter::traits::iterator::Iterator::by_ref alloc::vec::Vec::as_mut_slice alloc::boxed::Box::as_mut""".split():
    MODELS[n] = mutident


# ---- enum splitting helpers -------------------------------------------------
def split(I, st, v, adt):
    """Yields (state, variant index, payload or None) for an Option/Result-like value."""
    v = I.deref_read(st, v)
    if v[0] == "adt":
        yield st, v[2], (v[4][0] if v[4] else None)
        return
    vs = I.db.variants(adt)
    cur = st.refine.get(v)
    for i, x in enumerate(vs):
        s = st.fork()
        if I.refine_to(s, v, adt, i):
            if x["fields"]:
                t = T("fld", v, x["name"], x["fields"][0][0])
                yield s, i, s.omem.get(t, t)
            else:
                yield s, i, None


def adt_of_value(I, v, default):
    return v[1] if v[0] == "adt" else default


@model("core::ops::try_trait::Try::branch")
def branch(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    ty = None
    if tys and tys[0]:
        ty = tys[0]
    elif m.get("args"):
        ty = fr.fn.crate.ty(m["args"][0])
    adt = v[1] if v[0] == "adt" else (ty["adt"] if ty and ty["k"] == "adt" else A.RESULT)
    outs = []
    for s, i, p in split(I, st, v, adt):
        if adt == A.OPTION:
            if i == 1:
                outs.append(ret(("adt", A.CFLOW, 0, "Continue", (p,)), s))
            else:
                outs.append(ret(("adt", A.CFLOW, 1, "Break", (NONE,)), s))
        elif adt == A.CFLOW:
            if i == 0:
                outs.append(ret(("adt", A.CFLOW, 0, "Continue", (p,)), s))
            else:
                outs.append(ret(("adt", A.CFLOW, 1, "Break", (("adt", A.CFLOW, 1, "Break", (p,)),)), s))
        else:
            if i == 0:
                outs.append(ret(("adt", A.CFLOW, 0, "Continue", (p,)), s))
            else:
                outs.append(ret(("adt", A.CFLOW, 1, "Break", (err(p),)), s))
    return outs


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    if v[0] == "adt" and v[3] == "Err":
        # conversion of the error type through From
        return err(T("from", v[4][0]) if v[4][0][0] != "adt" or True else v[4][0])
    return v


@model("core::ops::try_trait::Try::from_output")
def from_output(I, fr, st, args, m, site, stack, tys):
    return ok(args[0])


def through(kind, on, wrap=None, other=None):
    """Combinator: applies args[1] on payload of variant `on`."""
    def h(I, fr, st, args, m, site, stack, tys):
        adt = A.OPTION if kind == "o" else A.RESULT
        outs = []
        for s, i, p in split(I, st, args[0], adt):
            if i == on:
                for o in I.call_value(fr, s, args[1], [p] if p is not None else [], site, stack):
                    if o.kind == "ret":
                        o.value = wrap(o.value) if wrap else o.value
                    outs.append(o)
            else:
                outs.append(ret(other(p), s))
        return outs
    return h


def ctx_wrap(I, fr, st, args, m, site, stack, tys):
    """anyhow/miette `context`: success stays as it is, failure (or absence) becomes an error."""
    v = I.deref_read(st, args[0])
    ty = tys[0] if tys and tys[0] else fr.fn.crate.ty(m["args"][0]) if m.get("args") else None
    adt = v[1] if v[0] == "adt" else (ty["adt"] if ty and ty["k"] == "adt" else A.RESULT)
    if adt not in (A.OPTION, A.RESULT):
        return NotImplemented
    outs = []
    for s, i, p in split(I, st, v, adt):
        good = i == (1 if adt == A.OPTION else 0)
        outs.append(ret(ok(p) if good else err(T("context", p if p is not None else NONE)), s))
    return outs


for _n in ("anyhow::Context::context", "anyhow::Context::with_context", "miette::eyreish::WrapErr::wrap_err", "miette::eyreish::WrapErr::wrap_err_with",
           "miette::eyreish::WrapErr::context", "miette::eyreish::WrapErr::with_context"):
    MODELS[_n] = ctx_wrap
MODELS["anyhow::__private::not"] = lambda I, fr, st, args, m, site, stack, tys: I.neg(I.deref_read(st, args[0]))
MODELS["core::option::Option::map"] = through("o", 1, some, lambda p: NONE)
MODELS["core::option::Option::and_then"] = through("o", 1, None, lambda p: NONE)
MODELS["core::option::Option::or_else"] = through("o", 0, None, some)
MODELS["core::option::Option::ok_or_else"] = through("o", 0, err, ok)
MODELS["core::option::Option::unwrap_or_else"] = through("o", 0, None, lambda p: p)
MODELS["core::option::Option::is_some_and"] = through("o", 1, None, lambda p: FALSE)
MODELS["core::option::Option::is_none_or"] = through("o", 1, None, lambda p: TRUE)
MODELS["core::option::Option::inspect"] = through("o", 1, None, lambda p: NONE)
MODELS["core::result::Result::map"] = through("r", 0, ok, err)
MODELS["core::result::Result::map_err"] = through("r", 1, err, ok)
MODELS["core::result::Result::and_then"] = through("r", 0, None, err)
MODELS["core::result::Result::or_else"] = through("r", 1, None, ok)
MODELS["core::result::Result::unwrap_or_else"] = through("r", 1, None, lambda p: p)
MODELS["core::result::Result::is_ok_and"] = through("r", 0, None, lambda p: FALSE)
MODELS["core::result::Result::is_err_and"] = through("r", 1, None, lambda p: FALSE)


def inspector(kind, on):
    def h(I, fr, st, args, m, site, stack, tys):
        adt = A.OPTION if kind == "o" else A.RESULT
        v = I.deref_read(st, args[0])
        outs = []
        for s, i, p in split(I, st, v, adt):
            if i == on:
                for o in I.call_value(fr, s, args[1], [p], site, stack):
                    if o.kind == "ret":
                        o.value = v if v[0] == "adt" else v
                    outs.append(o)
            else:
                outs.append(ret(v, s))
        return outs
    return h


MODELS["core::option::Option::inspect"] = inspector("o", 1)
MODELS["core::result::Result::inspect"] = inspector("r", 0)
MODELS["core::result::Result::inspect_err"] = inspector("r", 1)


@model("core::option::Option::filter")
def opt_filter(I, fr, st, args, m, site, stack, tys):
    outs = []
    for s, i, p in split(I, st, args[0], A.OPTION):
        if i == 0:
            outs.append(ret(NONE, s))
            continue
        for o in I.call_value(fr, s, args[1], [p], site, stack):
            if o.kind != "ret":
                outs.append(o)
                continue
            for val in (True, False):
                s2 = o.st.fork()
                if I.assume(s2, o.value, val):
                    outs.append(ret(some(p) if val else NONE, s2))
    return outs


def simple(kind, f):
    def h(I, fr, st, args, m, site, stack, tys):
        adt = A.OPTION if kind == "o" else A.RESULT
        return [ret(f(i, p, args), s) for s, i, p in split(I, st, args[0], adt)]
    return h


MODELS["core::option::Option::ok_or"] = simple("o", lambda i, p, a: ok(p) if i == 1 else err(a[1]))
MODELS["core::option::Option::unwrap_or"] = simple("o", lambda i, p, a: p if i == 1 else a[1])
MODELS["core::option::Option::or"] = simple("o", lambda i, p, a: some(p) if i == 1 else a[1])
MODELS["core::option::Option::and"] = simple("o", lambda i, p, a: a[1] if i == 1 else NONE)
MODELS["core::option::Option::unwrap_or_default"] = simple("o", lambda i, p, a: p if i == 1 else T("default"))
MODELS["core::result::Result::unwrap_or"] = simple("r", lambda i, p, a: p if i == 0 else a[1])
MODELS["core::result::Result::unwrap_or_default"] = simple("r", lambda i, p, a: p if i == 0 else T("default"))
MODELS["core::result::Result::ok"] = simple("r", lambda i, p, a: some(p) if i == 0 else NONE)
MODELS["core::result::Result::err"] = simple("r", lambda i, p, a: some(p) if i == 1 else NONE)
MODELS["core::option::Option::flatten"] = simple("o", lambda i, p, a: p if i == 1 else NONE)
@model("core::option::Option::zip")
def opt_zip(I, fr, st, args, m, site, stack, tys):
    outs = []
    for s, i, p in split(I, st, args[0], A.OPTION):
        if i == 0:
            outs.append(ret(NONE, s))
            continue
        for s2, j, q in split(I, s, args[1], A.OPTION):
            outs.append(ret(some(("tup", (p, q))) if j == 1 else NONE, s2))
    return outs


MODELS["core::option::Option::unzip"] = simple("o", lambda i, p, a: ("tup", (some(p[1][0]), some(p[1][1]))) if i == 1 and p[0] == "tup" else ("tup", (NONE, NONE)))


def is_variant(kind, idx):
    def h(I, fr, st, args, m, site, stack, tys):
        adt = A.OPTION if kind == "o" else A.RESULT
        v = I.deref_read(st, args[0])
        if v[0] == "adt":
            return ("int", int(v[2] == idx))
        cur = st.refine.get(v)
        if isinstance(cur, int):
            return ("int", int(cur == idx))
        return T("isvar", v, adt, idx)
    return h


MODELS["core::option::Option::is_some"] = is_variant("o", 1)
MODELS["core::option::Option::is_none"] = is_variant("o", 0)
MODELS["core::result::Result::is_ok"] = is_variant("r", 0)
MODELS["core::result::Result::is_err"] = is_variant("r", 1)


def unwrapper(kind, good):
    def h(I, fr, st, args, m, site, stack, tys):
        adt = A.OPTION if kind == "o" else A.RESULT
        outs = []
        for s, i, p in split(I, st, args[0], adt):
            if i == good:
                outs.append(ret(p, s))
            else:
                n = I.fname(m)
                s.ev("panic", n, (I.deref_read(s, args[0]),), site)
                I.paths += 1
                outs.append(Outcome("panic", None, s, (n, site[0], site[1])))
        return outs
    return h


for n in ("unwrap", "expect"):
    MODELS["core::option::Option::" + n] = unwrapper("o", 1)
    MODELS["core::result::Result::" + n] = unwrapper("r", 0)
MODELS["core::result::Result::unwrap_err"] = unwrapper("r", 1)


@model("core::option::Option::map_or")
def map_or(I, fr, st, args, m, site, stack, tys):
    outs = []
    for s, i, p in split(I, st, args[0], A.OPTION):
        if i == 1:
            outs += I.call_value(fr, s, args[2], [p], site, stack)
        else:
            outs.append(ret(args[1], s))
    return outs


@model("core::option::Option::map_or_else")
def map_or_else(I, fr, st, args, m, site, stack, tys):
    outs = []
    for s, i, p in split(I, st, args[0], A.OPTION):
        outs += I.call_value(fr, s, args[2] if i == 1 else args[1], [p] if i == 1 else [], site, stack)
    return outs


@model("core::result::Result::map_or")
def rmap_or(I, fr, st, args, m, site, stack, tys):
    outs = []
    for s, i, p in split(I, st, args[0], A.RESULT):
        if i == 0:
            outs += I.call_value(fr, s, args[2], [p], site, stack)
        else:
            outs.append(ret(args[1], s))
    return outs


@model("core::result::Result::map_or_else")
def rmap_or_else(I, fr, st, args, m, site, stack, tys):
    outs = []
    for s, i, p in split(I, st, args[0], A.RESULT):
        outs += I.call_value(fr, s, args[2] if i == 0 else args[1], [p], site, stack)
    return outs


@model("core::option::Option::transpose")
def transpose(I, fr, st, args, m, site, stack, tys):
    outs = []
    for s, i, p in split(I, st, args[0], A.OPTION):
        if i == 0:
            outs.append(ret(ok(NONE), s))
            continue
        for s2, j, q in split(I, s, p, A.RESULT):
            outs.append(ret(ok(some(q)) if j == 0 else err(q), s2))
    return outs


@model("core::option::Option::as_mut", "core::option::Option::as_deref_mut")
def opt_as_mut(I, fr, st, args, m, site, stack, tys):
    r = args[0]
    if r[0] != "ref":
        return ident(I, fr, st, args, m, site, stack, tys)
    outs = []
    for s, i, p in split(I, st, r, A.OPTION):
        if i == 0:
            outs.append(ret(NONE, s))
        else:
            outs.append(ret(some(("ref", r[1], r[2] + (("f", 0, "0", 1, "Some"),))), s))
    return outs


@model("core::option::Option::take")
def opt_take(I, fr, st, args, m, site, stack, tys):
    r = args[0]
    v = I.deref_read(st, r)
    if r[0] == "ref":
        I.store(st, ("cell", r[1], r[2]), NONE)
    else:
        st.omem[I.lvterm(r)] = NONE
    return v


@model("core::option::Option::replace")
def opt_replace(I, fr, st, args, m, site, stack, tys):
    r = args[0]
    v = I.deref_read(st, r)
    if r[0] == "ref":
        I.store(st, ("cell", r[1], r[2]), some(args[1]))
    else:
        st.omem[I.lvterm(r)] = some(args[1])
    return v


@model("core::mem::take", "core::mem::replace")
def mem_take(I, fr, st, args, m, site, stack, tys):
    r = args[0]
    v = I.deref_read(st, r) if r[0] == "ref" else I.load(st, ("val", r))
    new = args[1] if len(args) > 1 else T("default")
    if r[0] == "ref":
        I.store(st, ("cell", r[1], r[2]), new)
    else:
        st.omem[I.lvterm(r)] = new
    return v


# ---- bool ------------------------------------------------------------------
def boolfork(I, st, v):
    v = I.deref_read(st, v)
    if v[0] == "int":
        yield st, bool(v[1])
        return
    for val in (True, False):
        s = st.fork()
        if I.assume(s, v, val):
            yield s, val


@model("core::bool::<impl bool>::then_some")
def then_some(I, fr, st, args, m, site, stack, tys):
    return [ret(some(args[1]) if b else NONE, s) for s, b in boolfork(I, st, args[0])]


@model("core::bool::<impl bool>::then")
def then(I, fr, st, args, m, site, stack, tys):
    outs = []
    for s, b in boolfork(I, st, args[0]):
        if not b:
            outs.append(ret(NONE, s))
            continue
        for o in I.call_value(fr, s, args[1], [], site, stack):
            if o.kind == "ret":
                o.value = some(o.value)
            outs.append(o)
    return outs


@model("core::ops::bit::Not::not")
def bnot(I, fr, st, args, m, site, stack, tys):
    return I.neg(I.deref_read(st, args[0]))


# ---- comparisons -----------------------------------------------------------
@model("core::cmp::PartialEq::eq")
def peq(I, fr, st, args, m, site, stack, tys):
    a, b = I.deref_read(st, args[0]), I.deref_read(st, args[1])
    for x, y in ((a, b), (b, a)):
        if x[0] == "adt" and not x[4] and y[0] == "t":
            return T("isvar", y, x[1], x[2])
        if x[0] == "adt" and x[1] == A.OPTION and x[4] and y[0] == "t":
            # Some(c) == opaque option
            outs = []
            for s, i, p in split(I, st, y, A.OPTION):
                outs.append(ret(I.eq(s, x[4][0], p) if i == 1 else FALSE, s))
            return outs
    if a[0] == "adt" and b[0] == "adt" and a[2] == b[2] and len(a[4]) == 1:
        return I.eq(st, a[4][0], b[4][0])
    # "" comparisons are emptiness tests
    for x, y in ((a, b), (b, a)):
        if x == ("str", "") and y[0] != "str":
            return I.eq0(I.length(y))
    return I.eq(st, a, b)


@model("core::cmp::PartialEq::ne")
def pne(I, fr, st, args, m, site, stack, tys):
    r = peq(I, fr, st, args, m, site, stack, tys)
    if isinstance(r, list):
        for o in r:
            o.value = I.neg(o.value)
        return r
    return I.neg(r)


@model("core::cmp::PartialOrd::lt")
def plt(I, fr, st, args, m, site, stack, tys):
    return I.lt(I.deref_read(st, args[0]), I.deref_read(st, args[1]))


@model("core::cmp::PartialOrd::gt")
def pgt(I, fr, st, args, m, site, stack, tys):
    return I.lt(I.deref_read(st, args[1]), I.deref_read(st, args[0]))


@model("core::cmp::PartialOrd::le")
def ple(I, fr, st, args, m, site, stack, tys):
    return I.neg(I.lt(I.deref_read(st, args[1]), I.deref_read(st, args[0])))


@model("core::cmp::PartialOrd::ge")
def pge(I, fr, st, args, m, site, stack, tys):
    return I.neg(I.lt(I.deref_read(st, args[0]), I.deref_read(st, args[1])))


# ---- lengths ---------------------------------------------------------------
def m_len(I, fr, st, args, m, site, stack, tys):
    return I.length(I.deref_read(st, args[0]))


def m_is_empty(I, fr, st, args, m, site, stack, tys):
    l = I.length(I.deref_read(st, args[0]))
    if l[0] == "int":
        return ("int", int(l[1] == 0))
    return I.eq0(l)


for t in ("core::slice::<impl [T]>", "alloc::vec::Vec", "alloc::string::String", "core::str::<impl str>",
          "std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet", "bytes::bytes::Bytes",
          "indexmap::map::IndexMap", "alloc::collections::btree::map::BTreeMap"):
    MODELS[t + "::len"] = m_len
    MODELS[t + "::is_empty"] = m_is_empty
MODELS["core::iter::traits::exact_size::ExactSizeIterator::len"] = m_len


# ---- conversions -----------------------------------------------------------
@model("core::convert::From::from", "core::convert::Into::into", "core::convert::TryFrom::try_from_infallible")
def conv(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    ta = m.get("args") or []
    c = fr.fn.crate
    names = [c.tstr(a) for a in ta if isinstance(a, int)]
    dst = names[0] if m["method"] == "from" and names else (names[1] if len(names) > 1 else "")
    if v[0] == "int" or dst in A.INTBITS:
        return v
    if is_t(v) or v[0] == "adt":
        w = I.by_from(st, dst, v, names) if hasattr(I, "by_from") else None
        if dst.startswith(("alloc::string::String", "alloc::boxed::Box", "alloc::borrow::Cow", "&", "std::path", "alloc::sync::Arc", "alloc::rc::Rc", "alloc::vec::Vec")):
            return v
        return T("into", dst, v)
    return v


@model("alloc::string::ToString::to_string", "alloc::string::SpecToString::spec_to_string")
def to_string(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    if v[0] == "str":
        return v
    if tys and tys[0]:
        t = tys[0]
        c = fr.fn.crate
        while t["k"] == "ref":
            t = c.ty(t["e"])
        if t["s"] in ("str", "alloc::string::String"):
            return v
    # expand Display impls of the workspace
    pieces = fmt_pieces(I, fr, st, v, site, stack)
    return ("sbuf", pieces)


# ---- fmt -------------------------------------------------------------------
def decode_template(hexs):
    b = bytes.fromhex(hexs)
    out = []
    i = 0
    arg = 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(("lit", b[i + 1:i + 1 + c].decode("utf-8", "replace")))
            i += 1 + c
        elif c == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(("lit", b[i + 3:i + 3 + n].decode("utf-8", "replace")))
            i += 3 + n
        else:
            i += 1
            flags = width = prec = None
            if c & 1:
                flags = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if c & 2:
                width = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 4:
                prec = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 8:
                arg = int.from_bytes(b[i:i + 2], "little")
                i += 2
            out.append(("ph", arg, (flags, width, prec) if (flags is not None) else None))
            arg += 1
    return out


@model("core::fmt::rt::Argument::new_display")
def fa_disp(I, fr, st, args, m, site, stack, tys):
    return ("fmtarg", "display", I.deref_read(st, args[0]))


@model("core::fmt::rt::Argument::new_debug")
def fa_dbg(I, fr, st, args, m, site, stack, tys):
    return ("fmtarg", "debug", I.deref_read(st, args[0]))


@model("core::fmt::rt::Argument::new_lower_hex")
def fa_hex(I, fr, st, args, m, site, stack, tys):
    return ("fmtarg", "hex", I.deref_read(st, args[0]))


@model("core::fmt::Arguments::new")
def fmt_new(I, fr, st, args, m, site, stack, tys):
    tpl, a = args[0], args[1]
    if tpl[0] == "arr":
        tpl = ("bytes", "".join("%02x" % (x[1] & 255) for x in tpl[1]))
    if tpl[0] != "bytes" or a[0] != "arr":
        return T("fmtargs", tpl, a)
    out = []
    for p in decode_template(tpl[1]):
        if p[0] == "lit":
            out.append(p)
        else:
            x = a[1][p[1]]
            if x[0] == "fmtarg":
                out.append(("ph", x[1], x[2], p[2]) if p[2] else ("ph", x[1], x[2]))
            else:
                out.append(("ph", "?", x))
    return ("fmt", tuple(out))


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def fmt_from_str(I, fr, st, args, m, site, stack, tys):
    v = args[0]
    return ("fmt", (("lit", v[1]),)) if v[0] == "str" else ("fmt", (("ph", "display", v),))


@model("alloc::fmt::format", "alloc::fmt::format::format_inner")
def fmt_format(I, fr, st, args, m, site, stack, tys):
    v = args[0]
    outs = expand(I, fr, st, v, site, stack)
    return [ret(("sbuf", p), s) for p, s in outs]


def display_impl(I, v, kind):
    tr = {"display": "core::fmt::Display", "debug": "core::fmt::Debug"}.get(kind)
    if tr is None:
        return None
    ix = I.trait_impl_index()
    if v[0] == "adt":
        for fn in ix.get((tr, "fmt"), ()):
            sty = fn.crate.ty(fn.d["self"])
            while sty["k"] == "ref":
                sty = fn.crate.ty(sty["e"])
            if sty.get("adt") == v[1]:
                if fn.d.get("expn") and tr == "core::fmt::Debug":
                    return None
                return fn
    return None


def expand_piece(I, fr, st, p, site, stack):
    """-> list of (tuple of pieces, state)"""
    if p[0] == "lit" or p[0] != "ph":
        return [((p,), st)]
    v = p[2]
    if v[0] == "sbuf" and p[1] == "display" and len(p) == 3:
        return [(v[1], st)]
    if v[0] == "str" and p[1] == "display" and len(p) == 3:
        return [((("lit", v[1]),), st)]
    if v[0] == "int" and p[1] == "display" and len(p) == 3 and False:
        return [((("lit", str(v[1])),), st)]
    if v[0] == "fmt" and p[1] == "display":
        return expand(I, fr, st, v, site, stack)
    fn = display_impl(I, v, p[1]) if I.expand_fmt else None
    if fn is None or stack.count(fn.id) >= I.refn or I.opaque(fn):
        return [((p,), st)]
    # run the Display impl against an abstract buffer
    I.next_fid += 1
    cell = (("fmtbuf", I.next_fid), 0)
    st.cells[cell] = ("sbuf", ())
    outs = []
    for o in I.call_fn(fn, [v, ("ref", cell, ())], st, stack):
        if o.kind != "ret":
            outs.append(((("ph", "panic", v),), o.st))
            continue
        b = o.st.cells.pop(cell, ("sbuf", ()))
        outs.append((b[1] if b[0] == "sbuf" else (("ph", "opaque", b),), o.st))
    return outs


def expand(I, fr, st, f, site, stack):
    if f[0] != "fmt":
        return [((("ph", "display", f),), st)]
    res = [((), st)]
    for p in f[1]:
        nxt = []
        for acc, s in res:
            for q, s2 in expand_piece(I, fr, s, p, site, stack):
                nxt.append((acc + q, s2))
        res = nxt
    return res


def fmt_pieces(I, fr, st, v, site, stack):
    r = expand_piece(I, fr, st, ("ph", "display", v), site, stack)
    if len(r) == 1:
        return r[0][0]
    return (("ph", "display", v),)


def merge_lits(ps):
    out = []
    for p in ps:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        elif p == ("lit", ""):
            continue
        else:
            out.append(p)
    return tuple(out)


def emit(I, fr, st, w, pieces, site):
    """Append pieces to the writer `w` (a pointer)."""
    if w[0] == "ref":
        cur = I.deref_read(st, w)
        r = w
        # find the innermost cell
        while True:
            v = I.read_lv(st, r)
            if isinstance(v, tuple) and v and v[0] == "ref":
                r = v
            else:
                break
        if v[0] == "sbuf":
            I.store(st, ("cell", r[1], r[2]), ("sbuf", v[1] + tuple(pieces)))
            return
        if v == T("default") or (is_t(v, "call") and isinstance(v[2], str) and v[2].endswith(("String::new", "String::with_capacity"))):
            I.store(st, ("cell", r[1], r[2]), ("sbuf", tuple(pieces)))
            return
        st.ev("emit", v, tuple(pieces), site)
        return
    st.ev("emit", I.lvterm(w), tuple(pieces), site)


@model("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt", "std::io::Write::write_fmt",
       "core::io::write::Write::write_fmt")
def write_fmt(I, fr, st, args, m, site, stack, tys):
    outs = []
    for p, s in expand(I, fr, st, args[1], site, stack):
        emit(I, fr, s, args[0], p, site)
        outs += fmt_result(I, s)
    return outs


def fmt_result(I, s):
    return [ret(ok(UNIT), s)]


@model("core::fmt::Formatter::write_str", "core::fmt::Write::write_str", "core::fmt::Formatter::pad")
def write_str(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[1])
    p = [("lit", v[1])] if v[0] == "str" else (v[1] if v[0] == "sbuf" else [("ph", "display", v)])
    emit(I, fr, st, args[0], p, site)
    return fmt_result(I, st)


@model("core::fmt::Formatter::write_char", "core::fmt::Write::write_char")
def write_char(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[1])
    p = [("lit", chr(v[1]))] if v[0] == "int" else [("ph", "display", v)]
    emit(I, fr, st, args[0], p, site)
    return fmt_result(I, st)


@model("core::fmt::Display::fmt", "core::fmt::Debug::fmt")
def disp_fmt(I, fr, st, args, m, site, stack, tys):
    kind = "display" if "Display" in m["trait"] else "debug"
    outs = []
    for p, s in expand_piece(I, fr, st, ("ph", kind, I.deref_read(st, args[0])), site, stack):
        emit(I, fr, s, args[1], p, site)
        outs += fmt_result(I, s)
    return outs


@model("alloc::string::String::new")
def string_new(I, fr, st, args, m, site, stack, tys):
    return ("sbuf", ())


def note_alloc(I, st, n, site):
    n = I.deref_read(st, n)
    if n[0] != "int":
        st.ev("alloc", n, site)


@model("alloc::string::String::with_capacity")
def string_cap(I, fr, st, args, m, site, stack, tys):
    note_alloc(I, st, args[0], site)
    return ("sbuf", ())


def text_pieces(v):
    return [("lit", v[1])] if v[0] == "str" else (list(v[1]) if v[0] == "sbuf" else [("ph", "display", v)])


def push_pieces(I, fr, st, w, p, site):
    if w[0] == "ref":
        cur = I.read_lv(st, w)
        if isinstance(cur, tuple) and cur and (cur[0] == "str" or A.is_t(cur)) and cur != T("default"):
            # an owned text known as a value: the pieces come after it
            I.store(st, ("cell", w[1], w[2]), ("sbuf", tuple(text_pieces(cur)) + tuple(p)))
            return
    emit(I, fr, st, w, p, site)


@model("alloc::string::String::push_str", "core::ops::arith::AddAssign::add_assign_str")
def push_str(I, fr, st, args, m, site, stack, tys):
    push_pieces(I, fr, st, args[0], text_pieces(I.deref_read(st, args[1])), site)
    return UNIT


@model("alloc::string::String::push")
def push_ch(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[1])
    push_pieces(I, fr, st, args[0], [("lit", chr(v[1]))] if v[0] == "int" else [("ph", "display", v)], site)
    return UNIT


def is_string(fr, t):
    c = fr.fn.crate
    while t and t["k"] == "ref":
        t = c.ty(t["e"])
    return bool(t) and t["s"] == "alloc::string::String"


@model("core::ops::arith::Add::add")
def add_trait(I, fr, st, args, m, site, stack, tys):
    if tys and is_string(fr, tys[0]):
        return ("sbuf", tuple(text_pieces(I.deref_read(st, args[0])) + text_pieces(I.deref_read(st, args[1]))))
    return NotImplemented


@model("core::ops::arith::AddAssign::add_assign")
def add_assign_trait(I, fr, st, args, m, site, stack, tys):
    if tys and is_string(fr, tys[0]):
        push_pieces(I, fr, st, args[0], text_pieces(I.deref_read(st, args[1])), site)
        return UNIT
    return NotImplemented


@model("std::path::PathBuf::push")
def path_push(I, fr, st, args, m, site, stack, tys):
    if args[0][0] != "ref":
        return NotImplemented
    cur = I.read_lv(st, args[0])
    while isinstance(cur, tuple) and cur and cur[0] == "ref":
        args[0] = cur
        cur = I.read_lv(st, cur)
    I.store(st, ("cell", args[0][1], args[0][2]), T("call", "std::path::Path::join", (I.deref_read(st, args[0]), I.deref_read(st, args[1]))))
    return UNIT


# ---- vectors ---------------------------------------------------------------
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def vec_new(I, fr, st, args, m, site, stack, tys):
    if args:
        note_alloc(I, st, args[0], site)
    return ("vec", ())


@model("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back")
def vec_push(I, fr, st, args, m, site, stack, tys):
    r = args[0]
    while r[0] == "ref":
        v = I.read_lv(st, r)
        if v[0] == "ref":
            r = v
            continue
        if v[0] == "vec":
            I.store(st, ("cell", r[1], r[2]), ("vec", v[1] + (args[1],)))
        else:
            st.ev("push", v, args[1], site)
            I.store(st, ("cell", r[1], r[2]), T("pushed", v, args[1]))
        return UNIT
    t = I.lvterm(r)
    st.ev("push", t, args[1], site)
    cur = st.omem.get(t, t)
    if cur[0] == "vec":
        st.omem[t] = ("vec", cur[1] + (args[1],))
    else:
        st.omem[t] = T("pushed", cur, args[1])
    return UNIT


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append",
       "quote::__private::ext::TokenStreamExt::append_all", "proc_macro2::TokenStream::extend")
def extend(I, fr, st, args, m, site, stack, tys):
    r = args[0]
    outs = []
    arg = I.deref_read(st, args[1])
    if arg[0] == "iter" and arg[1][0] == "ts" and not arg[2]:
        arg = arg[1]
    for items, s in ([((arg,), st)] if arg[0] == "ts" else as_items(I, fr, st, args[1], site, stack)):
        rr = r
        done = False
        while rr[0] == "ref":
            v = I.read_lv(s, rr)
            if v[0] == "ref":
                rr = v
                continue
            if v[0] == "vec":
                I.store(s, ("cell", rr[1], rr[2]), ("vec", v[1] + items))
                done = True
            elif v[0] == "ts":
                I.store(s, ("cell", rr[1], rr[2]), ("ts", v[1] + items_to_tokens(items)))
                done = True
            else:
                s.ev("call", I.fname(m), (v, ("vec", items)), UNIT, site)
                I.store(s, ("cell", rr[1], rr[2]), T("extended", v, ("vec", items)))
                done = True
            break
        if not done:
            t = I.lvterm(rr)
            s.ev("call", I.fname(m), (t, ("vec", items)), UNIT, site)
            s.omem[t] = T("extended", s.omem.get(t, t), ("vec", items))
        outs.append(ret(UNIT, s))
    return outs


def items_to_tokens(items):
    out = []
    for x in items:
        if x[0] == "ts":
            out.extend(x[1])
        elif x[0] == "rep":
            out.append(("rep", tuple(items_to_tokens(a) for a in x[1])))
        elif x[0] == "spread":
            out.append(("rep", ((("hole", T("elem", x[1])),),)))
        else:
            out.append(("hole", x))
    return tuple(out)


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_vec(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    # Box<MaybeUninit<[T; N]>> written in place through an overlay
    w = st.omem.get(I.lvterm(v), v)
    for x in A.walk(w):
        if x and x[0] == "arr":
            return ("vec", x[1])
    t = T("fld", v, "value", "value") if False else None
    for k, val in st.omem.items():
        if v in set(A.walk(k)) and val[0] == "arr":
            return ("vec", val[1])
    return T("boxvec", w)


@model("alloc::boxed::Box::new_uninit")
def box_uninit(I, fr, st, args, m, site, stack, tys):
    I.next_fid += 1
    st.n += 1
    return T("boxuninit", st.n, site[0], site[1])


# ---- iterators -------------------------------------------------------------
# ("iter", src, stages)   stage: ("map", f) ("filter", f) ("fmap", f) ("flat", f) ("enum",) ("zip", iter) ("chain", iter) ("opaque", name)
def mk_iter(I, st, v):
    v = I.deref_read(st, v)
    if v[0] == "iter":
        return v
    if v[0] == "adt" and v[1] == A.OPTION:
        return ("iter", ("arr", tuple(v[4])), ())
    if I.step_vecs and v[0] == "adt" and v[1] == "core::ops::range::Range" and all(x[0] == "int" for x in v[4]):
        return ("iter", ("arr", tuple(("int", i) for i in range(v[4][0][1], v[4][1][1]))), ())
    return ("iter", v, ())


@model("core::iter::traits::collect::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "std::collections::hash::map::HashMap::iter", "std::collections::hash::set::HashSet::iter",
       "std::collections::hash::map::HashMap::iter_mut", "alloc::vec::Vec::into_iter", "core::option::Option::iter",
       "core::array::<impl [T; N]>::iter",
       "alloc::collections::btree::map::BTreeMap::iter", "indexmap::map::IndexMap::iter", "syn::punctuated::Punctuated::iter")
def into_iter(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    if not it[2] and is_t(it[1]):
        a = m.get("args") or []
        name = I.fname(m)
        ty = fr.fn.crate.ty(a[0]) if name.endswith("into_iter") and a and isinstance(a[0], int) else None
        if name == "core::option::Option::iter" or (ty or {}).get("name") == A.OPTION or ((ty or {}).get("e2") or {}).get("name") == A.OPTION:
            # at most one element: the content
            return [ret(("iter", ("arr", (p,) if i == 1 else ()), ()), s) for s, i, p in split(I, st, it[1], A.OPTION)]
    return it


@model("alloc::vec::Vec::drain")
def vec_drain(I, fr, st, args, m, site, stack, tys):
    return mk_iter(I, st, args[0])


@model("std::collections::hash::map::HashMap::keys", "alloc::collections::btree::map::BTreeMap::keys", "indexmap::map::IndexMap::keys")
def hm_keys(I, fr, st, args, m, site, stack, tys):
    return ("iter", I.deref_read(st, args[0]), (("proj", 0),))


@model("std::collections::hash::map::HashMap::values", "std::collections::hash::map::HashMap::into_values",
       "alloc::collections::btree::map::BTreeMap::values", "indexmap::map::IndexMap::values")
def hm_values(I, fr, st, args, m, site, stack, tys):
    return ("iter", I.deref_read(st, args[0]), (("proj", 1),))


@model("core::iter::sources::once::once")
def it_once(I, fr, st, args, m, site, stack, tys):
    return ("iter", ("arr", (args[0],)), ())


@model("core::iter::sources::empty::empty")
def it_empty(I, fr, st, args, m, site, stack, tys):
    return ("iter", ("arr", ()), ())


@model("core::iter::sources::repeat_n::repeat_n", "core::iter::sources::repeat::repeat")
def it_repeat(I, fr, st, args, m, site, stack, tys):
    return ("iter", T("repeatv", args[0]), (("const", args[0]),))


def stage(name, nf=1):
    def h(I, fr, st, args, m, site, stack, tys):
        it = mk_iter(I, st, args[0])
        if I.stepping and it[1][0] in ("vec", "arr") and not any(not isinstance(x, tuple) or x[0] in ("rep", "spread", "acc") for x in it[1][1]):
            # the list is known element by element
            items = it[1][1]
            if name == "rev" and all(sg[0] in ("map", "proj", "filter", "fmap") for sg in it[2]):
                return ("iter", (it[1][0], items[::-1]), it[2])
            if name in ("skip", "take") and args[1][0] == "int" and all(sg[0] in ("map", "proj") for sg in it[2]):
                k = args[1][1]
                return ("iter", (it[1][0], items[k:] if name == "skip" else items[:k]), it[2])
            if name == "enum" and not it[2]:
                return ("iter", (it[1][0], tuple(("tup", (("int", i), x)) for i, x in enumerate(items))), ())
            if name in ("flat", "flatten") and I.step_vecs and all(sg[0] in ("map", "filter", "fmap", "inspect") for sg in it[2]):
                done = spread_out(I, fr, st, it, args[1] if name == "flat" else None, site, stack)
                if done is not None:
                    return done
            if I.step_vecs and it[2] and all(sg[0] in ("map", "filter", "fmap", "inspect") for sg in it[2]) and (
                    name in ("enum", "rev") or name in ("skip", "take") and args[1][0] == "int"):
                # which elements are left is worked out first
                cur, _ = step_through(I, fr, st, it, items, site, stack, (), lambda acc, v, s: [(acc + (v,), s)])
                outs = []
                for acc, s in cur:
                    if name == "enum":
                        acc = tuple(("tup", (("int", i), x)) for i, x in enumerate(acc))
                    elif name == "rev":
                        acc = acc[::-1]
                    else:
                        acc = acc[args[1][1]:] if name == "skip" else acc[:args[1][1]]
                    outs.append(ret(("iter", ("arr", acc), ()), s))
                return outs
        return ("iter", it[1], it[2] + ((name,) + tuple(args[1:1 + nf]),))
    return h


def spread_out(I, fr, st, it, f, site, stack):
    """The items of the lists an iterator over a literal list consists of, if these are literal as well."""
    cur = [((), st.fork())]
    for x in it[1][1]:
        nxt = []
        for acc, s in cur:
            lost = []
            for v, s1 in gen_elem(I, fr, s.fork(), ("iter", (it[1][0], (x,)), it[2]), site, stack, lost):
                for o in ([ret(v, s1)] if f is None else I.call_value(fr, s1, f, [v], site, stack)):
                    if o.kind != "ret":
                        return None
                    w = I.deref_read(o.st, o.value)
                    if w[0] == "iter" and not w[2]:
                        w = w[1]
                    if w[0] == "adt" and w[1] in (A.OPTION, A.RESULT):
                        w = ("arr", w[4] if w[3] in ("Some", "Ok") else ())
                    if w[0] not in ("vec", "arr") or any(not isinstance(y, tuple) or y[0] in ("rep", "spread", "acc") for y in w[1]):
                        return None
                    nxt.append((acc + w[1], o.st))
            nxt += [(acc, s1) for s1 in lost]
        cur = nxt
    return [ret(("iter", ("arr", acc), ()), s) for acc, s in cur]


I_ = "core::iter::traits::iterator::Iterator::"
MODELS[I_ + "map"] = stage("map")
MODELS[I_ + "filter"] = stage("filter")
MODELS[I_ + "filter_map"] = stage("fmap")
MODELS[I_ + "flat_map"] = stage("flat")
MODELS[I_ + "flatten"] = stage("flatten", 0)
MODELS[I_ + "enumerate"] = stage("enum", 0)
MODELS[I_ + "skip"] = stage("skip")
MODELS[I_ + "take"] = stage("take")
MODELS[I_ + "take_while"] = stage("takew")
MODELS[I_ + "map_while"] = stage("fmap")
MODELS[I_ + "skip_while"] = stage("skipw")
MODELS[I_ + "step_by"] = stage("stepby")
MODELS[I_ + "rev"] = stage("rev", 0)
MODELS[I_ + "inspect"] = stage("inspect")
for n in ("cloned", "copied", "peekable", "fuse"):
    MODELS[I_ + n] = lambda I, fr, st, args, m, site, stack, tys: mk_iter(I, st, args[0])


@model(I_ + "zip")
def it_zip(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    return ("iter", it[1], it[2] + (("zip", mk_iter(I, st, args[1])),))


@model(I_ + "chain")
def it_chain(I, fr, st, args, m, site, stack, tys):
    its = [mk_iter(I, st, a) for a in args[:2]]
    if I.stepping and I.step_vecs and all(exactly(I, it) is not None for it in its):
        cur = [((), st.fork())]
        for it in its:
            cur, stop = step_through(I, fr, cur[0][1], it, exactly(I, it), site, stack, cur[0][0], lambda acc, x, s: [(acc + (x,), s)]) if len(cur) == 1 else ([], [])
            if len(cur) != 1 or stop:
                cur = []
                break
        if cur:
            return [ret(("iter", ("arr", cur[0][0]), ()), cur[0][1])]
    return ("iter", T("chain", mk_iter(I, st, args[0]), mk_iter(I, st, args[1])), ())


def base_elems(I, fr, st, src, site, stack):
    """Arbitrary element of a source. -> list of (value, state)"""
    if is_t(src, "chain"):
        return gen_elem(I, fr, st.fork(), src[2], site, stack) + gen_elem(I, fr, st.fork(), src[3], site, stack)
    if src[0] in ("arr", "vec"):
        out = []
        for x in src[1]:
            for y, s in item_elem(I, fr, st.fork(), x, site, stack):
                out.append((y, s))
        return out
    if src[0] == "adt" and src[1] == A.OPTION:
        return [(src[4][0], st)] if src[2] == 1 else []
    if src[0] == "iter":
        return gen_elem(I, fr, st, src, site, stack)
    if is_t(src, "filtered"):
        return base_elems(I, fr, st, src[2], site, stack)
    if src[0] == "adt" and src[1].endswith("range::Range"):
        return [(T("elem", src), st)]
    return [(T("elem", src), st)]


def item_elem(I, fr, st, x, site, stack):
    if x[0] == "rep":
        out = []
        for alt in x[1]:
            for y in alt:
                out += item_elem(I, fr, st.fork(), y, site, stack)
        return out
    if x[0] == "spread":
        return base_elems(I, fr, st, x[1], site, stack)
    if x[0] == "acc":
        return []
    return [(x, st)]


PARTIAL = ("filter", "takew", "skipw", "fmap", "flat", "flatten")


def partial(it):
    """May the iterator drop elements of its source?"""
    return any(sg[0] in PARTIAL for sg in it[2]) or (it[1][0] == "iter" and partial(it[1]))


def mark_elem(v, k, n):
    """Element of a truncated / reordered view of a collection: names the view, so it never equals the plain element."""
    if is_t(v, "elem"):
        return T("elem", T(k, v[2], n))
    if isinstance(v, tuple) and v and v[0] in ("tup",):
        return (v[0], tuple(mark_elem(x, k, n) for x in v[1]))
    if is_t(v, "fld"):
        return T("fld", mark_elem(v[2], k, n), *v[3:])
    return v if v[0] in ("int", "str") else T(k, v, n)


def gen_elem(I, fr, st, it, site, stack, dropped=None):
    """An arbitrary element of the iterator -> [(value, state)] (paths on which an element is produced).
    `dropped` receives the states of the paths on which a filter swallows the element."""
    cur = base_elems(I, fr, st, it[1], site, stack)
    for sg in it[2]:
        nxt = []
        for v, s in cur:
            k = sg[0]
            if k == "map":
                for o in I.call_value(fr, s, sg[1], [v], site, stack):
                    if o.kind == "ret":
                        nxt.append((o.value, o.st))
                    else:
                        I.iter_panics.append(o)
            elif k in ("filter", "takew", "skipw"):
                for o in I.call_value(fr, s, sg[1], [v], site, stack):
                    if o.kind != "ret":
                        I.iter_panics.append(o)
                    else:
                        s2 = o.st.fork()
                        if I.assume(s2, o.value, True):
                            nxt.append((v, s2))
                        if dropped is not None:
                            s2 = o.st.fork()
                            if I.assume(s2, o.value, False):
                                dropped.append(s2)
            elif k == "fmap":
                for o in I.call_value(fr, s, sg[1], [v], site, stack):
                    if o.kind != "ret":
                        I.iter_panics.append(o)
                    else:
                        for s2, i, p in split(I, o.st, o.value, A.OPTION):
                            if i == 1:
                                nxt.append((p, s2))
                            elif dropped is not None:
                                dropped.append(s2)
            elif k in ("flat", "flatten"):
                vals = [(v, s)]
                if k == "flat":
                    outs = I.call_value(fr, s, sg[1], [v], site, stack)
                    vals = [(o.value, o.st) for o in outs if o.kind == "ret"]
                    I.iter_panics += [o for o in outs if o.kind != "ret"]
                for w, s2 in vals:
                    w = I.deref_read(s2, w)
                    nxt += gen_elem(I, fr, s2, w if w[0] == "iter" else ("iter", w, ()), site, stack, dropped)
            elif k == "enum":
                nxt.append((("tup", (T("index", v), v)), s))
            elif k == "pairp":
                nxt.append((("tup", (v, T("punct", v))), s))
            elif k == "zip":
                for w, s2 in gen_elem(I, fr, s, sg[1], site, stack):
                    nxt.append((("tup", (v, w)), s2))
            elif k == "proj":
                nxt.append((v[1][sg[1]] if v[0] == "tup" else T("fld", v, str(sg[1])), s))
            elif k == "const":
                nxt.append((sg[1], s))
            elif k in ("skip", "take", "rev", "stepby"):
                nxt.append((mark_elem(v, k, sg[1] if len(sg) > 1 else A.UNIT), s))
            elif k == "inspect":
                for o in I.call_value(fr, s, sg[1], [v], site, stack):
                    if o.kind == "ret":
                        nxt.append((v, o.st))
            else:
                nxt.append((T("stage", k, v), s))
        cur = nxt
    return cur


@model("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def it_next(I, fr, st, args, m, site, stack, tys):
    r = args[0]
    it = I.deref_read(st, r)
    if it[0] != "iter":
        if is_t(it, "phi") and it[4][0] == "iter":
            it = it[4]
        else:
            return NotImplemented
    outs = []
    if I.stepping and (it[1][0] == "arr" or I.step_vecs and it[1][0] == "vec" and not any(x[0] in ("rep", "spread", "acc") for x in it[1][1])) \
            and r[0] == "ref" and all(x[0] in ("map", "filter", "fmap", "inspect") for x in it[2]):
        # exact stepping over a literal list
        back = m.get("method") == "next_back"
        todo = [(it[1][1], st)]
        while todo:
            items, s = todo.pop()
            s0 = s.fork()
            if not items:
                I.store(s0, ("cell", r[1], r[2]), ("iter", ("arr", ()), it[2]))
                outs.append(ret(NONE, s0))
                continue
            rest, this = (items[:-1], items[-1:]) if back else (items[1:], items[:1])
            lost = []
            for v, s1 in gen_elem(I, fr, s0, ("iter", ("arr", this), it[2]), site, stack, lost):
                I.store(s1, ("cell", r[1], r[2]), ("iter", ("arr", rest), it[2]))
                outs.append(ret(some(v), s1))
            todo += [(rest, s1) for s1 in lost]
        return outs
    empty = st.fork()
    dropped = []
    mark = ("mark", "next%d" % st.n)
    s0 = st.fork()
    s0.events = (st.events, mark)
    for v, s in gen_elem(I, fr, s0, it, site, stack, dropped):
        outs.append(ret(some(v), s))
    lost = tuple(dict.fromkeys(tuple(events_since(s, mark)) for s in dropped))
    empty.ev("done", it, tuple(x for x in lost if x))
    outs.append(ret(NONE, empty))
    return outs


def events_since(st, mark):
    ev = []
    e = st.events
    while e is not None and e[1] != mark:
        ev.append(e[1])
        e = e[0]
    ev.reverse()
    return ev


@model("core::iter::adapters::peekable::Peekable::peek", "core::iter::adapters::peekable::Peekable::next_if")
def it_peek(I, fr, st, args, m, site, stack, tys):
    return it_next(I, fr, st, args[:1], m, site, stack, tys)


def summarise(I, fr, st, it, site, stack, body, reset=()):
    """Runs `body(value, state)` -> list of (result, state) on an arbitrary element; events are wrapped in a loop.
    State carried from one iteration to the next is unknown (numbers: init plus the sum of the increments; token
    streams, vectors and strings: what was there plus repetitions of what is appended). `reset`: lists to which the
    body adds outcomes; they are cut back when the body is run again from a more general state.
    Returns the list of results; `st` becomes the state after the loop."""
    base = st.fork()
    mark = ("mark", "iter%d" % st.n)
    lid = "iter@%04x" % (zlib.crc32((str(site) + A.show(it[1])).encode()) & 0xffff)
    keep = [len(x) for x in reset]
    pan = len(I.iter_panics)
    mode = {}
    for rnd in range(10):
        for x, n in zip(reset, keep):
            del x[n:]
        del I.iter_panics[pan:]
        s = base.fork()
        s.events = (base.events, mark)
        res = []
        iters = []
        dropped = []
        for v, s1 in gen_elem(I, fr, s, it, site, stack, dropped):
            for r, s2 in body(v, s1):
                ev = tuple(events_since(s2, mark))
                if ev and ev not in iters:
                    iters.append(ev)
                res.append((r, s2, ev))
        for s2 in dropped:
            ev = tuple(events_since(s2, mark))
            if ev and ev not in iters:
                iters.append(ev)
        after = [x[1] for x in res] + dropped
        grew = False
        for kk, vals in changes(base, after).items():
            cur = I.getk(base, kk)
            kind = I.acc_kind(I.getk(st, kk))
            if mode.get(kk) == "phi":
                kind = None
            if kind in ("ts", "vec", "sbuf") and all(isinstance(v, tuple) and v[0] == kind and v[1][:len(cur[1])] == cur[1] for v in vals):
                continue
            if kind == "num" and mode.get(kk) != "acc":
                new, mode[kk] = T("accn", lid, I.keyname(kk)), "acc"
            elif kind == "num" and all(I.num_delta(cur, v) is not None for v in vals):
                continue
            else:
                init = I.getk(st, kk) or A.UNIT
                new = cur or A.UNIT if mode.get(kk) == "phi" else init
                for v in vals:
                    new = I.generalise(lid, I.keyname(kk), init, new, v)
                mode[kk] = "phi"
                if new == cur:
                    continue
            I.setk(base, kk, new)
            grew = True
        if not grew:
            break
    last = changes(base, after)
    for kk in mode:
        last.setdefault(kk, [])
    for kk, vals in last.items():
        init, cur = I.getk(st, kk), I.getk(base, kk)
        kind = I.acc_kind(init)
        if mode.get(kk) is None and kind in ("ts", "vec", "sbuf"):
            ds = tuple(dict.fromkeys(v[1][len(init[1]):] for v in vals))
            new = (kind, init[1] + (("rep", ds),))
        elif mode.get(kk) == "acc":
            dl = [I.num_delta(cur, v) for v in vals]
            new = A.add_of((init,) + tuple(T("sum", A.add_of(d)) for d in dict.fromkeys(dl) if d))
        else:
            new = cur or A.UNIT
            for v in vals:
                I.carried(lid, cur, v)
        I.setk(st, kk, new)
    if iters:
        st.ev("loop", "iter", tuple(iters), it)
    return res


def changes(st, states):
    """Locations of `st` to which the states assign something else: {key: [values]}"""
    changed = {}
    for s2 in states:
        for k, v in s2.cells.items():
            if k in st.cells and st.cells[k] != v:
                changed.setdefault(("c", k), []).append(v)
        for k, v in s2.omem.items():
            if st.omem.get(k) != v:
                changed.setdefault(("o", k), []).append(v)
    return changed


def as_items(I, fr, st, v, site, stack):
    """Collection of an iterable as vec items: [(items, state)]"""
    v = I.deref_read(st, v)
    if v[0] == "vec":
        return [(v[1], st)]
    if v[0] == "arr":
        return [(v[1], st)]
    if v[0] == "adt" and v[1] == A.OPTION:
        return [((v[4][0],) if v[2] == 1 else (), st)]
    if v[0] == "iter":
        if not v[2] and v[1][0] in ("vec", "arr"):
            return [(v[1][1], st)]
        if is_t(v[1], "chain") and not v[2]:
            out = []
            for a, s in as_items(I, fr, st, v[1][2], site, stack):
                for b, s2 in as_items(I, fr, s, v[1][3], site, stack):
                    out.append((a + b, s2))
            return out
        if not v[2]:
            return [((("spread", v[1]),), st)]
        if v[1][0] in ("arr", "vec") and all(x[0] not in ("rep", "spread", "acc") for x in v[1][1]) and all(sg[0] in ("map", "enum", "proj") for sg in v[2]):
            # known literal elements: keep them in order
            outs = [((), st)]
            for x in v[1][1]:
                nxt = []
                for acc, s in outs:
                    for y, s2 in gen_elem(I, fr, s, ("iter", ("arr", (x,)), v[2]), site, stack):
                        nxt.append((acc + (y,), s2))
                outs = nxt
            return outs
        s = st
        res = summarise(I, fr, s, v, site, stack, lambda x, s1: [(x, s1)])
        alts = tuple(dict.fromkeys((r[0],) for r in res))
        if partial(v) and () not in alts:
            alts += ((),)
        return [((("rep", alts),), s)]
    return [((("spread", v),), st)]


def rettype(fr, m, I):
    """Name of the collected type B of collect::<B>() / sum::<S>()"""
    a = m.get("args") or []
    c = fr.fn.crate
    if len(a) >= 2 and isinstance(a[1], int):
        return c.ty(a[1])
    return None


@model(I_ + "collect")
def it_collect(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    ty = rettype(fr, m, I)
    name = (ty or {}).get("name", "") or (ty or {}).get("s", "")
    if name.startswith("core::result::Result") or name.startswith("core::option::Option"):
        isres = name.startswith("core::result::Result")
        adt = A.RESULT if isres else A.OPTION
        good = 0 if isres else 1
        early = []
        vals = []
        items = exactly(I, it) if I.step_vecs else None
        inner = (ty or {}).get("s", "").split("<", 1)[-1]
        if items is not None and inner.startswith("alloc::vec::Vec"):
            def step(acc, x, s1):
                out = []
                for s2, i, p in split(I, s1, x, adt):
                    out.append((acc + (p,), s2) if i == good else ret(err(p) if isres else NONE, s2))
                return out
            cur, stop = step_through(I, fr, st, it, items, site, stack, (), step)
            return [ret((ok if isres else some)(("vec", acc)), s) for acc, s in cur] + stop

        def body(x, s1):
            out = []
            for s2, i, p in split(I, s1, x, adt):
                if i == good:
                    out.append((p, s2))
                else:
                    early.append((p, s2))
            return out
        pre = st.fork()
        res = summarise(I, fr, st, it, site, stack, body, (early,))
        alts = tuple(dict.fromkeys((r[0],) for r in res))
        v = ("vec", (("rep", alts),))
        outs = [ret(ok(v) if isres else some(v), st)]
        for p, s2 in early:
            outs.append(ret(err(p) if isres else NONE, s2))
        return outs
    outs = []
    items = exactly(I, it) if I.step_vecs and it[2] else None
    if items is not None:
        every, _ = step_through(I, fr, st, it, items, site, stack, (), lambda acc, v, s: [(acc + (v,), s)])
    else:
        every = as_items(I, fr, st, it, site, stack)
    for items, s in every:
        if "TokenStream" in name:
            outs.append(ret(("ts", items_to_tokens(items)), s))
        elif "HashSet" in name or "HashMap" in name or "BTree" in name or "IndexMap" in name:
            outs.append(ret(T("collect", name, ("vec", items)), s))
        elif name.startswith("alloc::string::String"):
            outs.append(ret(("sbuf", tuple(("ph", "display", x) if x[0] not in ("rep",) else x for x in items)), s))
        else:
            if len(items) == 1 and items[0][0] == "spread":
                outs.append(ret(items[0][1], s))
            else:
                outs.append(ret(("vec", items), s))
    return outs


def exactly(I, it):
    """Items of an iterator over a list that is known element by element (only while stepping exactly is asked for)."""
    if not I.stepping or it[1][0] not in ("vec", "arr") or any(not isinstance(x, tuple) or x[0] in ("rep", "spread") for x in it[1][1]):
        return None
    return it[1][1] if all(x[0] in ("map", "filter", "fmap", "inspect") for x in it[2]) else None


def step_through(I, fr, st, it, items, site, stack, init, step):
    """step(acc, value, state) -> [(acc, state)] (continue) or outcomes (stop)."""
    cur, stop = [(init, st)], []
    for x in items:
        nxt = []
        for acc, s in cur:
            lost = []
            for v, s1 in gen_elem(I, fr, s.fork(), ("iter", (it[1][0], (x,)), it[2]), site, stack, lost):
                for r in step(acc, v, s1):
                    (stop if isinstance(r, Outcome) else nxt).append(r)
            nxt += [(acc, s1) for s1 in lost]
        cur = nxt
    return cur, stop


@model(I_ + "sum")
def it_sum(I, fr, st, args, m, site, stack, tys):
    rty = I.rty
    it = mk_iter(I, st, args[0])
    items = exactly(I, it)
    if items is not None:
        opt = rty.startswith(A.OPTION)

        def step(acc, v, s):
            if not opt:
                s.ev("assert", "overflow", "Add", (acc, v), site)
                return [(A.add_of((acc, v)), s)]
            out = []
            for s2, i, p in split(I, s, v, A.OPTION):
                if i == 0:
                    out.append(ret(NONE, s2))
                else:
                    s2.ev("assert", "overflow", "Add", (acc, p), site)
                    out.append((A.add_of((acc, p)), s2))
            return out
        cur, stop = step_through(I, fr, st, it, items, site, stack, ("int", 0), step)
        return [ret(some(a) if opt else a, s) for a, s in cur] + stop
    res = summarise(I, fr, st, it, site, stack, lambda x, s1: [(x, s1)])
    alts = list(dict.fromkeys(r[0] for r in res))
    if partial(it):
        alts = [T("opt", x) for x in alts]
    return A.add_of(tuple(T("sum", x) for x in alts)) if alts else ("int", 0)


@model(I_ + "count")
def it_count(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    if not [s for s in it[2] if s[0] not in ("map", "enum", "inspect")]:
        return I.length(it[1])
    return T("count", it)


@model(I_ + "for_each")
def it_for_each(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    extra = []
    items = exactly(I, it) if I.step_vecs else None
    if items is not None:
        cur, stop = step_through(I, fr, st, it, items, site, stack, UNIT, lambda acc, v, s: [(UNIT, o.st) if o.kind == "ret" else o for o in I.call_value(fr, s, args[1], [v], site, stack)])
        return [ret(UNIT, s) for _, s in cur] + stop

    def body(x, s1):
        out = []
        for o in I.call_value(fr, s1, args[1], [x], site, stack):
            if o.kind == "ret":
                out.append((o.value, o.st))
            else:
                extra.append(o)
        return out
    summarise(I, fr, st, it, site, stack, body, (extra,))
    return [ret(UNIT, st)] + extra


@model(I_ + "try_for_each")
def it_try_for_each(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    early = []
    items = exactly(I, it) if I.step_vecs else None
    if items is not None:
        opt = I.rty.startswith(A.OPTION)

        def step(acc, v, s):
            out = []
            for o in I.call_value(fr, s, args[1], [v], site, stack):
                if o.kind != "ret":
                    out.append(o)
                    continue
                for s2, i, p in split(I, o.st, o.value, A.OPTION if opt else A.RESULT):
                    out.append((UNIT, s2) if i == (1 if opt else 0) else ret(NONE if opt else err(p), s2))
            return out
        cur, stop = step_through(I, fr, st, it, items, site, stack, UNIT, step)
        return [ret(some(UNIT) if opt else ok(UNIT), s) for _, s in cur] + stop

    def body(x, s1):
        out = []
        for o in I.call_value(fr, s1, args[1], [x], site, stack):
            if o.kind != "ret":
                early.append(o)
                continue
            for s2, i, p in split(I, o.st, o.value, A.RESULT):
                if i == 0:
                    out.append((p, s2))
                else:
                    early.append(ret(err(p), s2))
        return out
    summarise(I, fr, st, it, site, stack, body, (early,))
    return [ret(ok(UNIT), st)] + early


@model(I_ + "fold")
def it_fold(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    init = args[1]
    items = exactly(I, it)
    if items is not None:
        cur, stop = step_through(I, fr, st, it, items, site, stack, init, lambda acc, v, s: [(o.value, o.st) if o.kind == "ret" else o for o in I.call_value(fr, s, args[2], [acc, v], site, stack)])
        return [ret(a, s) for a, s in cur] + stop
    I.next_fid += 1
    key = (("fold", I.next_fid), 0)
    extra = []
    kind = I.acc_kind(init)
    start = init
    if kind == "num":
        start = T("accn", "fold", str(I.next_fid))

    def body(x, s1):
        out = []
        for o in I.call_value(fr, s1, args[2], [start, x], site, stack):
            if o.kind == "ret":
                out.append((o.value, o.st))
            else:
                extra.append(o)
        return out
    res = summarise(I, fr, st, it, site, stack, body, (extra,))
    vals = [r[0] for r in res]
    v = None
    if kind in ("ts", "vec", "sbuf") and vals and all(x[0] == kind and x[1][:len(init[1])] == init[1] for x in vals):
        v = (kind, init[1] + (("rep", tuple(dict.fromkeys(x[1][len(init[1]):] for x in vals))),))
    elif kind == "num" and vals:
        ds = [I.num_delta(start, x) for x in vals]
        if all(d is not None for d in ds):
            v = A.add_of((init,) + tuple(T("sum", A.add_of(d)) for d in dict.fromkeys(ds) if d))
    if v is None:
        v = T("fold", init, ("arr", tuple(dict.fromkeys(vals))))
    return [ret(v, st)] + extra


@model(I_ + "try_fold")
def it_try_fold(I, fr, st, args, m, site, stack, tys):
    opt = I.rty.startswith(A.OPTION)
    adt, good, fail = (A.OPTION, 1, lambda p: NONE) if opt else (A.RESULT, 0, err)
    it = mk_iter(I, st, args[0])
    early = []
    init = args[1]
    items = exactly(I, it)
    if items is not None:
        def step(acc, v, s):
            out = []
            for o in I.call_value(fr, s, args[2], [acc, v], site, stack):
                if o.kind != "ret":
                    out.append(o)
                    continue
                for s2, i, p in split(I, o.st, o.value, adt):
                    out.append((p, s2) if i == good else ret(fail(p), s2))
            return out
        cur, stop = step_through(I, fr, st, it, items, site, stack, init, step)
        return [ret(some(a) if opt else ok(a), s) for a, s in cur] + stop
    start = init if I.acc_kind(init) in ("ts", "vec", "sbuf") else T("phi", "tryfold", site[0], init)

    def body(x, s1):
        out = []
        for o in I.call_value(fr, s1, args[2], [start, x], site, stack):
            if o.kind != "ret":
                early.append(o)
                continue
            for s2, i, p in split(I, o.st, o.value, adt):
                if i == good:
                    out.append((p, s2))
                else:
                    early.append(ret(fail(p), s2))
        return out
    res = summarise(I, fr, st, it, site, stack, body, (early,))
    vals = [r[0] for r in res]
    kind = I.acc_kind(init)
    if kind in ("ts", "vec", "sbuf") and vals and all(x[0] == kind and x[1][:len(init[1])] == init[1] for x in vals):
        v = (kind, init[1] + (("rep", tuple(dict.fromkeys(x[1][len(init[1]):] for x in vals))),))
    else:
        v = T("fold", init, ("arr", tuple(dict.fromkeys(vals))))
    return [ret(some(v) if opt else ok(v), st)] + early


def quant(name, early_val):
    def h(I, fr, st, args, m, site, stack, tys):
        it = mk_iter(I, st, args[0])
        early = []
        items = exactly(I, it) if I.step_vecs else None
        if items is not None:
            def step(acc, v, s):
                out = []
                for o in I.call_value(fr, s, args[1], [v], site, stack):
                    if o.kind != "ret":
                        out.append(o)
                        continue
                    for s2, b in boolfork(I, o.st, o.value):
                        out.append(ret(TRUE if early_val else FALSE, s2) if b == early_val else (acc, s2))
                return out
            cur, stop = step_through(I, fr, st, it, items, site, stack, UNIT, step)
            return [ret(FALSE if early_val else TRUE, s) for _, s in cur] + stop

        def body(x, s1):
            out = []
            for o in I.call_value(fr, s1, args[1], [x], site, stack):
                if o.kind != "ret":
                    early.append(o)
                    continue
                s2 = o.st.fork()
                if I.assume(s2, o.value, early_val):
                    early.append(ret(TRUE if early_val else FALSE, s2))
                s3 = o.st.fork()
                if I.assume(s3, o.value, not early_val):
                    out.append((UNIT, s3))
            return out
        summarise(I, fr, st, it, site, stack, body, (early,))
        return [ret(FALSE if early_val else TRUE, st)] + early
    return h


MODELS[I_ + "any"] = quant("any", True)
MODELS[I_ + "all"] = quant("all", False)


@model(I_ + "find")
def it_find(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    found = []
    items = exactly(I, it) if I.step_vecs else None
    if items is not None:
        def step(acc, v, s):
            out = []
            for o in I.call_value(fr, s, args[1], [v], site, stack):
                if o.kind != "ret":
                    out.append(o)
                    continue
                for s2, b in boolfork(I, o.st, o.value):
                    out.append(ret(some(v), s2) if b else (acc, s2))
            return out
        cur, stop = step_through(I, fr, st, it, items, site, stack, UNIT, step)
        return [ret(NONE, s) for _, s in cur] + stop

    def body(x, s1):
        out = []
        for o in I.call_value(fr, s1, args[1], [x], site, stack):
            if o.kind != "ret":
                found.append(o)
                continue
            s2 = o.st.fork()
            if I.assume(s2, o.value, True):
                found.append(ret(some(x), s2))
            s3 = o.st.fork()
            if I.assume(s3, o.value, False):
                out.append((UNIT, s3))
        return out
    summarise(I, fr, st, it, site, stack, body, (found,))
    return [ret(NONE, st)] + found


@model(I_ + "position")
def it_position(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    items = exactly(I, it)
    if items is not None and I.step_vecs and all(x[0] == "map" for x in it[2]):
        def step(k, v, s):
            out = []
            for o in I.call_value(fr, s, args[1], [v], site, stack):
                if o.kind != "ret":
                    out.append(o)
                    continue
                for s2, b in boolfork(I, o.st, o.value):
                    out.append(ret(some(k), s2) if b else (("int", k[1] + 1), s2))
            return out
        cur, stop = step_through(I, fr, st, it, items, site, stack, ("int", 0), step)
        return [ret(NONE, s) for _, s in cur] + stop
    r = it_find(I, fr, st, args, m, site, stack, tys)
    for o in r:
        if o.kind == "ret" and o.value[0] == "adt" and o.value[2] == 1:
            o.value = some(T("index", o.value[4][0]))
    return r


@model(I_ + "find_map")
def it_find_map(I, fr, st, args, m, site, stack, tys):
    it = mk_iter(I, st, args[0])
    found = []
    items = exactly(I, it) if I.step_vecs else None
    if items is not None:
        def step(acc, v, s):
            out = []
            for o in I.call_value(fr, s, args[1], [v], site, stack):
                if o.kind != "ret":
                    out.append(o)
                    continue
                for s2, i, p in split(I, o.st, o.value, A.OPTION):
                    out.append(ret(some(p), s2) if i == 1 else (acc, s2))
            return out
        cur, stop = step_through(I, fr, st, it, items, site, stack, UNIT, step)
        return [ret(NONE, s) for _, s in cur] + stop

    def body(x, s1):
        out = []
        for o in I.call_value(fr, s1, args[1], [x], site, stack):
            if o.kind != "ret":
                found.append(o)
                continue
            for s2, i, p in split(I, o.st, o.value, A.OPTION):
                if i == 1:
                    found.append(ret(some(p), s2))
                else:
                    out.append((UNIT, s2))
        return out
    summarise(I, fr, st, it, site, stack, body, (found,))
    return [ret(NONE, st)] + found


def selector(name):
    def h(I, fr, st, args, m, site, stack, tys):
        it = mk_iter(I, st, args[0])
        outs = []
        for v, s in gen_elem(I, fr, st.fork(), it, site, stack):
            outs.append(ret(some(T(name, v)), s))
        outs.append(ret(NONE, st))
        return outs
    return h


for n in ("max", "min", "last"):
    MODELS[I_ + n] = selector(n)


@model(I_ + "nth")
def it_nth(I, fr, st, args, m, site, stack, tys):
    return selector("nth")(I, fr, st, args[:1], m, site, stack, tys)


def literal_vec(v):
    """A vector known element by element."""
    return v[0] == "vec" and all(isinstance(x, tuple) and x[0] not in ("rep", "spread", "acc") for x in v[1])


@model("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove")
def vec_remove(I, fr, st, args, m, site, stack, tys):
    v, i = I.deref_read(st, args[0]), I.deref_read(st, args[1])
    if args[0][0] != "ref" or not literal_vec(v) or i[0] != "int" or not 0 <= i[1] < len(v[1]):
        return NotImplemented
    xs = list(v[1])
    x = xs[i[1]]
    if I.fname(m).endswith("swap_remove"):
        xs[i[1]] = xs[-1]
        xs.pop()
    else:
        del xs[i[1]]
    I.store(st, ("cell", args[0][1], args[0][2]), ("vec", tuple(xs)))
    return x


@model("core::slice::<impl [T]>::split_first", "core::slice::<impl [T]>::split_last")
def sl_split_first(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    if not (v[0] == "arr" or literal_vec(v)):
        return NotImplemented
    if not v[1]:
        return NONE
    if I.fname(m).endswith("split_first"):
        return some(("tup", (v[1][0], (v[0], v[1][1:]))))
    return some(("tup", (v[1][-1], (v[0], v[1][:-1]))))


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last", "core::slice::<impl [T]>::get", "alloc::vec::Vec::get")
def sl_first(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    n = I.fname(m).split("::")[-1]
    if (v[0] == "arr" or literal_vec(v)) and n in ("first", "last"):
        return some(v[1][0 if n == "first" else -1]) if v[1] else NONE
    if (v[0] == "arr" or literal_vec(v)) and n == "get" and args[1][0] == "int":
        return some(v[1][args[1][1]]) if args[1][1] < len(v[1]) else NONE
    if n == "get":
        e = T("idx", v, args[1])
        r = T("get", v, args[1])
        outs = []
        for s, i, p in split(I, st, r, A.OPTION):
            outs.append(ret(some(e) if i == 1 else NONE, s))
        return outs
    e = T("idx", v, ("int", 0 if n == "first" else -1))
    outs = []
    c = I.eq0(I.length(v))
    for s, b in boolfork(I, st, c):
        outs.append(ret(NONE if b else some(e), s))
    return outs


# ---- quote / token streams --------------------------------------------------
@model("proc_macro2::TokenStream::new")
def ts_new(I, fr, st, args, m, site, stack, tys):
    return ("ts", ())


def ts_push(I, st, r, toks, site):
    rr = r
    while rr[0] == "ref":
        v = I.read_lv(st, rr)
        if v[0] == "ref":
            rr = v
            continue
        if v[0] == "ts":
            I.store(st, ("cell", rr[1], rr[2]), ("ts", v[1] + tuple(toks)))
        else:
            st.ev("tokens", v, tuple(toks), site)
        return
    st.ev("tokens", I.lvterm(rr), tuple(toks), site)


PUNCT = {"colon": ":", "colon2": "::", "comma": ",", "dot": ".", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=", "eq": "=", "eq_eq": "==",
         "ne": "!=", "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "and": "&", "and_and": "&&", "or": "|", "or_or": "||",
         "add": "+", "add_eq": "+=", "sub": "-", "sub_eq": "-=", "star": "*", "mul_eq": "*=", "div": "/", "rem": "%", "semi": ";", "question": "?",
         "bang": "!", "pound": "#", "fat_arrow": "=>", "rarrow": "->", "larrow": "<-", "underscore": "_", "at": "@", "shl": "<<",
         "shr": ">>", "caret": "^", "tilde": "~", "or_eq": "|=", "and_eq": "&=", "shl_eq": "<<=", "shr_eq": ">>=", "dollar": "$"}


def mk_punct(p):
    def h(I, fr, st, args, m, site, stack, tys):
        ts_push(I, st, args[0], (p,), site)
        return UNIT
    return h


for k_, v_ in PUNCT.items():
    MODELS["quote::__private::push_" + k_] = mk_punct(v_)
    MODELS["quote::__private::push_" + k_ + "_spanned"] = (lambda f: lambda I, fr, st, args, m, site, stack, tys: f(I, fr, st, [args[0]], m, site, stack, tys))(MODELS["quote::__private::push_" + k_])


@model("quote::__private::push_ident")
def q_ident(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[1])
    ts_push(I, st, args[0], (v[1] if v[0] == "str" else ("hole", v),), site)
    return UNIT


@model("quote::__private::push_ident_spanned")
def q_ident_s(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[2])
    ts_push(I, st, args[0], (v[1] if v[0] == "str" else ("hole", v),), site)
    return UNIT


@model("quote::__private::push_lifetime")
def q_life(I, fr, st, args, m, site, stack, tys):
    ts_push(I, st, args[0], (args[1][1] if args[1][0] == "str" else ("hole", args[1]),), site)
    return UNIT


@model("quote::__private::parse")
def q_parse(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[1])
    ts_push(I, st, args[0], (v[1] if v[0] == "str" else ("hole", v),), site)
    return UNIT


def group(I, fr, st, args, m, site, stack, tys, k=0):
    d = I.deref_read(st, args[1 + k])
    inner = I.deref_read(st, args[2 + k])
    ts_push(I, st, args[0], (("grp", d[3] if d[0] == "adt" else "None", inner[1] if inner[0] == "ts" else (("hole", inner),)),), site)
    return UNIT


MODELS["quote::__private::push_group"] = group
MODELS["quote::__private::push_group_spanned"] = lambda *a: group(*a, k=1)


@model("quote::to_tokens::ToTokens::to_tokens")
def q_to_tokens(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    ts_push(I, st, args[1], value_tokens(v), site)
    return UNIT


def value_tokens(v):
    if v[0] == "ts":
        return v[1]
    if v[0] == "vec" or v[0] == "arr":
        return items_to_tokens(v[1])
    if v[0] == "adt" and v[1].endswith("RepInterp") and v[4]:
        return value_tokens(v[4][0])
    if v[0] == "adt" and v[1] == A.OPTION:
        return value_tokens(v[4][0]) if v[2] == 1 else ()
    return (("hole", v),)


@model("quote::to_tokens::ToTokens::into_token_stream", "quote::to_tokens::ToTokens::to_token_stream")
def q_into_ts(I, fr, st, args, m, site, stack, tys):
    return ("ts", value_tokens(I.deref_read(st, args[0])))


@model("quote::__private::ext::RepIteratorExt::quote_into_iter", "quote::__private::ext::RepToTokensExt::quote_into_iter",
       "quote::__private::ext::RepAsIteratorExt::quote_into_iter")
def q_into_iter(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    if v[0] == "iter":
        # materialise lazily: elements are produced by the stages
        items = as_items(I, fr, st, v, site, stack)
        return [ret(("tup", (("iter", ("vec", it), ()), T("hasiter"))), s) for it, s in items]
    if v[0] == "t" and "RepToTokensExt" in m["name"] and False:
        return ("tup", (("iter", v, ()), T("hasiter")))
    return ("tup", (("iter", v, ()), T("hasiter")))


@model("quote::__private::CheckHasIterator::check")
def q_check(I, fr, st, args, m, site, stack, tys):
    return UNIT


@model("core::ops::bit::BitOr::bitor")
def bitor(I, fr, st, args, m, site, stack, tys):
    a, b = I.deref_read(st, args[0]), I.deref_read(st, args[1])
    if is_t(a, "hasiter") or is_t(b, "hasiter"):
        return T("hasiter")
    return T("bin", "BitOr", a, b)


@model("quote::__private::mk_ident", "quote::format::mk_ident")
def mk_ident(I, fr, st, args, m, site, stack, tys):
    return T("ident", plain(I.deref_read(st, args[0])))


def plain(v):
    """A text that is known literally, as a string constant."""
    if v[0] == "sbuf":
        out = []
        for p in v[1]:
            if isinstance(p, tuple) and p[0] == "ph":
                x = p[2]
                if x[0] == "adt" and x[1].endswith("IdentFragmentAdapter") and x[4]:
                    x = x[4][0]
                x = plain(x)
                if x[0] not in ("str", "int"):
                    return v if x is p[2] else v[:1] + (tuple(("ph", "display", q[2][4][0]) if isinstance(q, tuple) and q[0] == "ph" and q[2][0] == "adt" and q[2][4]
                                                                 and q[2][1].endswith("IdentFragmentAdapter") else q for q in v[1]),)
                out.append(str(x[1]))
            elif isinstance(p, tuple) and p[0] == "lit":
                out.append(p[1])
            else:
                return v
        return ("str", "".join(out))
    return v


@model("proc_macro2::Ident::new")
def ident_new(I, fr, st, args, m, site, stack, tys):
    return T("ident", plain(I.deref_read(st, args[0])))


@model("proc_macro2::Ident::new_raw")
def ident_raw(I, fr, st, args, m, site, stack, tys):
    return T("rawident", I.deref_read(st, args[0]))


for n in ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128", "i128", "f64", "f32"):
    for suf in ("unsuffixed", "suffixed"):
        MODELS["proc_macro2::Literal::%s_%s" % (n, suf)] = lambda I, fr, st, args, m, site, stack, tys: T("literal", I.deref_read(st, args[0]))
MODELS["proc_macro2::Literal::string"] = lambda I, fr, st, args, m, site, stack, tys: T("literal", I.deref_read(st, args[0]))
MODELS["proc_macro2::Literal::byte_string"] = lambda I, fr, st, args, m, site, stack, tys: T("literal", I.deref_read(st, args[0]))
MODELS["proc_macro2::Span::call_site"] = lambda I, fr, st, args, m, site, stack, tys: T("span")


@model("core::ops::index::Index::index")
def index(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    i = I.deref_read(st, args[1])
    if v[0] == "arr" and i[0] == "int" and 0 <= i[1] < len(v[1]):
        return v[1][i[1]]
    if i[0] == "adt" and "RangeFull" in i[1]:
        return v
    return T("index_", v, i)


# bytes::Buf wrappers used by the runtime are modelled where needed (rules/runtime.py)


# ---- mabo_parser::punctuated: a non-empty list; that its iterators yield every element in order is decided by p_valid
@model("mabo_parser::punctuated::Punctuated::values")
def punct_values(I, fr, st, args, m, site, stack, tys):
    return ("iter", I.deref_read(st, args[0]), ())


@model("mabo_parser::punctuated::Punctuated::iter")
def punct_iter(I, fr, st, args, m, site, stack, tys):
    return ("iter", I.deref_read(st, args[0]), (("pairp",),))


@model("mabo_parser::punctuated::Punctuated::len")
def punct_len(I, fr, st, args, m, site, stack, tys):
    return I.length(I.deref_read(st, args[0]))


@model("core::mem::size_of")
def size_of(I, fr, st, args, m, site, stack, tys):
    n = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "usize": 8, "isize": 8, "f32": 4, "f64": 8, "char": 4}
    a = m.get("args") or []
    t = fr.fn.crate.rty(a[0]) if a and isinstance(a[0], int) else None
    return ("int", n[t["s"]]) if t and t["s"] in n else NotImplemented
