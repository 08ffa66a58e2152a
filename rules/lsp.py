"""Shared by the rules about the language server: its files, texts, positions and messages as the analysis sees them."""
import absint as A
import models as M
import peg as P
from absint import is_t, T, walk, show, some, ok
from models import ret

CRATE = "mabo_lsp"
FILE_FIELDS = ("rope", "index", "content", "schema", "simplified")


class Undecided(Exception):
    pass


def level(v):
    if isinstance(v, tuple) and v and v[0] == "adt" and v[1] in ("log::Level", "log::LevelFilter"):
        return v[2] + (1 if v[1] == "log::Level" else 0)
    return None


class LspInterp(P.GenInterp):
    """Nothing is logged, ropes and the self-referencing file are values, everything outside the server is opaque."""

    def __init__(self, db, opaque=None, models=None, **kw):
        base = lambda g: g.crate.name != CRATE or "ouroboros" in g.id or compiles(g)
        ms = dict(MODELS)
        for f in db.fns.values():
            if f.crate.name == CRATE and "ouroboros" in f.id and f.kind == "AssocFn":
                own = f.name.rsplit("::", 2)[1]
                if f.item == "into_heads":
                    ms[f.name] = into_heads
                elif f.item == "build" and own == "FileBuilder":
                    ms[f.name] = build
                elif f.item == "new" and own == "File":
                    ms[f.name] = new_file
                elif f.item.startswith("borrow_"):
                    ms[f.name] = borrow
        ms.update(models or {})
        super().__init__(db, opaque=(lambda g: base(g) or opaque(g)) if opaque else base, models=ms, **kw)
        self.stepping = self.step_vecs = True
        self.max_steps = 200000
        for n in ("core::convert::Into::into", "core::convert::From::from", "alloc::string::ToString::to_string"):
            self.models[n] = to_text(self.models.get(n))
        self.builds = []

    def lt(self, a, b):
        x, y = level(a), level(b)
        if x is not None and y is not None:
            return A.TRUE if x < y else A.FALSE
        return super().lt(a, b)


def compiles(g):
    """The function that turns a text into a checked schema or a diagnostic."""
    return g.crate.name == CRATE and g.kind == "Fn" and g.local_ty(0)["s"].startswith("core::result::Result<mabo_parser::Schema<")


MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


MODELS["log::max_level"] = lambda I, fr, st, args, m, site, stack, tys: ("adt", "log::LevelFilter", 0, "Off", ())
MODELS["std::time::Instant::now"] = lambda I, fr, st, args, m, site, stack, tys: T("now")


def text_of(r):
    if is_t(r, "rope"):
        return r[2]
    return T("text", r)


def as_rope(s):
    return s[2] if is_t(s, "text") else T("rope", s)


def sub(r, off):
    """A character position in a rope that was only changed behind that position is the one in the rope before."""
    while is_t(r, "cut", "ins") and is_t(r[3], "b2c") and r[3] == T("b2c", r[2], off):
        r = r[2]
    return T("b2c", r, off)


@model("ropey::rope::Rope::from_str", "ropey::Rope::from_str")
def rope_from(I, fr, st, args, m, site, stack, tys):
    return as_rope(plain(I.deref_read(st, args[0])))


def plain(v):
    while is_t(v, "call") and isinstance(v[2], str) and len(v[3]) == 1 and v[2].rsplit("::", 1)[-1] in (
            "into_boxed_str", "into_string", "as_str", "to_owned", "to_string", "clone", "as_ref", "deref", "into", "from", "borrow"):
        v = v[3][0]
    return v


def to_text(base):
    def h(I, fr, st, args, m, site, stack, tys):
        s = (tys[0] or {}).get("s", "") if tys else ""
        if "ropey::" in s:
            return text_of(I.deref_read(st, args[0]))
        return base(I, fr, st, args, m, site, stack, tys) if base else NotImplemented
    return h


@model("ropey::rope::Rope::byte_to_char")
def b2c(I, fr, st, args, m, site, stack, tys):
    return sub(I.deref_read(st, args[0]), plain(I.deref_read(st, args[1])))


@model("ropey::rope::Rope::remove")
def cut(I, fr, st, args, m, site, stack, tys):
    r = args[1]
    r = I.deref_read(st, r)
    if r[0] != "adt" or not r[1].endswith("::Range") or args[0][0] not in ("ref", "t"):
        return NotImplemented
    old = I.deref_read(st, args[0])
    put(I, st, args[0], T("cut", old, r[4][0], r[4][1]))
    return A.UNIT


def put(I, st, r, v):
    if r[0] == "ref":
        I.store(st, ("cell", r[1], r[2]), v)
    else:
        st.omem[I.lvterm(r)] = v


@model("ropey::rope::Rope::insert")
def insert(I, fr, st, args, m, site, stack, tys):
    if args[0][0] not in ("ref", "t"):
        return NotImplemented
    old = I.deref_read(st, args[0])
    put(I, st, args[0], T("ins", old, args[1], plain(I.deref_read(st, args[2]))))
    return A.UNIT


def into_heads(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    ad = next(a for a in I.db.adts if a.startswith(CRATE) and a.endswith("::Heads"))
    names = [f[0] for f in I.db.variants(ad)[0]["fields"]]
    return ("adt", ad, 0, "Heads", tuple(part(v, n) for n in names))


def part(v, n):
    if v[0] == "file":
        return v[1][FILE_FIELDS.index(n)]
    return T("fld", v, n)


def borrow(I, fr, st, args, m, site, stack, tys):
    n = I.fname(m).rsplit("borrow_", 1)[1] if "borrow_" in I.fname(m) else m["method"][7:]
    return part(I.deref_read(st, args[0]), n)


def build(I, fr, st, args, m, site, stack, tys):
    b = I.deref_read(st, args[0])
    if b[0] != "adt":
        return NotImplemented
    names = [f[0] for f in I.db.variants(b[1])[0]["fields"]]
    d = dict(zip(names, b[4]))
    return make(I, fr, st, d["rope"], d["index"], d["content"], d["schema_builder"], d["simplified_builder"], site, stack)


def new_file(I, fr, st, args, m, site, stack, tys):
    return make(I, fr, st, *args[:5], site, stack)


def make(I, fr, st, rope, index, content, sb, pb, site, stack):
    rope, index, content = (I.deref_read(st, x) for x in (rope, index, content))
    content = plain(content)
    outs = []
    for o in I.call_value(fr, st, sb, [index, content], site, stack):
        if o.kind != "ret":
            outs.append(o)
            continue
        sch = o.value
        for p in I.call_value(fr, o.st, pb, [sch], site, stack):
            if p.kind == "ret":
                p.value = ("file", (rope, index, content, sch, p.value))
            outs.append(p)
    return outs


def file_parts(v):
    return dict(zip(FILE_FIELDS, v[1]))


def adt(db, suffix, **fields):
    """A literal value of a struct: fields that are not given are unknown."""
    c = [a for a in db.adts if a == suffix or a.endswith("::" + suffix)]
    if len(c) != 1:
        raise Undecided("type %s" % suffix)
    return ("adt", c[0], 0, db.variants(c[0])[0]["name"],
            tuple(fields.get(f[0], T("arg", suffix + "." + f[0])) for f in db.variants(c[0])[0]["fields"]))


def get(db, v, name):
    if v[0] != "adt":
        return T("fld", v, name)
    for f, x in zip(db.variants(v[1])[v[2]]["fields"], v[4]):
        if f[0] == name:
            return x
    raise Undecided("field %s of %s" % (name, v[1]))


def handlers(db, params):
    """Functions of the server that handle one kind of message: those with a parameter of that type."""
    return [f for f in db.fns.values() if f.crate.name == CRATE and f.kind in ("Fn", "AssocFn") and f.argc == 2
            and f.local_ty(2)["s"] == params and "GlobalState" in f.local_ty(1)["s"]]


# ---- positions: what the client says about the text is assumed to exist in it
def args_of(I, st, args):
    return [plain(I.deref_read(st, a)) for a in args]


MODELS["line_index::LineIndex::new"] = lambda I, fr, st, args, m, site, stack, tys: T("lines", *args_of(I, st, args))
MODELS["line_index::LineIndex::to_utf8"] = lambda I, fr, st, args, m, site, stack, tys: some(T("narrow", *args_of(I, st, args)))
MODELS["line_index::LineIndex::to_wide"] = lambda I, fr, st, args, m, site, stack, tys: some(T("wide", *args_of(I, st, args)))
MODELS["line_index::LineIndex::offset"] = lambda I, fr, st, args, m, site, stack, tys: some(T("offset", *args_of(I, st, args)))
MODELS["line_index::LineIndex::line_col"] = lambda I, fr, st, args, m, site, stack, tys: T("linecol", *args_of(I, st, args))
MODELS["line_index::LineIndex::try_line_col"] = lambda I, fr, st, args, m, site, stack, tys: some(T("linecol", *args_of(I, st, args)))
MODELS["text_size::size::TextSize::new"] = lambda I, fr, st, args, m, site, stack, tys: args[0]
MODELS["text_size::range::TextRange::new"] = lambda I, fr, st, args, m, site, stack, tys: ("tup", tuple(args_of(I, st, args)))


@model("text_size::range::TextRange::start", "text_size::range::TextRange::end")
def tr_part(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    return v[1][0 if I.fname(m).endswith("start") else 1] if v[0] == "tup" else NotImplemented


@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(I, fr, st, args, m, site, stack, tys):
    v = I.deref_read(st, args[0])
    return ok(v) if any(is_t(u, "offset", "linecol") for u in walk(v)) or "TextSize" in I.rty or is_t(v) else NotImplemented


# ---- queues
VD = "alloc::collections::vec_deque::VecDeque::"
MODELS[VD + "new"] = MODELS[VD + "with_capacity"] = lambda I, fr, st, args, m, site, stack, tys: ("vec", ())


@model(VD + "push_back", VD + "push_front", VD + "pop_front", VD + "pop_back", VD + "is_empty", VD + "len")
def deque(I, fr, st, args, m, site, stack, tys):
    v, n = I.deref_read(st, args[0]), I.fname(m).rsplit("::", 1)[1]
    if not M.literal_vec(v):
        return NotImplemented
    if n == "is_empty":
        return A.FALSE if v[1] else A.TRUE
    if n == "len":
        return ("int", len(v[1]))
    if args[0][0] not in ("ref", "t"):
        return NotImplemented
    if n.startswith("push"):
        put(I, st, args[0], ("vec", v[1] + (args[1],) if n == "push_back" else (args[1],) + v[1]))
        return A.UNIT
    if not v[1]:
        return A.NONE
    x, rest = (v[1][0], v[1][1:]) if n == "pop_front" else (v[1][-1], v[1][:-1])
    put(I, st, args[0], ("vec", rest))
    return some(x)


# ---- the connection is up
MODELS["crossbeam_channel::channel::Sender::send_timeout"] = MODELS["crossbeam_channel::channel::Sender::send"] = lambda I, fr, st, args, m, site, stack, tys: sent(I, st, args, site)


def sent(I, st, args, site):
    a = args_of(I, st, args)
    st.ev("call", "send", tuple(a), ok(A.UNIT), site)
    return ok(A.UNIT)


@model("lsp_server::msg::Notification::new")
def notification(I, fr, st, args, m, site, stack, tys):
    return T("notification", *args_of(I, st, args))
