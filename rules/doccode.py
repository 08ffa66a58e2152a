"""The pages that the documentation generator writes for a schema, by interpreting it and its compiled templates on a literal schema."""
import html
import absint as A
import models as M
from rules import literal
from absint import T, is_t, show
from peg import PrintInterp, Unsure
from rules.gocode import Build
from rules.lsp import Undecided

CRATE = "mabo_doc"
ESC = "askama::filters::escape::"


RENDER = {}


def escaped(s):
    return "".join({"<": "&#60;", ">": "&#62;", "&": "&#38;", '"': "&#34;", "'": "&#39;"}.get(c, c) for c in s)


class PageInterp(PrintInterp):
    def __init__(self, db):
        super().__init__(db)
        self.opaque = lambda g: g.crate.name != CRATE
        self.max_depth = 160
        self.refn = self.reclo = 12
        self.templates = {}
        for f in db.fns.values():
            if f.crate.name == CRATE and f.item == "render_into_with_values" and (f.trait or "").endswith("Template"):
                self.templates[f.crate.ty(f.d["self"]).get("adt")] = f
        mm = self.models
        same = lambda I, fr, st, args, m, site, stack, tys: args[0]
        mm["askama::Template::render"] = self.m_render
        for n in ("mabo_meta::wire_size", "mabo_meta::WireSize::print", "mabo_meta::next_field_id"):
            mm[n] = {"wire_size": self.m_wire_size, "print": self.m_print_size, "next_field_id": self.m_next_id}[n.rsplit("::", 1)[1]]
        mm["askama::filters::ValidFilterInvocation::wrap"] = same
        for n in ("askama::filters::alloc::trim", "askama::filters::indent::indent"):
            mm[n] = lambda I, fr, st, args, m, site, stack, tys: A.ok(args[0])
        mm["askama::filters::escape::safe"] = lambda I, fr, st, args, m, site, stack, tys: A.ok(self.mk(ESC + "Safe", args[0]))
        mm["askama::filters::escape::AutoEscaper::new"] = lambda I, fr, st, args, m, site, stack, tys: self.mk(ESC + "AutoEscaper", args[0], args[1])
        mm["askama::filters::escape::AutoEscape::askama_auto_escape"] = self.m_escape
        mm["askama::filters::escape::WriteWritable::askama_write"] = self.m_write
        mm["askama::helpers::TemplateLoop::new"] = self.m_loop
        mm["askama::helpers::as_bool"] = lambda I, fr, st, args, m, site, stack, tys: self.deref_read(st, args[0])
        mm["comrak::markdown_to_html"] = self.m_markdown
        mm["std::path::Path::file_stem"] = self.m_stem
        mm["std::ffi::os_str::OsStr::to_str"] = lambda I, fr, st, args, m, site, stack, tys: A.some(self.deref_read(st, args[0])) if self.deref_read(st, args[0])[0] == "str" else NotImplemented
        literal.add(self)

    def mk(self, name, *xs):
        return ("adt", name, 0, name.rsplit("::", 1)[1], tuple(xs))

    def m_render(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        f = self.templates.get(v[1]) if v[0] == "adt" else None
        if f is None:
            raise Undecided("template %s" % show(v)[:60])
        self.next_fid += 1
        cell = (("page", self.next_fid), 0)
        st.cells[cell] = ("sbuf", ())
        outs = []
        for o in self.call_fn(f, [args[0], ("ref", cell, ()), T("values")], st, stack):
            if o.kind == "ret":
                b = o.st.cells.pop(cell)
                o = M.ret(A.ok(b), o.st) if o.value[0] == "adt" and o.value[3] == "Ok" else M.ret(o.value, o.st)
            outs.append(o)
        return outs

    def m_wire_size(self, I, fr, st, args, m, site, stack, tys):
        t = self.deref_read(st, args[0])
        if t[0] != "adt":
            return NotImplemented
        return A.NONE if t[3] == "External" else A.some(T("wire", t))

    def m_print_size(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if not is_t(v, "wire") or args[2] != ("int", 0):
            raise Undecided("size %s" % show(v)[:60])
        M.emit(I, fr, st, args[1], [("ph", "display", T("wiretext", v[2]))], site)
        return A.UNIT

    def m_next_id(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] != "adt":
            return NotImplemented
        fs = dict(zip([x[0] for x in self.db.variants(v[1])[0]["fields"]], v[4]))
        if fs["kind"][3] == "Unit":
            return A.NONE
        ids = [dict(zip([x[0] for x in self.db.variants(x[1])[0]["fields"]], x[4]))["id"][1] for x in fs["fields"][1]]
        return A.some(("int", max(ids, default=0) + 1))

    def m_escape(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] != "adt" or not v[1].endswith("AutoEscaper"):
            return NotImplemented
        a = [x for x in (m.get("args") or ()) if isinstance(x, int)]
        s = fr.fn.crate.tstr(a[0]) if a else ""
        if not s.startswith("&"):
            raise Undecided("escaping of %s" % s[:60])
        return A.ok(self.mk(ESC + "EscapeDisplay", v[4][0]) if s.startswith("&&") else v[4][0])

    def m_write(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        if v[0] != "adt" or not v[1].endswith("Writable"):
            return NotImplemented
        v = self.deref_read(st, v[4][0])
        esc = False
        while v[0] == "adt" and v[1].startswith(ESC) and v[3] in ("EscapeDisplay", "Safe"):
            esc = esc or v[3] == "EscapeDisplay"
            v = self.deref_read(st, v[4][0])
        outs = []
        for p, s in M.expand_piece(I, fr, st, ("ph", "display", v), site, stack):
            M.emit(I, fr, s, args[1], tuple(map(self.escape_piece, p)) if esc else p, site)
            outs += M.fmt_result(I, s)
        return outs

    def escape_piece(self, p):
        if p[0] == "lit":
            return ("lit", escaped(p[1]))
        if p[0] == "ph" and (p[2][0] == "int" or is_t(p[2], "number")):
            return p
        if p[0] == "ph" and p[1] == "display" and len(p) == 3 and p[2][0] in ("str", "sbuf", "adt"):
            return ("lit", escaped(text(p)))
        return ("ph", "display", T("escaped", p))

    def m_loop(self, I, fr, st, args, m, site, stack, tys):
        outs = []
        for items, s in M.as_items(I, fr, st, args[0], site, stack):
            if any(x[0] in ("rep", "spread") for x in items):
                raise Undecided("elements of a loop %s" % show(items)[:200])
            outs.append(M.ret(("iter", ("arr", tuple(("tup", (x, self.mk("askama::helpers::LoopItem", ("int", i), A.TRUE if i == len(items) - 1 else A.FALSE))) for i, x in enumerate(items))), ()), s))
        return outs

    def m_markdown(self, I, fr, st, args, m, site, stack, tys):
        return ("sbuf", (("ph", "display", T("markdown", self.deref_read(st, args[0]), self.deref_read(st, args[1]))),))

    def m_stem(self, I, fr, st, args, m, site, stack, tys):
        v = self.deref_read(st, args[0])
        return A.some(("str", v[1].rsplit("/", 1)[-1].rsplit(".", 1)[0])) if v[0] == "str" else NotImplemented


def text(v):
    """characters of a value; what comes from elsewhere is put in ⟨⟩"""
    if v[0] == "sbuf":
        return "".join(map(text, v[1]))
    if v[0] in ("lit", "str"):
        return v[1]
    if v[0] == "int":
        return str(v[1])
    if v[0] == "ph":
        if v[1] == "debug":
            return "⟨quoted:%s⟩" % html.escape(text(v[2]))
        if v[1] != "display" or len(v) > 3:
            raise Unsure("format %s" % show(v)[:60])
        return text(v[2])
    if v[0] == "vec":
        return ",".join(map(text, v[1]))
    if v[0] == "adt" and v[1].endswith("borrow::Cow"):
        return text(v[4][0])
    if is_t(v, "number"):
        return "⟨number:%s⟩" % v[2]
    if is_t(v, "markdown"):
        return "⟨%s:%s⟩" % ("unfiltered" if unfiltered(v[3]) else "markdown", html.escape(text(v[2])))
    if is_t(v, "wiretext"):
        return "⟨size:%s⟩" % show(v[2]).replace("⟨", "(").replace("⟩", ")")
    if is_t(v, "escaped"):
        return "⟨escaped:%s⟩" % text(v[2])
    raise Unsure("text %s" % show(v)[:80])


def unfiltered(o):
    """whether HTML in the text is kept as it is"""
    if is_t(o, "default"):
        return False
    if o[0] != "adt" or o[3] != "Options":
        raise Unsure("options %s" % show(o)[:80])
    for x in o[4]:
        if x[0] == "adt" and x[1].endswith("Render"):
            names = RENDER.get(x[1], ())
            d = dict(zip(names, x[4]))
            if not names:
                raise Unsure("options")
            return any(k.startswith("unsafe") and w == A.TRUE for k, w in d.items()) and d.get("escape") != A.TRUE
    return False


def schema_of(db, defs, lines, path):
    b = Build(db)
    v = b.schema(defs, lines)
    s = [a for a in db.adts if a.endswith("mabo_parser::Schema") or a == "mabo_parser::Schema"]
    if not s:
        raise Undecided("parsed schema")
    src = ("adt", s[0], 0, "Schema", tuple((A.NONE if path is None else A.some(("str", path))) if x[0] == "path" else T("source", x[0]) for x in db.variants(s[0])[0]["fields"]))
    names = [x[0] for x in db.variants(v[1])[0]["fields"]]
    return v[:4] + (tuple(src if n == "source" else x for n, x in zip(names, v[4])),)


def rendered(db, f, schema):
    for a in db.adts:
        if a.endswith("::Render") and a.startswith("comrak"):
            RENDER[a] = [x[0] for x in db.variants(a)[0]["fields"]]
    I = PageInterp(db)
    st = A.State()
    st.cells[("opts", 0)], st.cells[("schema", 0)] = T("opts"), schema
    return I, I.call_fn(f, [("ref", ("opts", 0), ()), ("ref", ("schema", 0), ())], st, ())
