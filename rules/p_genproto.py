"""M11/M12: the items generated for every kind of definition."""
from rules.common import *
from rules.tmpl import Unknown, alpha, tidy, spec, diff, run_case, items_of, unrep, lex
from rules.rustgen import *

DEF = "mabo_compiler::simplify::Definition"
LIT = "mabo_compiler::simplify::Literal"
SCHEMA = T("arg", "schema")
B = "::mabo::buf::"
USE = "use ::mabo::buf::{Decode, Encode, Size} ;"
DERIVE = "#[derive(Clone, Debug, PartialEq)]"
GEN = "< $( ⟦ident def.generics[]⟧ , )* >"
BOUNDS = {"Encode": "::mabo::buf::Encode + ::mabo::buf::Size", "Decode": "::std::fmt::Debug + ::mabo::buf::Decode", "Size": "::mabo::buf::Size"}


def docs(of):
    return "$( # [ doc = ⟦fmt(' ' %s.comment[])⟧ ] )*" % of


def where(trait, g):
    return "where $( ⟦ident def.generics[]⟧ : %s , )*" % BOUNDS[trait] if g else ""


def pattern(kind):
    return {"Named": "{ $( ⟦ident f.name⟧ , )* }", "Unnamed": "( $( ⟦ident f.name⟧ , )* )", "Unit": ""}[kind]


def enc_fields(kind, opt):
    if kind == "Unit":
        return ""
    if opt:
        one = B + "encode_field_option(w, ::mabo::FieldId::new(⟦lit f.id⟧, ⟦encode(f.ty.Option.0 `v` root).0⟧), ⟦ident f.name⟧, |w, v| { ⟦encode(f.ty.Option.0 `v` root).1⟧ }) ;"
    else:
        one = B + "encode_field(w, ::mabo::FieldId::new(⟦lit f.id⟧, ⟦encode(f.ty `‹ident f.name›` root).0⟧), |w| { ⟦encode(f.ty `‹ident f.name›` root).1⟧ }) ;"
    return "$( %s )* %sencode_u32(w, %sEND_MARKER) ;" % (one, B, B)


def size_fields(kind, opt):
    if kind == "Unit":
        return ""
    if opt:
        one = B + "size_field_option(⟦lit f.id⟧, ⟦ident f.name⟧.as_ref(), |v| { ⟦size(f.ty.Option.0 `v`)⟧ })"
    else:
        one = B + "size_field(⟦lit f.id⟧, || { ⟦size(f.ty `‹ident f.name›`)⟧ })"
    return "$( %s + )* %sEND_MARKER_SIZE" % (one, B)


def dec_fields(kind, opt, ctor):
    if kind == "Unit":
        return "Ok(%s)" % ctor
    if opt:
        var = "let mut ⟦ident f.name⟧ : ⟦definition(f.ty)⟧ = None ;"
        arm = "⟦lit f.id⟧ => ⟦ident f.name⟧ = Some(⟦decode(f.ty.Option.0 root)⟧ ?) ,"
        val = "⟦ident f.name⟧ ,"
    else:
        var = "let mut ⟦ident f.name⟧ : Option<⟦definition(f.ty)⟧> = None ;"
        arm = "⟦lit f.id⟧ => ⟦ident f.name⟧ = Some(⟦decode(f.ty root)⟧ ?) ,"
        val = "%s ⟦ident f.name⟧.ok_or(%sError::MissingField { id: ⟦lit f.id⟧, name: %s }) ? ," % (
            "⟦ident f.name⟧ :" if kind == "Named" else "", B, "Some(⟦lit f.name⟧)" if kind == "Named" else "None")
    body = "%s { $( %s )* }" if kind == "Named" else "%s ( $( %s )* )"
    return ("$( %s )* loop { let id = %sdecode_id(r) ? ; match id.value { %sEND_MARKER => break , $( %s )* _ => %sdecode_skip(r, id.encoding) ? } } Ok(%s)"
            % (var, B, B, arm, B, body % (ctor, val)))


def decl_fields(kind, pub):
    if kind == "Named":
        return "{ $( %s %s ⟦ident f.name⟧ : ⟦definition(f.ty)⟧ , )* }" % (docs("f"), pub)
    if kind == "Unnamed":
        return "( $( %s ⟦definition(f.ty)⟧ , )* )" % pub
    return ""


def impl(trait, path, g, body):
    gi = GEN if g else ""
    return "impl %s %s for ⟦ident def.name⟧ %s %s { %s }" % (gi, path, gi, where(trait, g), body)


ENC_SIG = "fn encode(&self, w: &mut impl ::mabo::BufMut) { %s }"
DEC_SIG = "fn decode(r: &mut impl ::mabo::Buf) -> ::mabo::buf::Result<Self> { %s }"
SIZE_SIG = "fn size(&self) -> usize { %s }"


def struct_items(kind, opt, g):
    gi = GEN if g else ""
    return {
        "type": "%s %s pub struct ⟦ident def.name⟧ %s %s %s" % (docs("def"), DERIVE, gi, decl_fields(kind, "pub"), "" if kind == "Named" else ";"),
        "encode": impl("Encode", "::mabo::Encode", g, ENC_SIG % ("let Self %s = self ; %s" % (pattern(kind), enc_fields(kind, opt)))),
        "decode": impl("Decode", "::mabo::Decode", g, DEC_SIG % dec_fields(kind, opt, "Self")),
        "size": impl("Size", "::mabo::buf::Size", g, SIZE_SIG % ("let Self %s = self ; %s" % (pattern(kind), size_fields(kind, opt) or "0"))),
    }


def enum_items(kind, opt, g):
    gi = GEN if g else ""
    arm = "$( Self::⟦ident v.name⟧ %s => { %s } , )*"
    e = "%sencode_variant_id(w, ::mabo::VariantId::new(⟦lit v.id⟧)) ; %s" % (B, enc_fields(kind, opt))
    s = "%ssize_variant_id(⟦lit v.id⟧) %s" % (B, "+ " + size_fields(kind, opt) if kind != "Unit" else "")
    d = dec_fields(kind, opt, "Self::⟦ident v.name⟧")
    return {
        "type": "%s %s pub enum ⟦ident def.name⟧ %s { $( %s ⟦ident v.name⟧ %s , )* }" % (docs("def"), DERIVE, gi, docs("v"), decl_fields(kind, "")),
        "encode": impl("Encode", "::mabo::Encode", g, ENC_SIG % ("match self { %s }" % (arm % (pattern(kind), e)))),
        "decode": impl("Decode", "::mabo::Decode", g, DEC_SIG % ("match %sdecode_variant_id(r) ?.value { $( ⟦lit v.id⟧ => %s , )* id => Err(%sError::UnknownVariant(id)) }"
                                                                  % (B, d if kind == "Unit" else "{ %s }" % d, B))),
        "size": impl("Size", "::mabo::buf::Size", g, SIZE_SIG % ("match self { %s }" % (arm % (pattern(kind), s)))),
    }


def sort_of(toks):
    """What kind of item a token list is, for pairing it with the one that is required."""
    t = " ".join(toks)
    if " for ⟦ident def.name⟧" in t and toks[0] == "impl":
        for k, w in (("encode", ":: Encode for"), ("decode", ":: Decode for"), ("size", ":: Size for")):
            if w in t:
                return k
    return "type"


class Ctx:
    def __init__(self, db, R):
        self.db, self.R = db, R
        self.g = Gen(db)
        ent = [f for f in self.g.fns.values() if f.kind == "Fn" and "TokenStream" in f.local_ty(0)["s"]
               and any("simplify::Schema<" in f.local_ty(i + 1)["s"] for i in range(f.argc))]
        # the outermost one
        self.entry = None
        for f in ent:
            if not any(f.id in db.mentions(x) for x in ent if x is not f):
                self.entry = f
        self.D = {v["name"]: i for i, v in enumerate(db.adts[DEF]["variants"])}
        self.de = T("elem", T("fld", SCHEMA, "definitions"))
        self.I = self.g.I

    def args(self):
        f = self.entry
        return [OPTS if "Opts" in f.local_ty(i + 1)["s"] else SCHEMA if "Schema<" in f.local_ty(i + 1)["s"] else T("arg", "a%d" % i) for i in range(f.argc)]

    def roles(self, d):
        fe = T("elem", T("fld", T("fld", d, "fields"), "fields"))
        v = T("elem", T("fld", d, "variants"))
        return fe, v, T("elem", T("fld", T("fld", v, "fields"), "fields"))

    def run(self, dn, refine, facts):
        """[(tokens outside of the definitions, tokens per alternative of one definition)] per outcome."""
        d = T("fld", self.de, dn, "0")
        fe, v, vfe = self.roles(d)
        ref = {self.de: self.D[dn]}
        ref.update(refine)
        nm = DefNamer(self.g, {OPTS: "opts", d: "def", fe: "f", v: "v", vfe: "f", SCHEMA: "schema"})
        out = []
        for o in run_case(self.I, self.entry, self.args(), ref, facts):
            if o.kind == "panic":
                out.append(("panic", None, None))
                continue
            if o.kind != "ret" or o.value[0] != "ts":
                raise Unknown("result " + (show(o.value)[:100] if o.value else o.kind))
            flat, reps = unrep(o.value[1])
            out.append(("ret", tidy(nm.render(flat)), [tidy(nm.render(a)) for a in reps]))
        return out


class DefNamer(GenNamer):
    """Also names the recursive generation of the definitions in a module."""

    def __call__(self, t):
        if is_t(t, "call") and isinstance(t[2], str) and t not in self.roles:
            f = self.gen.fns.get(t[2])
            if f is not None and "TokenStream" in f.local_ty(0)["s"]:
                kinds = [f.local_ty(i + 1)["s"] for i in range(f.argc)]
                ds = [a for s, a in zip(kinds, t[3]) if "simplify::Definition<" in s]
                rest = [a for s, a in zip(kinds, t[3]) if "simplify::Definition<" not in s]
                if len(ds) == 1 and all(a == OPTS for a in rest):
                    return "definitions of " + self(ds[0])
        return GenNamer.__call__(self, t)


def check(C, R, key, what, got, want, label):
    """got: token lists of the alternatives; want: kind of item -> text."""
    need = {k: spec(t) for k, t in want.items()}
    for toks in got:
        have = [alpha(it) for it in items_of(toks)]
        seen = set()
        for it in have:
            k = sort_of(it) if len(need) > 1 else next(iter(need))
            seen.add(k)
            R.n("generated items compared")
            exp = need[k]
            if it != exp and it + [";"] != exp and it != exp + [";"]:
                R.v("%s:%s" % (key, k), "%s (%s): %s of %s: generates %s" % (C.entry.name, loc(C.entry), k, label, diff(it, exp)))
            elif R.counts["generated items compared"] % 60 == 1:
                R.sample("%s %s: %s" % (label, k, " ".join(it))[:700])
        for k in need:
            if k not in seen:
                R.v("%s:%s" % (key, k), "%s (%s): no %s is generated for %s" % (C.entry.name, loc(C.entry), {"type": "type"}.get(k, k + " implementation"), label))


def generics_fact(d, some):
    return {T("eq", ("int", 0), T("len", T("fld", d, "generics"))): not some}


def aggregate(C, R, only):
    """Struct and enum items; `only` selects the kinds of item that this property is about."""
    for dn in ("Struct", "Enum"):
        d = T("fld", C.de, dn, "0")
        fe, v, vfe = C.roles(d)
        fields = T("fld", d if dn == "Struct" else v, "fields")
        elem = fe if dn == "Struct" else vfe
        for kind, ki in C.g.K.items():
            for vi, tyname in enumerate(C.g.variants):
                for g in ((False, True) if tyname in ("U32", "Option") else (False,)):
                    if kind == "Unit" and tyname not in ("U32",):
                        continue
                    label = "%s %s with %s field%s" % (kind.lower(), dn.lower(), tyname, " and generics" if g else "")
                    key = "%s:%s:%s" % (dn, kind, "Option" if tyname == "Option" else "required")
                    try:
                        outs = C.run(dn, {T("fld", fields, "kind"): ki, T("fld", elem, "ty"): vi}, generics_fact(d, g))
                        want = (struct_items if dn == "Struct" else enum_items)(kind, tyname == "Option", g)
                        want = {k: t for k, t in want.items() if k in only}
                        for o, flat, alts in outs:
                            R.n("cases")
                            if o == "panic":
                                R.v(key + ":panic", "%s: no code for a %s: the generator panics" % (C.entry.name, label))
                                continue
                            alts = [sum([it for it in items_of(a) if sort_of(it) in only], []) for a in alts]
                            check(C, R, key, dn, alts, want, label)
                    except (Unknown, A.Unsupported) as e:
                        R.undec(key, "%s: %s" % (label, e))


def start(db, R):
    C = Ctx(db, R)
    if C.entry is None:
        R.undec("entry", "no function from a schema to tokens found in mabo_build")
        return None
    for f in db.reach(C.entry, {CRATE}).values():
        R.saw(f)
    return C


def run(db, R):
    C = start(db, R)
    if C is not None:
        aggregate(C, R, ("encode", "decode", "size"))
        hygiene(C, R)
    R.floor("cases", 20)
    R.floor("generated items compared", 60)


def hygiene(C, R):
    """Names that the emitted code binds itself in places where the user's field names are bound, too."""
    for dn in ("Struct",):
        d = T("fld", C.de, dn, "0")
        fe, v, vfe = C.roles(d)
        try:
            outs = C.run(dn, {T("fld", T("fld", d, "fields"), "kind"): C.g.K["Named"], T("fld", fe, "ty"): C.g.V["U32"]}, generics_fact(d, False))
        except (Unknown, A.Unsupported) as e:
            R.undec("hygiene", str(e))
            return
        for o, flat, alts in outs:
            for toks in alts or []:
                for it in items_of(toks):
                    k = sort_of(it)
                    for n in sorted(captured(it)):
                        R.v("hygiene:%s:%s" % (k, n), "%s (%s): the %s code binds `%s` itself: a field with that name changes its meaning and the generated code does not compile"
                            % (C.entry.name, loc(C.entry), k, n))


def captured(toks):
    """Template names that clash with a bare binding of a user-chosen name in the same function."""
    out = set()
    if not any(toks[i].startswith("⟦ident f.name") and toks[i - 1] not in (".", "::") for i in range(1, len(toks))):
        return out
    if "fn" not in toks:
        return out
    body = toks[toks.index("fn"):]
    for i, t in enumerate(body):
        if not (t.isidentifier() and t.islower()):
            continue
        # fn parameters and `let`s of the template that are used after the user's bindings
        if (body[i + 1:i + 2] == [":"] and body[i - 1] in ("(", ",") and "fn" in body[:i] and i < 14) or body[i - 1] == "let":
            if t not in ("self", "mut") and body.count(t) > 1:
                out.add(t)
    return out
