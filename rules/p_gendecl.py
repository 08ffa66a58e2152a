"""M12: the declarations generated for every kind of definition."""
from rules.p_genproto import *

CONST_TY = {"Bool": "bool", "U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "U128": "u128", "I8": "i8", "I16": "i16", "I32": "i32", "I64": "i64",
            "I128": "i128", "F32": "f32", "F64": "f64", "String": "&str", "StringRef": "&str", "Bytes": "&[u8]", "BytesRef": "&[u8]"}


def fits(ty, lit):
    if ty == "Bool":
        return lit == "Bool"
    if ty in ("F32", "F64"):
        return lit == "Float"
    if ty in ("String", "StringRef"):
        return lit == "String"
    if ty in ("Bytes", "BytesRef"):
        return lit == "Bytes"
    return lit == "Int" and ty in CONST_TY


def run(db, R):
    C = start(db, R)
    if C is None:
        R.floor("cases", 20)
        return
    aggregate(C, R, ("type",))
    consts(C, R)
    simple(C, R, "TypeAlias", "alias", lambda g: {"alias": "%s pub type ⟦ident def.name⟧ %s = ⟦definition(def.target)⟧ ;" % (docs("def"), GEN if g else "")}, True)
    simple(C, R, "Module", "module", lambda g: {"module": "%s pub mod ⟦ident def.name⟧ { %s $( ⟦definitions of def.definitions[]⟧ )* }" % (docs("def"), USE)}, False)
    imports(C, R)
    R.floor("cases", 20)
    R.floor("generated items compared", 30)


def guarded(R, key, f):
    try:
        f()
    except (Unknown, A.Unsupported) as e:
        R.undec(key, str(e))


def simple(C, R, dn, label, want, with_generics):
    d = T("fld", C.de, dn, "0")
    for g in (False, True) if with_generics else (False,):
        def go():
            for o, flat, alts in C.run(dn, {}, generics_fact(d, g) if with_generics else {}):
                R.n("cases")
                if o == "panic":
                    R.v("%s:panic" % dn, "%s: the generator panics on a %s" % (C.entry.name, label))
                    continue
                check(C, R, dn, dn, alts, want(g), label)
                header(C, R, flat)
        guarded(R, dn, go)


def header(C, R, flat):
    """Traits must be in scope where `x.encode(w)`, `T::decode(r)` and `x.size()` are generated."""
    if flat != spec(USE):
        R.v("header", "%s (%s): the schema file starts with %s" % (C.entry.name, loc(C.entry), diff(flat, spec(USE))))


def imports(C, R):
    d = T("fld", C.de, "Import", "0")
    el = T("fld", d, "element")
    for has in (0, 1):
        def go():
            for o, flat, alts in C.run("Import", {el: has}, {}):
                R.n("cases")
                if o == "panic":
                    R.v("Import:panic", "%s: the generator panics on an import" % C.entry.name)
                    continue
                check(C, R, "Import:%s" % ("element" if has else "module"), "Import", alts,
                      {"import": "use super :: $( ⟦ident def.segments[]⟧ ) :: * %s ;" % (":: ⟦ident def.element.Some.0⟧" if has else "")}, "import")
                fixed = spec("use super :: $( ⟦ident def.segments[]⟧ ) :: *")
                if any(it[:len(fixed)] == fixed for a in alts for it in items_of(a)) and depthless(C):
                    R.v("import-depth", "%s (%s): an import is generated with one `super::` wherever it stands, and nothing tells the generator how deep the module is: "
                        "inside of a nested module the path is wrong" % (C.entry.name, loc(C.entry)))
        guarded(R, "Import", go)


def depthless(C):
    """Whether the recursion into modules passes on nothing but the options and the definition."""
    try:
        return any("⟦definitions of def.definitions[]⟧" in a for o, flat, alts in C.run("Module", {}, {}) for a in alts or [])
    except (Unknown, A.Unsupported):
        return False


def consts(C, R):
    d = T("fld", C.de, "Const", "0")
    lits = [v["name"] for v in C.db.adts[LIT]["variants"]]
    checked = validates_const(C.db)
    for ti, ty in enumerate(C.g.variants):
        for li, lit in enumerate(lits):
            ok = fits(ty, lit)

            def go():
                for o, flat, alts in C.run("Const", {T("fld", d, "ty"): ti, T("fld", d, "value"): li}, {}):
                    R.n("cases")
                    if not ok:
                        if not checked:
                            R.v("const-mismatch" if o != "panic" else "const-panic",
                                "%s (%s): a const whose value does not fit its type is accepted by the schema compiler, and the generator %s"
                                % (C.entry.name, loc(C.entry), "panics" if o == "panic" else "emits Rust code that does not compile"))
                        continue
                    if o == "panic":
                        R.v("const:%s:panic" % ty, "%s: the generator panics on a const of type %s" % (C.entry.name, ty))
                        continue
                    val = ("⟦def.value.%s.0⟧" if lit == "Bool" else "⟦lit def.value.%s.0⟧") % lit
                    check(C, R, "const:%s" % ty, "Const", alts, {"const": "%s pub const ⟦ident def.name⟧ : %s = %s ;" % (docs("def"), CONST_TY[ty], val)}, "const of type " + ty)
            guarded(R, "const:%s:%s" % (ty, lit), go)


def validates_const(db):
    """Whether anything reachable from the validation looks at the literal of a const."""
    ent = [f for f in db.fns.values() if f.name in ("mabo_compiler::validate_schema", "mabo_compiler::validate::schema")]
    if not ent:
        return False
    for f in db.reach(ent[0], {"mabo_compiler"}).values():
        if any("mabo_parser::Literal" in f.local_ty(i)["s"] for i in range(len(f.locals))):
            return True
    return False
