"""Shared by the rules about mabo-compiler: the accepting and rejecting paths of schema validation, and the functions that
walk a data type recursively."""
import absint as A
from absint import is_t, T, walk, show
from rules.common import loc, strip_views
from rules.trace import *

TY = "mabo_parser::Type"
DT = "mabo_parser::DataType"
DEF = "mabo_parser::Definition"
KINDS = ("Module", "Struct", "Enum", "TypeAlias", "Const", "Import")


def type_walkers(db, crate):
    """Functions of the crate that take a parsed type and (possibly through others) call themselves."""
    out = []
    for f in db.fns.values():
        if f.crate.name != crate or f.kind not in ("Fn", "AssocFn"):
            continue
        for i in range(1, f.argc + 1):
            s = f.local_ty(i)["s"]
            if (TY + "<" in s or s.endswith(TY) or DT + "<" in s or s.endswith(DT)) and s.startswith("&"):
                if recursive(db, f):
                    out.append((f, i - 1))
                break
    return out


def recursive(db, f):
    seen, work = set(), [f]
    while work:
        g = work.pop()
        for h in db.mentions(g):
            if h == f.id:
                return True
            hf = db.fns.get(h)
            if hf is not None and h not in seen and hf.crate.name == f.crate.name:
                seen.add(h)
                work.append(hf)
    return False


def split_result(outs):
    """(accepting traces, rejecting traces); a result that is returned as it came from a callee counts as both."""
    good, bad = [], []
    for o in outs:
        if o.kind != "ret":
            bad.append((list(o.events), o))
            continue
        v = o.value
        ev = list(o.events)
        if v[0] == "adt" and v[1] == A.RESULT:
            (good if v[2] == 0 else bad).append((ev, o))
        elif is_t(v):
            good.append((ev + [("is", v, "Ok")], o))
            bad.append((ev + [("is", v, "Err")], o))
        else:
            good.append((ev, o))
    return good, bad


def find_fn(db, name):
    return next((f for f in db.fns.values() if f.name == name and f.kind in ("Fn", "AssocFn")), None)


def nested_types(db):
    """{variant: [(steps to the nested type(s), term of the nested type)]} of DataType, read from its declaration."""
    out = {}

    def of(v):
        t = fld(v, "value")
        res = {}
        for var in db.variants(DT):
            cr = db.adts[DT]["crate"]
            l = []
            for name, ty, _ in var["fields"]:
                s = cr.tstr(ty)
                x = fld(t, var["name"], name)
                if "punctuated::Punctuated<" in s and TY + "<" in s:
                    l.append(([("each", x)], elem(x)))
                elif "ExternalType" in s:
                    g = fld(fld(x, "generics"), "Some", "0")
                    l.append(([("when", fld(x, "generics"), "Some"), ("each", g)], elem(g)))
                elif TY + "<" in s:
                    l.append(([], x))
            res[var["name"]] = l
        return res
    return of


def closure(I, a):
    """The closure an argument stands for, also if it was lent out before; otherwise the argument as it is."""
    if a[0] == "ref":
        a = I.deref_read(A.State(), a)
    b = a
    while is_t(b, "phi", "mut", "deref"):
        b = b[4] if b[1] == "phi" else b[2]
    return b if b[0] == "clo" else a
