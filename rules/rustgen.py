"""Shared set-up of the rules over mabo-build's generator functions (found by signature: one recursive function per output
part that turns a data type into tokens)."""
import re
from rules.common import *
from rules import tmpl
from rules.tmpl import Unknown

CRATE = "mabo_build"
TY = "mabo_compiler::simplify::Type"
FK = "mabo_compiler::simplify::FieldKind"
BT = "mabo_build::BytesType"
OPTS = T("arg", "opts")
MODES = ("encode", "decode", "size", "definition")


def role_of(s):
    s = re.sub(r"&(\w*\s*)?|'\w+\s*|mut ", "", s)
    if "simplify::Type<" in s or s.endswith("simplify::Type"):
        return "ty"
    if "TokenStream" in s:
        return "name"
    if s == "bool":
        return "root"
    if "Opts" in s:
        return "opts"
    return None


class Gen:
    def __init__(self, db):
        self.db = db
        self.fns = {f.name: f for f in db.fns.values() if f.crate.name == CRATE and f.kind in ("Fn", "AssocFn")}
        self.variants = [v["name"] for v in db.adts[TY]["variants"]]
        self.V = {n: i for i, n in enumerate(self.variants)}
        self.K = {v["name"]: i for i, v in enumerate(db.adts[FK]["variants"])}
        self.B = {v["name"]: i for i, v in enumerate(db.adts[BT]["variants"])}
        self.nfields = {v["name"]: len(v["fields"]) for v in db.adts[TY]["variants"]}
        self.data = {}
        self.roles = {}
        for m in MODES:
            f = self.find(m)
            if f is not None:
                self.data[m] = f
                self.roles[f.name] = (m, [role_of(f.local_ty(i + 1)["s"]) for i in range(f.argc)])
        names = set(self.roles)
        self.I = A.Interp(db, opaque=lambda f: f.name in names)
        self.I1 = {}

    def find(self, mode):
        f = self.fns.get("%s::%s::compile_data_type" % (CRATE, mode))
        if f is not None:
            return f
        cand = []
        for f in self.fns.values():
            if not f.name.startswith("%s::%s::" % (CRATE, mode)):
                continue
            if "TokenStream" not in f.local_ty(0)["s"]:
                continue
            roles = [role_of(f.local_ty(i + 1)["s"]) for i in range(f.argc)]
            if "ty" in roles and "opts" in roles:
                cand.append(f)
        # the recursive one
        rec = [f for f in cand if self.calls_itself(f)]
        return rec[0] if len(rec) == 1 else None

    def calls_itself(self, f):
        return any(f.id in self.db.mentions(g) for g in self.db.reach(f, {CRATE}).values())

    def namer(self, roles):
        return GenNamer(self, roles)

    def args(self, mode, ty=None, name=None, root=None):
        f = self.data[mode]
        vals = {"ty": ty if ty is not None else T("arg", "ty"), "opts": OPTS, "name": name if name is not None else T("arg", "name"), "root": root}
        return [vals[r] if vals.get(r) is not None else T("arg", "a%d" % i) for i, r in enumerate(self.roles[f.name][1])]

    def outcomes(self, fn, args, refine, depth=0):
        """Outcomes with results that are themselves calls for an already known variant resolved by following the call."""
        out = []
        for o in tmpl.run_case(self.I, fn, args, refine):
            v = o.value
            if o.kind == "ret" and is_t(v, "call") and v[2] in self.roles and depth < 4:
                m, roles = self.roles[v[2]]
                ty = dict(zip(roles, v[3])).get("ty")
                if ty in refine:
                    out += self.outcomes(self.data[m], list(v[3]), refine, depth + 1)
                    continue
            out.append(o)
        return out


class GenNamer(tmpl.Namer):
    def __init__(self, gen, roles):
        tmpl.Namer.__init__(self, dict({OPTS: "opts"}, **{}) | roles, {})
        self.gen = gen

    def __call__(self, t):
        if is_t(t, "call") and t[2] in self.gen.roles and t not in self.roles:
            m, roles = self.gen.roles[t[2]]
            parts = []
            for r, a in zip(roles, t[3]):
                if r == "opts":
                    if a != OPTS:
                        parts.append("with " + self(a))
                elif r == "root":
                    parts.append("root" if a == ("int", 1) else "nested" if a == ("int", 0) else "flag " + self(a))
                elif r == "name":
                    parts.append(self(a) if a[0] == "ts" else "`⟦%s⟧`" % self(a))
                else:
                    parts.append(self(a))
            return (m + "(" + " ".join(parts) + ")").replace("⟦", "‹").replace("⟧", "›")
        s = tmpl.Namer.__call__(self, t)
        return s
