"""M14: schema validation rejects exactly the schemas that reuse an id or a name, or leave a type parameter unused."""
from rules.compiler import *
from rules.evalt import ev, points

MIN_ID, MAX_ID = 1, 2 ** 29 - 1     # 0 ends a struct on the wire, the upper 3 bits hold the encoding

ID_TY = "mabo_parser::Id"


def run(db, R):
    f = find_fn(db, "mabo_compiler::validate::schema")
    R.floor("obligations", 20)
    R.floor("rejections explained", 10)
    if f is None:
        return
    R.saw(f)
    W = type_walkers(db, "mabo_compiler")
    wid = {w.id for w, _ in W}
    I = A.Interp(db, opaque=lambda g: g.id in wid)
    try:
        outs = I.run(f, [T("arg", "value")])
    except A.Unsupported as e:
        R.undec(f.name, str(e))
        return
    for v in I.visited:
        R.saw(v)
    good, bad = split_result(outs)
    C = Checker(R, I, f, good)
    V = T("arg", "value")
    top = fld(V, "definitions")
    inner = fld(fld(elem(top), "Module", "0"), "definitions")
    scopes = [("schema", [], top), ("module", [("each", top), ("when", elem(top), "Module")], inner)]
    for label, pre, defs in scopes:
        for k in KINDS:
            d = fld(elem(defs), k, "0")
            if k == "Import":
                el = fld(d, "element")
                C.unique("name:%s:Import" % label, "the name of an imported element in a %s" % label,
                         pre + [("each", defs), ("when", elem(defs), k), ("when", el, "Some")], {"plain": fld(fld(el, "Some", "0"), "1")}, "name")
                C.unique("name:%s:ImportModule" % label, "the last segment of an import in a %s" % label,
                         pre + [("each", defs), ("when", elem(defs), k), ("when", el, "None")], {"last": fld(d, "segments")}, "name")
            else:
                C.unique("name:%s:%s" % (label, k), "the name of a %s in a %s" % (k, label), pre + [("each", defs), ("when", elem(defs), k)],
                         {"plain": fld(d, "name")}, "name")
    # nested modules are validated like their parent
    C.recursion("nested", [("each", top), ("when", elem(top), "Module"), ("each", inner)], elem(inner))
    S, E = fld(elem(top), "Struct", "0"), fld(elem(top), "Enum", "0")
    sp = [("each", top), ("when", elem(top), "Struct")]
    ep = [("each", top), ("when", elem(top), "Enum")]
    vs = fld(E, "variants")
    v = elem(vs)
    C.unique("name:variant", "the name of an enum variant", ep + [("each", vs)], {"plain": fld(v, "name")}, "name")
    C.unique("id:variant", "the id of an enum variant", ep + [("each", vs)], {"id": v}, "id")
    for label, pre, fields in (("struct", sp, fld(S, "fields")), ("variant", ep + [("each", vs)], fld(v, "fields"))):
        n = fld(fields, "Named", "1")
        u = fld(fields, "Unnamed", "1")
        C.unique("name:%s-field" % label, "the name of a %s field" % label, pre + [("when", fields, "Named"), ("each", n)], {"plain": fld(elem(n), "name")}, "name")
        C.unique("id:%s-named" % label, "the id of a named %s field" % label, pre + [("when", fields, "Named"), ("each", n)], {"id": elem(n)}, "id")
        C.unique("id:%s-unnamed" % label, "the id of an unnamed %s field" % label, pre + [("when", fields, "Unnamed"), ("each", u)], {"id": elem(u)}, "id")
        C.range("range:%s-named" % label, "a named %s field" % label, pre + [("when", fields, "Named"), ("each", n)], elem(n))
        C.range("range:%s-unnamed" % label, "an unnamed %s field" % label, pre + [("when", fields, "Unnamed"), ("each", u)], elem(u))
    for label, pre, d in (("struct", sp, S), ("enum", ep, E)):
        g = fld(fld(fld(d, "generics"), "Some", "0"), "types")
        C.unique("generic:%s" % label, "the name of a %s type parameter" % label, pre + [("when", fld(d, "generics"), "Some"), ("each", g)], {"plain": elem(g)}, "name")
        C.leftover("unused:%s" % label, pre + [("when", fld(d, "generics"), "Some")], g, label)
    C.usage(db, W)
    C.rejections(bad)
    C.carry()


class Checker:
    def __init__(self, R, I, f, good):
        self.R, self.I, self.f = R, I, f
        self.good = [g[0] for g in good]
        self.all = [e for g in self.good for e in flat(g)]
        self.keys = {}          # term -> label of everything that must be unique
        self.idpaths = {}
        self.seen_members = membership(self.all)
        self.uses = {}          # counter -> {derived id: explicit ids it goes with}

    def key_is(self, k, want, cs):
        """Does the tested key stand for what has to be unique? True / False / None (not understood)."""
        if "plain" in want:
            return k == fld(want["plain"], "value")
        if "last" in want:
            s = want["last"]
            return k in (fld(T("idx", s, ("int", -1)), "value"),) or (is_t(k, "fld") and k[-1] == "value" and is_t(k[2]) and k[2][1] in ("last", "idx") and mentions(k, s) and not mentions(k, ("int", 0)))
        e = want["id"]
        st = cs.get(fld(e, "id"))
        ex = fld(fld(fld(e, "id"), "Some", "0"), "value")
        if st == "Some":
            return k == ex
        if st == "None":
            return derived_id(k, ex, self.uses)
        return False

    def unique(self, key, what, steps, want, kind):
        R = self.R
        R.n("obligations")
        why = []
        wterm = want.get("plain") or want.get("last") or want.get("id")
        self.keys[key] = want

        def check(events, cs):
            if "last" in want:
                # an empty path has no name
                if any(is_t(t, "eq") and v is True and t[2] == ("int", 0) and mentions(t, want["last"]) for t, v in cs.items() if isinstance(t, tuple)):
                    return True
            for k, m, new in membership(events):
                if new and self.key_is(k, want, cs):
                    n = carried_over(m)
                    if n == 1:
                        return True
                    why.append("the set of names/ids seen so far is created anew for every element" if n == 0 else "the set of names/ids seen so far is shared with other scopes")
            return False
        if all(satisfied(g, steps + [("check", check)]) for g in self.good):
            R.sample("%s: tested to be new in every accepted schema" % what)
            return
        if key.startswith("name:module:") and self.handed_on(steps):
            return
        domain = [s[1] for s in steps if s[0] == "each"][-1]
        near = [k for k, m, new in self.seen_members if mentions(k, wterm)]
        if not near and self.foreign(domain, wterm):
            R.undec(key, "uniqueness of %s is tested in a way the rule does not know" % what)
            return
        text = why[0] if why else ("it is not compared for some of them" if near else "it is never compared with the others")
        others = [k for k in near if not self.key_is(k, want, {fld(want.get("id", A.UNIT), "id"): "Some"} if "id" in want else {})
                  and not (is_t(k, "phi"))]
        if others and not why:
            text = "the compared key is %s" % show(others[0])[:120]
        R.v(key, "%s (%s): a schema is accepted although %s is used twice: %s" % (self.f.name, loc(self.f), what, text))

    def id_terms(self, e, cs):
        ex = fld(fld(fld(e, "id"), "Some", "0"), "value")
        st = cs.get(fld(e, "id"))
        if st == "Some":
            return [ex]
        if st == "None":
            l = []
            for t in cs:
                for w in walk(t):
                    if is_t(w) and w not in l and derived_id(w, ex, self.uses):
                        l.append(w)
            return l
        return []

    def range(self, key, what, steps, e):
        self.R.n("obligations")
        bad = set()

        def check(events, cs):
            for x in self.id_terms(e, cs):
                c = counter_of(x)
                conds = [(t, v) for t, v in cs.items() if isinstance(t, tuple) and is_t(t) and mentions(t, c or x)]
                fine = True
                for p in points([t for t, _ in conds], (MIN_ID - 1, MAX_ID, MAX_ID + 1)):
                    env = {x: p}
                    if c is not None:
                        # a derived id is at least 1 (see `counters`)
                        at = [q for q in (p - 1, p, p + 1) if ev(x, {c: q}) == p]
                        if p < MIN_ID or not at:
                            continue
                        env = {c: at[0]}
                    if MIN_ID <= p <= MAX_ID:
                        continue
                    got = [(ev(t, env), v) for t, v in conds]
                    if any(g is not None and bool(g) != bool(v) for g, v in got):
                        continue
                    fine = False
                    bad.add(p if not [1 for (g, v), (t, _) in zip(got, conds) if g is None and not is_membership(t)] else None)
                    break
                if fine:
                    return True
            return False
        if all(satisfied(g, steps + [("check", check)]) for g in self.good):
            self.R.sample("the id of %s is in %d..=%d in every accepted schema" % (what, MIN_ID, MAX_ID))
            return
        if None in bad:
            self.R.undec(key, "a condition on the id of %s is not understood" % what)
        else:
            p = min(bad) if bad else 0
            self.R.v(key, "%s (%s): a schema is accepted although the id of %s is %d, which %s" % (self.f.name, loc(self.f), what, p,
                     "ends the struct on the wire" if p == 0 else "does not fit the field id of the wire format"))

    def foreign(self, coll, term):
        """Is something done with these elements which the rule does not understand?"""
        for e in self.all:
            if e[0] == "call":
                n = e[1] if isinstance(e[1], str) else "?"
                if any(mentions(a, coll) or mentions(a, term) for a in e[2]) and not n.startswith(("std::collections", "mabo_parser")) and "with_capacity" not in n:
                    if n.startswith(("core::", "alloc::")) and not any(x in n for x in ("sort", "dedup", "windows", "chunk", "eq", "cmp", "partition", "binary_search")):
                        continue
                    if n in self.walker_names:
                        continue
                    return True
            elif e[0] == "cond" and is_t(e[1], "eq", "ne") and mentions(e[1], term):
                return True
        return False

    @property
    def walker_names(self):
        return {f.name for f, _ in type_walkers(self.I.db, "mabo_compiler")}

    def handed_on(self, steps):
        """Is the nested module as a whole given to the recursion? Then it is treated as its parent is."""
        i = max(j for j, s in enumerate(steps) if s[0] == "each")
        defs = steps[i][1]
        return all(satisfied(g, steps[:i] + [("check", lambda events, cs: any(
            is_t(t, "call") and v == "Ok" and any(a == defs or a == defs[2] for a in t[3]) for t, v in cs.items()))]) for g in self.good)

    def recursion(self, key, steps, x):
        self.R.n("obligations")

        def check(events, cs):
            for t, v in cs.items():
                if is_t(t, "call") and v == "Ok" and t[3] and any(a == x for a in t[3]):
                    return True
            return False
        if all(satisfied(g, steps + [("check", check)]) for g in self.good):
            return
        if self.handed_on(steps):
            return
        self.R.v(key, "%s (%s): definitions inside a nested module are accepted without being validated" % (self.f.name, loc(self.f)))

    def leftover(self, key, steps, g, label):
        """Accepting paths drain a collection of all type parameters (from which used ones were taken out)."""
        self.R.n("obligations")

        def check(events, cs):
            held = set()

            def holds(w):
                return w in held or is_t(w, "collect") and mentions(w, elem(g))
            for i, e in enumerate(events):
                if e[0] == "loop":
                    # filled one by one: every iteration over the parameters inserts
                    alts = [{strip_views(x[2][0]) for x in flat(a) if x[0] == "call" and isinstance(x[1], str) and x[1].rsplit("::", 1)[-1] in ("insert", "push")
                             and len(x[2]) > 1 and any(mentions(y, elem(g)) for y in x[2][1:])} for a in e[2]]
                    if alts and alternatives(events, i)[1]:
                        held |= set.intersection(*alts)
                if e[0] in ("done", "is", "cond") and any(holds(w) for w in walk(e[1])):
                    return True
            return any(e[0] in ("done", "is", "cond") and any(holds(w) for w in walk(e[1])) for e in flat(events))
        if all(satisfied(t, steps + [("check", check)]) for t in self.good):
            return
        if any(check(t, {}) for t in self.good):
            self.R.v(key, "%s: an unused type parameter of a %s is accepted on some paths" % (self.f.name, label))
        elif self.foreign(g, elem(g)):
            self.R.undec(key, "how unused type parameters are found is not understood")
        else:
            self.R.v(key, "%s: an unused type parameter of a %s is accepted" % (self.f.name, label))

    def usage(self, db, W):
        """What the walker's visitor does with an external type: a plain name uses the parameter of that name."""
        done = set()
        for e in self.all:
            if e[0] != "call" or e[1] not in self.walker_names:
                continue
            for a in e[2]:
                a = closure(self.I, a)
                if isinstance(a, tuple) and a and a[0] == "clo" and a[1] not in done:
                    done.add(a[1])
                    self.visitor(a)

    def visitor(self, clo):
        body = self.I.db.fn(clo[1])
        if body is None or body.argc != 2 or "ExternalType" not in body.local_ty(2)["s"]:
            return
        x = T("arg", "external")
        try:
            outs = self.I.call_fn(body, [clo, x], A.State(), ())
        except A.Unsupported as e:
            self.R.undec(clo[1], str(e))
            return
        self.R.saw(body)
        for o in outs:
            if o.kind != "ret":
                continue
            removed = [e for e in flat(o.events) if e[0] == "call" and isinstance(e[1], str) and e[1].rsplit("::", 1)[-1] in ("remove", "swap_remove", "shift_remove", "insert", "take")]
            cs = {e[1]: e[2] for e in o.events if e[0] in ("is", "cond")}
            plain = cs.get(fld(x, "generics")) != "Some" and not any(mentions(t, fld(x, "path")) and not truthy_empty(t, v, fld(x, "path")) for t, v in cs.items())
            self.R.n("obligations")
            if removed:
                k = strip_views(removed[0][2][1]) if len(removed[0][2]) > 1 else None
                if k != fld(fld(x, "name"), "value"):
                    self.R.v("usage:key", "%s: a type marks the parameter %s as used, not the one it names" % (body.name, show(k)[:80]))
                known = [t for t in cs if any(is_t(w, "call") for w in walk(t)) and not mentions(t, fld(x, "path"))]
                if not known and not any(mentions(t, fld(x, "path")) and truthy_empty(t, v, fld(x, "path")) for t, v in cs.items()):
                    self.R.v("usage:path", "%s: a type of a module (a::T) counts as use of the type parameter T" % body.name)
                if not known and cs.get(fld(x, "generics")) != "None":
                    self.R.v("usage:args", "%s: a type with type arguments (T<..>) counts as use of the type parameter T" % body.name)
            elif plain:
                extra = [t for t in cs if not mentions(t, fld(x, "path")) and t != fld(x, "generics")]
                if extra and any(is_t(w, "call") for t in extra for w in walk(t)):
                    self.R.undec("usage", "which types use a parameter is decided in a way the rule does not know")
                else:
                    self.R.v("usage:missed", "%s: a plain use of a type parameter does not count as use" % body.name)

    def rejections(self, bad):
        R = self.R
        for events, o in bad:
            R.n("rejections explained")
            if o.kind != "ret":
                R.v("panic", "%s (%s): validation panics: %s" % (self.f.name, loc(self.f), str(o.info)[:160]))
                continue
            dec = [e for e in events if e[0] in ("is", "cond", "done") or (e[0] == "mark" and e[1].startswith("next"))]
            if not dec:
                R.v("reject:always", "%s: every schema is rejected" % self.f.name)
                continue
            e = dec[-1]
            if e[0] in ("done", "mark"):
                continue            # an element was left over: decided by `leftover`
            t = e[1]
            if e[0] == "is" and is_t(t, "call") and isinstance(t[2], str) and t[2].startswith("mabo_compiler") and e[2] == "Err":
                continue            # a recursive call or a walker rejected
            ms = membership([e])
            if ms and not ms[0][2]:
                k, m, _ = ms[0]
                cs = {x[1]: x[2] for x in events if x[0] in ("is", "cond")}
                if not any(self.key_is(k, w, cs) for w in self.keys.values()):
                    R.v("reject:key", "%s: schemas are rejected because of a repeated %s, which does not have to be unique" % (self.f.name, show(k)[:120]))
                elif carried_over(m) > 1:
                    R.v("reject:scope", "%s: schemas are rejected because of a %s that is repeated in a different scope" % (self.f.name, show(k)[:120]))
                continue
            x = self.id_of(e)
            if x is not None:
                gs = list(self.uses.get(x, {})) or [x]
                got = [(p, ev(t, {x: p})) for p in points([t], (MIN_ID, MAX_ID))]
                hit = [ev(gs[0], {x: p}) for p, g in got if g is not None and bool(g) == bool(e[2]) and MIN_ID <= (ev(gs[0], {x: p}) or 0) <= MAX_ID]
                if any(g is None and ev(gs[0], {x: p}) is not None for p, g in got):
                    R.undec("reject:%s" % show(t)[:60], "reason of a rejection is not understood")
                elif hit:
                    R.v("reject:id", "%s: schemas are rejected because of the id %d, which is valid" % (self.f.name, hit[0]))
                continue
            if any(is_t(w, "collect") for w in walk(t)):
                continue
            if any(is_t(w, "elem") and is_t(w[2], "collect", "phi") for w in walk(o.value)):
                continue            # names an element that was left over
            if any(is_t(w, "call") for w in walk(t)):
                R.undec("reject:%s" % show(t)[:60], "reason of a rejection is not understood")
            else:
                R.v("reject:other", "%s: schemas are rejected for a reason other than a repeated name or id, an unused or repeated type parameter or a tuple length: %s is %s" % (
                    self.f.name, show(t)[:120], e[2]))

    def id_of(self, e):
        """The id a condition is about, if it is about one."""
        if e[0] == "cond":
            for w in walk(e[1]):
                if w in self.uses or explicit_id(w):
                    return w
        return None

    def carry(self):
        counters(self.R, self.I, self.f.name, self.uses)


def counter_of(x):
    """The counter that a derived id is computed from."""
    cs = {w for w in walk(x) if is_t(w, "phi", "accn")}
    return cs.pop() if len(cs) == 1 else None


def counted(k, c):
    """The counter plus constants."""
    if k == c or k[0] == "int":
        return True
    if is_t(k, "add"):
        return all(counted(x, c) for x in k[2:])
    if is_t(k, "bin"):
        return k[2] in ("Add", "Sub") and all(counted(x, c) for x in k[3:])
    if is_t(k, "cast"):
        return counted(k[-1], c)
    if is_t(k, "fld") and k[3:] == ("Some", "0"):
        return counted(k[2], c)
    if is_t(k, "call") and isinstance(k[2], str):
        return k[2].rsplit("::", 1)[-1] in ("saturating_add", "wrapping_add", "checked_add", "saturating_sub") and all(counted(x, c) for x in k[3])
    return False


def derived_id(k, ex, uses):
    """Is this the id of the first element if none is given there, computed from a counter? Notes it for `counters`."""
    c = counter_of(k)
    if c is None or not counted(k, c):
        return False
    if is_t(c, "phi") and (c[4][0] != "int" or ev(k, {c: c[4][1]}) != 1) or is_t(c, "accn") and k != c:
        return False
    l = uses.setdefault(c, {}).setdefault(k, [])
    if ex not in l:
        l.append(ex)
    return True


def counters(R, I, name, uses, follow=True):
    """Omitted ids continue after the previous one: what the derived id is in the next iteration. One cell of the abstract
    machine can serve several scopes (same code, other elements), so what is required is that the next derived id always becomes
    one of: the previous one plus one; the explicit id of the element at hand plus one - and that both happen."""
    for p, gs in uses.items():
        for g, explicit in gs.items():
            R.n("id counters")
            if is_t(p, "accn"):
                continue
            got = I.carry.get(p, set())
            ids = {x for y in got for x in walk(y) if explicit_id(x)}
            adv, extra = False, []
            for y in got:
                exs = [x for x in ids if mentions(y, x)]
                vals = []
                for c in (5, 900, 70000):
                    for e in (7, 3, 1000, 69999):
                        nxt = ev(y, {**{x: e for x in exs}, p: c})
                        vals.append((None if nxt is None else ev(g, {p: nxt}), e if exs else ev(g, {p: c})))
                if y == ("int", 2 ** 32 - 1):
                    continue        # saturated after the largest id
                if all(v is not None and w is not None and v == w + 1 for v, w in vals):
                    adv = adv or not exs
                elif y in ids and A.add_of((("int", 1), y)) in got:
                    extra.append(y)     # depends on a condition that is not tracked here (the largest id)
                elif any(v is not None and w is not None and v != w + 1 for v, w in vals):
                    R.v("counter", "%s: an omitted id is not the previous id plus one: after %s field the counter is %s" % (
                        name, "a" if exs else "such a", show(y)[:160]))
                    extra = None
                    break
                else:
                    extra.append(y)
            if extra is None:
                continue
            if extra:
                R.undec("counter", "how ids are derived is not understood: %s" % show(extra[0])[:100])
            elif not adv:
                R.v("counter", "%s: the counter of omitted ids does not advance past an omitted id" % name)
            elif follow and not ids & set(explicit):
                R.v("counter", "%s: an omitted id does not continue after an explicit one" % name)


def is_membership(t):
    return bool(membership([("cond", t, True), ("is", t, "None")]))


def explicit_id(x):
    return is_t(x, "fld") and x[-1] == "value" and is_t(x[2], "fld") and x[2][-2:] == ("Some", "0") and is_t(x[2][2], "fld") and x[2][2][-1] == "id"


def truthy_empty(t, v, path):
    """Does the condition say that the path is empty?"""
    if is_t(t, "eq") and ("int", 0) in t[2:4]:
        return v is True
    if is_t(t, "call") and str(t[2]).endswith("is_empty"):
        return v is True
    return v is True
