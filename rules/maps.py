"""Hash maps and sets with known contents, for the analysis of code on a known syntax tree: a map is the list of its entries."""
import absint as A
from absint import T, is_t, some
from models import ret
from rules.lsp import put, plain, Undecided

HM, HS = "std::collections::hash::map::HashMap::", "std::collections::hash::set::HashSet::"
ENTRY = "std::collections::hash::map::Entry"


def same(I, st, a, b):
    """Are two keys equal? Names and numbers are either the same unknown, or different ones."""
    a, b = unref(I, st, a), unref(I, st, b)
    if a == b:
        return True
    for x in (a, b):
        if not (x[0] in ("int", "str") or is_t(x, "text", "num")):
            raise Undecided("key of a map: %s" % A.show(x)[:100])
    return False


def unref(I, st, v):
    for _ in range(8):
        w = plain(I.deref_read(st, v))
        if w[0] == "sbuf" and len(w[1]) == 1:
            w = w[1][0]
        if w[0] == "tup" or w[0] == "adt" and len(w[4]) == 1:
            raise Undecided("compound key")
        if w == v:
            break
        v = w
    return v


def contents(I, st, m):
    v = I.deref_read(st, m)
    return v if v[0] == "vec" else None


def empty(I, fr, st, args, m, site, stack, tys):
    return ("vec", ())


def insert(I, fr, st, args, m, site, stack, tys):
    v = contents(I, st, args[0])
    if v is None:
        return NotImplemented
    for i, e in enumerate(v[1]):
        if same(I, st, e[1][0], args[1]):
            put(I, st, args[0], ("vec", v[1][:i] + (("tup", (e[1][0], args[2])),) + v[1][i + 1:]))
            return some(e[1][1])
    put(I, st, args[0], ("vec", v[1] + (("tup", (unref(I, st, args[1]), args[2])),)))
    return A.NONE


def find(I, st, v, k):
    return next((e for e in v[1] if same(I, st, e[1][0] if e[0] == "tup" else e, k)), None)


def lookup(out):
    def h(I, fr, st, args, m, site, stack, tys):
        v = contents(I, st, args[0])
        if v is None:
            return NotImplemented
        return out(I, st, args, v, find(I, st, v, args[1]))
    return h


def removed(I, st, args, v, e):
    if e is not None:
        put(I, st, args[0], ("vec", tuple(x for x in v[1] if x != e)))
    return e


def add(I, fr, st, args, m, site, stack, tys):
    v = contents(I, st, args[0])
    if v is None:
        return NotImplemented
    k = unref(I, st, args[1])
    if find(I, st, v, k) is not None:
        return A.FALSE
    put(I, st, args[0], ("vec", v[1] + (k,)))
    return A.TRUE


def replace(I, fr, st, args, m, site, stack, tys):
    v = contents(I, st, args[0])
    if v is None:
        return NotImplemented
    e = find(I, st, v, args[1])
    if e is None:
        put(I, st, args[0], ("vec", v[1] + (unref(I, st, args[1]),)))
        return A.NONE
    return some(e)


def size(I, fr, st, args, m, site, stack, tys):
    v = contents(I, st, args[0])
    if v is None:
        return NotImplemented
    return ("int", len(v[1])) if I.fname(m).endswith("len") else A.FALSE if v[1] else A.TRUE


def entry(I, fr, st, args, m, site, stack, tys):
    v = contents(I, st, args[0])
    if v is None or ENTRY not in I.db.adts:
        return NotImplemented
    hit = find(I, st, v, args[1]) is not None
    for i, x in enumerate(I.db.variants(ENTRY)):
        if x["name"] == ("Occupied" if hit else "Vacant"):
            return ("adt", ENTRY, i, x["name"], (("tup", (args[0], unref(I, st, args[1]))),))
    return NotImplemented


def entry_get(I, fr, st, args, m, site, stack, tys):
    h = I.deref_read(st, args[0])
    if h[0] != "tup":
        return NotImplemented
    e = find(I, st, contents(I, st, h[1][0]), h[1][1])
    return e[1][1] if e else NotImplemented


def entry_insert(I, fr, st, args, m, site, stack, tys):
    h = I.deref_read(st, args[0])
    if h[0] != "tup":
        return NotImplemented
    r = insert(I, fr, st, [h[1][0], h[1][1], args[1]], m, site, stack, tys)
    if "Vacant" in I.fname(m):
        return T("slot")
    return r[4][0] if r[0] == "adt" and r[4] else r


def collected(base):
    """Collecting into a map or set: later values replace those of the same key."""
    def h(I, fr, st, args, m, site, stack, tys):
        r = base(I, fr, st, args, m, site, stack, tys)
        if not isinstance(r, list):
            return r
        for o in r:
            v = o.value
            if o.kind == "ret" and is_t(v, "collect") and v[2].startswith(("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet")) \
                    and v[3][0] == "vec" and not any(x[0] in ("rep", "spread", "acc") for x in v[3][1]):
                kv = "::map::" in v[2]
                out = []
                for x in v[3][1]:
                    if kv and x[0] != "tup":
                        break
                    k = unref(I, o.st, x[1][0] if kv else x)
                    i = next((i for i, y in enumerate(out) if same(I, o.st, y[1][0] if kv else y, k)), None)
                    if i is None:
                        out.append(("tup", (k, x[1][1])) if kv else k)
                    elif kv:
                        out[i] = ("tup", (k, x[1][1]))
                else:
                    o.value = ("vec", tuple(out))
        return r
    return h


def models():
    ms = {}
    for c in (HM, HS):
        for n in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher"):
            ms[c + n] = empty
        ms[c + "len"] = ms[c + "is_empty"] = size
        ms[c + "reserve"] = lambda *a: A.UNIT
        ms[c + ("contains_key" if c == HM else "contains")] = lookup(lambda I, st, args, v, e: A.TRUE if e is not None else A.FALSE)
    ms[HM + "insert"] = insert
    ms[HS + "insert"] = add
    ms[HS + "replace"] = replace
    ms[HM + "get"] = lookup(lambda I, st, args, v, e: some(e[1][1]) if e is not None else A.NONE)
    ms[HS + "get"] = lookup(lambda I, st, args, v, e: some(e) if e is not None else A.NONE)

    def remove(I, st, args, v, e):
        removed(I, st, args, v, e)
        return some(e[1][1]) if e is not None else A.NONE

    def remove_set(I, st, args, v, e):
        return A.TRUE if removed(I, st, args, v, e) is not None else A.FALSE
    ms[HM + "remove"], ms[HS + "remove"] = lookup(remove), lookup(remove_set)
    ms[HS + "take"] = lookup(lambda I, st, args, v, e: some(e) if removed(I, st, args, v, e) is not None else A.NONE)
    ms[HM + "entry"] = entry
    for o in ("OccupiedEntry", "VacantEntry"):
        p = "std::collections::hash::map::%s::" % o
        ms[p + "insert"] = entry_insert
        if o == "OccupiedEntry":
            ms[p + "get"] = entry_get
    return ms
