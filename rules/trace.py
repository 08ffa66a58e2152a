"""Obligations over traces of abstract interpretation: what every accepting path must have checked, for every element.

A trace is the event list of one outcome. Loops are events holding the alternatives of an arbitrary iteration, so
'for every element' means: one loop all of whose alternatives satisfy the rest of the obligation."""
import absint as A
from absint import is_t, T, walk, show
from rules.common import strip_views


def elem(d):
    return T("elem", d)


def fld(v, *names):
    return T("fld", v, *names)


def mentions(x, t):
    return any(v == t for v in walk(x))


def flat(events):
    for e in events:
        yield e
        if e[0] == "loop":
            for a in e[2]:
                yield from flat(a)
        elif e[0] == "done":
            for a in e[2]:
                yield from flat(a)


def alternatives(events, i):
    """Alternatives of the loop event at index i, and whether the loop runs to the end of its iterator. Elements which the
    iterator of a `for` loop swallows (filter) belong to the alternatives."""
    e = events[i]
    alts = list(e[2])
    if e[1] == "iter":
        return alts, True
    for f in events[i + 1:]:
        if f[0] == "done":
            return alts + list(f[2]), True
        if f[0] == "loop":
            break
    return alts, False


def satisfied(events, steps, base=None):
    """Does the trace satisfy the obligation? steps: ("when", term, variant) ... ("each", collection) ... ("check", predicate)."""
    cs = dict(base or {})
    for e in events:
        if e[0] in ("is", "cond"):
            cs.setdefault(e[1], e[2])
        elif e[0] == "not":
            cs[("not", e[1])] = e[2]
    s = steps[0]
    if s[0] == "when":
        v = cs.get(s[1])
        if (v is not None and v != s[2]) or s[2] in cs.get(("not", s[1]), ()):
            return True
        cs[s[1]] = s[2]
        return satisfied(events, steps[1:], cs)
    if s[0] == "each":
        for i, e in enumerate(events):
            if e[0] == "loop":
                alts, full = alternatives(events, i)
                if full and alts and all(satisfied(a, steps[1:], cs) for a in alts) and any(about(a, s[1]) for a in alts):
                    return True
        return False
    return bool(s[1](events, cs))


def about(alt, coll):
    return any(mentions(e, elem(coll)) for e in alt)


def membership(events):
    """Recognised tests that a key was not seen before: [(key, container, was new)]."""
    out = []
    for e in events:
        if e[0] not in ("is", "cond"):
            continue
        t = e[1]
        if not is_t(t, "call") or not isinstance(t[2], str) or t[2].count("::") < 2 or len(t[3]) < 2:
            continue
        coll, n = t[2].rsplit("::", 2)[-2:]
        new = None
        if "Map" in coll and n == "insert" and e[0] == "is":
            new = e[2] == "None"
        elif "Set" in coll and n == "insert" and e[0] == "cond":
            new = e[2] is True
        elif n in ("contains_key", "contains") and e[0] == "cond":
            new = e[2] is False
        elif n in ("get", "replace") and e[0] == "is":
            new = e[2] == "None"
        elif n == "entry" and e[0] == "is":
            new = e[2] == "Vacant"
        if new is not None:
            out.append((strip_views(t[3][1]), t[3][0], new))
    return out


def carried_over(m):
    """Over how many enclosing loops the container is carried."""
    n = 0
    while is_t(m) and m[1] in ("mut", "phi", "deref"):
        if m[1] == "phi":
            n += 1
            m = m[4]
        else:
            m = m[2]
    return n
