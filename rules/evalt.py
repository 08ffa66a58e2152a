"""Concrete value of a symbolic term for a given value of one of its subterms: decides comparisons with constants. A predicate
made of comparisons of x with constants is constant between them, so checking next to every constant decides it."""
from absint import is_t, walk

OPS = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b, "BitAnd": lambda a, b: a & b,
       "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "Shl": lambda a, b: a << b if b < 256 else None,
       "Shr": lambda a, b: a >> b if b < 256 else None, "Div": lambda a, b: a // b if b else None, "Rem": lambda a, b: a % b if b else None,
       "Eq": lambda a, b: int(a == b), "Ne": lambda a, b: int(a != b), "Lt": lambda a, b: int(a < b), "Le": lambda a, b: int(a <= b),
       "Gt": lambda a, b: int(a > b), "Ge": lambda a, b: int(a >= b)}


def ev(t, env):
    if t in env:
        return env[t]
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "int":
        return t[1]
    if t[0] != "t":
        return None
    op = t[1]
    if op in ("eq", "ne", "lt", "le", "gt", "ge") and len(t) == 4:
        a, b = ev(t[2], env), ev(t[3], env)
        return None if a is None or b is None else OPS[op.capitalize()](a, b)
    if op == "not":
        a = ev(t[2], env)
        return None if a is None else int(not a)
    if op == "add":
        l = [ev(x, env) for x in t[2:]]
        return None if None in l else sum(l)
    if op == "bin" and t[2] in OPS:
        a, b = ev(t[3], env), ev(t[4], env)
        return None if a is None or b is None else OPS[t[2]](a, b)
    if op == "cast" and len(t) >= 3:
        return ev(t[-1], env)
    if op == "fld" and t[3:] == ("Some", "0") and is_t(t[2], "call") and str(t[2][2]).rsplit("::", 1)[-1] in ("checked_add", "checked_sub"):
        a, b = ev(t[2][3][0], env), ev(t[2][3][1], env)
        if a is None or b is None:
            return None
        r = a + b if t[2][2].endswith("add") else a - b
        return r if 0 <= r < 2 ** 32 else None
    if op == "call" and isinstance(t[2], str):
        n = t[2].rsplit("::", 1)[-1]
        if n == "contains" and len(t[3]) == 2:
            r, x = t[3][0], ev(t[3][1], env)
            if x is None:
                return None
            incl = True
            if is_t(r, "call") and str(r[2]).endswith("RangeInclusive::new"):
                lo, hi = ev(r[3][0], env), ev(r[3][1], env)
            elif r[0] == "adt" and r[3] in ("Range", "RangeFrom", "RangeTo", "RangeToInclusive"):
                lo = ev(r[4][0], env) if r[3] in ("Range", "RangeFrom") else float("-inf")
                hi = ev(r[4][-1], env) if r[3] != "RangeFrom" else float("inf")
                incl = r[3] == "RangeToInclusive"
            else:
                return None
            if lo is None or hi is None:
                return None
            return int(lo <= x <= hi if incl else lo <= x < hi)
        if n in ("saturating_add", "wrapping_add", "saturating_sub", "wrapping_sub") and len(t[3]) == 2:
            a, b = ev(t[3][0], env), ev(t[3][1], env)
            if a is None or b is None:
                return None
            r = a + b if n.endswith("add") else a - b
            return r if 0 <= r < 2 ** 32 else None      # the width is not known here: only values away from the limits
        if n in ("min", "max") and len(t[3]) == 2:
            a, b = ev(t[3][0], env), ev(t[3][1], env)
            return None if a is None or b is None else (min if n == "min" else max)(a, b)
    return None


def points(ts, extra=(), lo=0, hi=2 ** 32 - 1):
    """Values around every constant of the terms."""
    s = set(extra)
    for t in ts:
        for w in walk(t):
            if isinstance(w, tuple) and len(w) == 2 and w[0] == "int" and isinstance(w[1], int):
                s |= {w[1] - 1, w[1], w[1] + 1}
    for k in range(0, 33):
        s |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    return sorted(v for v in s if lo <= v <= hi)
