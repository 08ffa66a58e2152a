"""Decoder paths: what is read from which buffer, under which availability facts."""
from rules.common import *
from rules.wire import GET, VAR, width, Unknown, canon_term

REM = ("remaining", "has_remaining")


def buf_version(v):
    """`v` is a version of a buffer: (root, version term)"""
    return root(v)


def isbufcall(e, m=None):
    return e[0] == "call" and isinstance(e[1], str) and e[1].startswith(GET) and (m is None or e[1][len(GET):] == m)


class Facts:
    """Lower bounds on the bytes left in buffer versions, from the branch conditions of one path."""

    def __init__(self, parent=None):
        self.low = dict(parent.low) if parent else {}      # version term -> set of lower-bound terms
        self.nonzero = set(parent.nonzero) if parent else set()
        self.isnot = dict(parent.isnot) if parent else {}

    def add(self, ver, term):
        s = self.low.setdefault(ver, set())
        s.add(term)

    def cond(self, c, val):
        c0 = strip_call_ids(c)
        if is_t(c0, "lt"):
            a, b = c0[2], c0[3]
            if rem_of(a) is not None and not val:        # !(rem < n)
                self.add(rem_of(a), b)
            if rem_of(b) is not None and val:            # n < rem
                self.add(rem_of(b), A.add_of((b_plus1(a),)))
            if rem_of(b) is not None and not val:        # !(n < rem)
                pass
        if is_t(c0, "call") and str(c0[2]) == GET + "has_remaining":
            if val:
                self.add(c0[3][0], ("int", 1))
        if is_t(c0, "eq"):
            a, b = c0[2], c0[3]
            for x, y in ((a, b), (b, a)):
                if rem_of(y) is not None:
                    if val:
                        self.add(rem_of(y), x)
                    elif x == ("int", 0):
                        self.add(rem_of(y), ("int", 1))
                if x == ("int", 0) and not val:
                    self.nonzero.add(y)

    def consumed(self, old, new, n):
        """new is old after consuming n (an int) bytes"""
        for t in list(self.low.get(old, ())):
            if t[0] == "int" and n is not None and t[1] - n > 0:
                self.add(new, ("int", t[1] - n))

    def atleast(self, ver, n):
        s = self.low.get(ver, ())
        n = strip_call_ids(n)
        if is_t(n, "call") and str(n[2]).endswith("::saturating_sub"):
            n = n[3][0]
        if n == ("int", 0):
            return True
        if n in s:
            return True
        if n[0] == "int" and any(t[0] == "int" and t[1] >= n[1] for t in s):
            return True
        if rem_of(n) == ver:
            return True
        # n <= m where m is a known lower bound: n = min(..)
        if is_t(n, "call") and str(n[2]).endswith("::min") and any(x in s or rem_of(x) == ver for x in n[3]):
            return True
        return False


def b_plus1(a):
    return A.add_of((a, ("int", 1)))


def strip_call_ids(v):
    """Pure view: occurrence numbers of calls are kept only for mutating ones (they are part of versions)."""
    return v


def rem_of(t):
    if is_t(t, "call") and str(t[2]) == GET + "remaining":
        return t[3][0]
    if is_t(t, "cast"):
        return None
    return None


def varint_len(t):
    """t is the consumed-length of a varint decoded from chunk(V) -> V"""
    # fld(fld(call(varint::decode_T,(chunk(V)),Ok.0),"1")
    if is_t(t, "fld") and t[-1] == "1":
        x = t[2]
        if is_t(x, "fld") and x[-1] == "0" and "Ok" in x[3:]:
            x = x[2]
        if is_t(x, "call") and str(x[2]).startswith(VAR + "decode_"):
            c = x[3][0]
            if is_t(c, "call") and str(c[2]) == GET + "chunk":
                return c[3][0], str(x[2])[len(VAR) + 7:]
    return None


def varint_val(t):
    if is_t(t, "fld") and t[-1] == "0":
        x = t[2]
        if is_t(x, "fld") and x[-1] == "0" and "Ok" in x[3:]:
            x = x[2]
        if is_t(x, "call") and str(x[2]).startswith(VAR + "decode_"):
            return str(x[2])[len(VAR) + 7:]
    return None


class Walk:
    """One path of a decoder."""

    def __init__(self, I, reader):
        self.I = I
        self.reader = reader
        self.obligations = []     # (what, ok, site)
        self.reads = []           # shape items
        self.windows = []         # (size, known to be available, window, site)
        self.conds = []           # (condition, value, reads before it)

    def run(self, events, facts=None, out=None, depth=0):
        f = facts or Facts()
        out = self.reads if out is None else out
        for e in events:
            if e[0] == "cond":
                f.cond(e[1], e[2])
                if depth == 0:
                    self.conds.append((e[1], e[2], len(out)))
            elif e[0] == "loop":
                alts = []
                for it in e[2]:
                    o2 = []
                    f2 = Facts(f)
                    self.run(it, f2, o2, depth + 1)
                    conds = tuple((c[1], c[2]) for c in it if c[0] == "cond")
                    alts.append((conds, tuple(o2)))
                if any(a for _, a in alts):
                    out.append(("LOOP", tuple(alts)))
            elif e[0] == "assert":
                pass
            elif e[0] == "call":
                self.call(e, f, out)
        return out

    def call(self, e, f, out):
        name, args, res, site = e[1], e[2], e[3], e[4]
        if isinstance(name, str) and name.startswith(GET):
            m = name[len(GET):]
            ver = args[0]
            rt = root(ver)
            after = self.after(ver, name, 0, res)
            w = width(m)
            if m in ("remaining", "has_remaining", "chunk"):
                return
            if m in ("by_ref", "reader"):
                return
            if w:
                if not m.startswith("try_"):
                    self.obligations.append(("%s reads %d byte(s)" % (m, w), f.atleast(ver, ("int", w)), site))
                f.consumed(ver, after, w)
                out.append(("F", m.replace("try_", "")[4:], rt, res))
            elif m == "advance":
                n = args[1]
                vl = varint_len(n)
                if vl is not None and vl[0] == ver:
                    self.obligations.append(("advance by the decoded varint length", True, site))
                    out.append(("V", vl[1], rt, T("fld", n[2], "0")))
                else:
                    self.obligations.append(("advance by %s" % show(n), f.atleast(ver, n), site))
                    if n[0] == "int":
                        f.consumed(ver, after, n[1])
                    if rem_of(n) == ver:
                        out.append(("REST", rt))
                    else:
                        out.append(("SKIP", rt, n))
            elif m in ("copy_to_bytes",):
                n = args[1]
                self.obligations.append(("copy_to_bytes of %s" % show(n), f.atleast(ver, n), site))
                out.append(("RAW", rt, n, res))
            elif m == "take":
                out.append(("WINDOW", rt, args[1], res))
                self.windows.append((args[1], f.atleast(ver, args[1]), res, site))
                # remaining(take(V, n)) = min(remaining(V), n)
                for t in f.low.get(ver, ()):
                    if t == args[1]:
                        f.add(res, t)
                        if t in f.nonzero:
                            f.add(res, ("int", 1))
            elif m in ("copy_to_slice",):
                n = T("len", args[1])
                self.obligations.append(("copy_to_slice", f.atleast(ver, n), site))
                out.append(("RAW", rt, n, args[1]))
            elif m == "chain":
                out.append(("CHAIN", rt, args[1], res))
            else:
                raise Unknown("reader call %s" % m)
            return
        nm = name if isinstance(name, str) else name[0]
        bufs = [a for i, a in enumerate(args) if self.isbuf(a)]
        if nm == "callv" or (isinstance(name, str) and name.endswith("Decode::decode")):
            if bufs:
                out.append(("CB", root(bufs[0]), root(args[0]) if nm == "callv" else T("self"), res))
            return
        if bufs and isinstance(name, str) and not name.startswith("mabo::varint"):
            if name.startswith("core::") or name.startswith("alloc::") or name.startswith("std::"):
                return
            raise Unknown("reader handed to %s" % nm)

    def isbuf(self, a):
        r = root(a)
        return r == self.reader or (is_t(r, "call") and str(r[2]) == GET + "take")

    def after(self, ver, name, i, res):
        n = res[4] if is_t(res, "call") and len(res) > 4 else None
        return T("mut", ver, name, i, n)
