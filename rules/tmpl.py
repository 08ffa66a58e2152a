"""Code templates: what a generator function emits for one partition of its input, rendered to a canonical token list, and compared
with a specification written as text. Holes name where a spliced value comes from."""
import re
from rules.common import *


class Unknown(Exception):
    pass


LEX = re.compile(r"⟦[^⟧]*⟧|\$\(|\)\*|[A-Za-z_][A-Za-z0-9_]*|\d+|\"[^\"]*\"|=>|->|::|\|\||&&|==|\.\.=|\.\.|\S")
OPEN = {"(": ")", "{": "}", "[": "]"}
DELIM = {"Parenthesis": "()", "Brace": "{}", "Bracket": "[]"}


def lex(text):
    return LEX.findall(text)


def tidy(toks):
    """Spelling differences that mean nothing: attributes, trailing separators, the empty closing of a block."""
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t == "#" and i + 1 < len(toks) and toks[i + 1] == "[":
            d = 0
            i += 1
            body = []
            while True:
                d += toks[i] == "["
                d -= toks[i] == "]"
                body.append(toks[i])
                i += 1
                if d == 0:
                    break
            if len(body) > 1 and body[1] in ("derive", "doc"):
                out += ["#"] + tidy(body)
            continue
        if t in (")", "}", "]") and out and out[-1] == "," and not (t == ")" and len(out) > 2 and out[-3:-1] and single_tuple(out)):
            out.pop()
        if t == "}" and out and out[-1] == ";":
            out.pop()
        out.append(t)
        i += 1
    return out


def single_tuple(out):
    return False


# library functions that give another value than they got: a hole fed by one of them is known to differ from the plain value
CHANGING = re.compile(r"(min|max|clamp|trim\w*|to_(ascii_)?(lower|upper)case|replacen?|(saturating|wrapping|checked|overflowing)_\w+|(unsigned_)?abs|neg|not|escape_\w+|repeat|rev|swap_bytes|reverse_bits|leading_zeros|trailing_zeros|count_ones|pow)$")


class Namer:
    """Turns provenance terms into short stable names."""

    def __init__(self, roles, calls):
        self.roles = roles          # term -> name
        self.calls = calls          # function name -> short name
        self.consts = {}

    def __call__(self, t):
        r = self.roles.get(t)
        if r is not None:
            return r
        if t[0] == "str":
            return '"%s"' % t[1]
        if t[0] == "int":
            return str(t[1])
        if t[0] == "ts":
            return "`" + " ".join(self.render(t[1])) + "`"
        if t[0] == "tup" and not t[1]:
            return "()"
        if t[0] == "adt" and "Range" in t[1]:
            return t[1].split("::")[-1] + "(" + ", ".join(self(x) for x in t[4]) + ")"
        if t[0] == "ph" and t[1] == "display":
            return self(t[2])
        if t[0] == "sbuf":
            return "fmt(" + " ".join(self.piece(x) for x in t[1]) + ")"
        if is_t(t):
            k = t[1]
            if k == "fld":
                return self(t[2]) + "." + ".".join(str(x) for x in t[3:])
            if k == "elem":
                return self(t[2]) + "[]"
            if k == "ident":
                return "ident " + self(t[2])
            if k == "literal":
                return "lit " + self(t[2])
            if k == "index":
                return "index " + self(t[2])
            if k == "cast":
                return self(t[3]) + " as " + str(t[2])
            if k in ("take", "index_", "idx", "skip", "rev", "step_by", "min", "max", "len", "add", "sub"):
                if k == "take" and t[3] == T("len", t[2]):
                    return self(t[2])
                if k == "index_" and t[3][0] == "adt" and T("len", t[2]) in t[3][4] and "RangeTo" in t[3][1]:
                    return self(t[2])
                return k + "(" + ", ".join(self(x) for x in t[2:]) + ")"
            if k == "call" and isinstance(t[2], str):
                n = self.calls.get(t[2])
                if n is not None:
                    return n + "(" + ", ".join(self(x) for x in t[3]) + ")"
                v = strip_views(t)
                if v is not t:
                    return self(v)
                base = t[2].split("::")[-1]
                if CHANGING.match(base) and t[2].startswith(("core::", "alloc::", "std::")):
                    return base + "(" + ", ".join(self(x) for x in t[3]) + ")"
            if k in ("mut", "phi", "deref"):
                raise Unknown("state-dependent value %s" % show(t))
        raise Unknown("value of unknown origin: %s" % show(t)[:160])

    def piece(self, x):
        if isinstance(x, str):
            return repr(x)
        if x[0] == "ph" and x[1] == "display":
            return self(x[2])
        if x[0] == "lit":
            return repr(x[1])
        if x[0] == "val":
            return self(x[1])
        return self(x)

    def render(self, items):
        out = []
        for x in items:
            if isinstance(x, str):
                out.append(x)
            elif x[0] == "grp":
                d = DELIM.get(x[1])
                inner = self.render(x[2])
                out += ([d[0]] + inner + [d[1]]) if d else inner
            elif x[0] == "hole":
                v = x[1]
                if v[0] == "ts":
                    out += self.render(v[1])
                elif is_t(v, "fld") and is_t(v[2], "call") and v[2][2] == "core::default::Default::default":
                    pass
                elif is_t(v, "call") and str(v[2]).endswith("TokenStream::new"):
                    pass
                elif v[0] == "str":
                    out.append('"%s"' % v[1])
                elif is_t(v, "ident") and v[2][0] == "str":
                    out.append(v[2][1])
                elif is_t(v, "literal") and v[2][0] == "int":
                    out.append(str(v[2][1]))
                else:
                    out.append("⟦" + self(v) + "⟧")
            elif x[0] == "rep":
                alts = [self.render(a) for a in x[1]]
                out += self.rep(alts)
            elif x[0] == "spread":
                out += ["$(", "⟦" + self(x[1]) + "[]⟧", ")*"]
            elif x[0] == "acc":
                raise Unknown("tokens of an unfinished loop")
            else:
                raise Unknown("token item %s" % (x[0],))
        return out

    def rep(self, alts):
        """$( body )* ; a leading separator on all but the first iteration becomes $( body ) sep *"""
        u = []
        for a in alts:
            if a not in u:
                u.append(a)
        if len(u) == 2:
            a, b = sorted(u, key=len)
            if b[1:] == a and len(b) == len(a) + 1:
                return ["$("] + a + [")", b[0], "*"]
        if len(u) == 1:
            return ["$("] + u[0] + [")*"]
        return ["$("] + " ⏐ ".join(" ".join(a) for a in u).split() + [")*"]


def alpha(toks):
    """Rename closure parameters to canonical names, inside nested holes too."""
    out = list(toks)
    i = 0
    n = [0]
    while i < len(out):
        if out[i] == "|" and (i == 0 or out[i - 1] in ("(", ",", "=", "{", "move")):
            j = i + 1
            names = []
            while out[j] != "|":
                if re.match(r"[a-z_]\w*$", out[j]) and out[j] not in ("w", "r"):
                    names.append((j, out[j]))
                j += 1
            # the closure body
            k = j + 1
            if k < len(out) and out[k] == "{":
                d, e = 0, k
                while True:
                    d += out[e] in "({[" and len(out[e]) == 1 or out[e] == "$("
                    d -= out[e] in ")}]" and len(out[e]) == 1 or out[e] == ")*"
                    if d == 0:
                        break
                    e += 1
            else:
                d, e = 0, k
                while e < len(out) and not (d == 0 and out[e] in (",", ")")):
                    d += out[e] in "({["
                    d -= out[e] in ")}]"
                    e += 1
            for pos, nm in names:
                new = "p%d" % n[0]
                n[0] += 1
                out[pos] = new
                for q in range(k, min(e + 1, len(out))):
                    if out[q] == nm and not (q + 1 < len(out) and out[q + 1] == "::") and out[q - 1] not in (".", "::"):
                        out[q] = new
                    elif out[q].startswith("⟦"):
                        out[q] = re.sub(r"(?<=[` &*(])%s(?=[`. ),])" % re.escape(nm), new, out[q])
            i = j + 1
            continue
        i += 1
    return out


def canon(toks):
    return alpha(tidy(toks))


def spec(text):
    return canon(lex(text))


def run_case(I, fn, args, refine, facts=None):
    st = A.State()
    for t, v in refine.items():
        st.refine[t] = v
    for t, v in (facts or {}).items():
        st.facts[t] = v
    I.iter_panics = []
    outs = I.run(fn, args, st)
    return outs + I.iter_panics


def diff(a, b):
    """First difference, with context."""
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    lo = max(0, i - 6)
    return "… %s  where  … %s  is required" % (" ".join(a[lo:i + 10]) or "nothing", " ".join(b[lo:i + 10]) or "nothing")


def items_of(toks):
    """Splits a token list into top-level items (each ends with `;` or a closing brace)."""
    out, cur, d = [], [], 0
    for i, t in enumerate(toks):
        cur.append(t)
        if t in ("(", "[", "{", "$("):
            d += 1
        elif t in (")", "]", "}", ")*"):
            d -= 1
        if d == 0 and (t == ";" or (t == "}" and not (i + 1 < len(toks) and toks[i + 1] == ";"))):
            if cur != [";"]:
                out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def unrep(items):
    """Token items with the outermost repetitions opened: [(inside, tokens)] per alternative."""
    flat, reps = [], []
    for x in items:
        if not isinstance(x, str) and x[0] == "rep":
            reps += list(x[1])
        elif not isinstance(x, str) and x[0] == "hole" and x[1][0] == "ts":
            a, b = unrep(x[1][1])
            flat += a
            reps += b
        else:
            flat.append(x)
    return flat, reps
