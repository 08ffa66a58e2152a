"""Decoders read back exactly what encoders write (runtime crate), path by path."""
from rules.common import *
from rules import wire as W
from rules.dec import *
from rules.p_decsafe import decoders, reader_of
from rules.p_size import pairs, writer_of


def canon_items_enc(items):
    """-> shape tuple; collects the written terms in order"""
    shape, terms = [], []
    i = 0
    its = list(items)
    while i < len(its):
        it = its[i]
        nxt = its[i + 1] if i + 1 < len(its) else None
        if it[0] == "V" and it[1] == "u64" and nxt is not None and nxt[0] in ("RAW", "LOOP", "CB"):
            rest = its[i + 1:]
            shape.append(("LP", "raw" if nxt[0] == "RAW" else "elems" if nxt[0] == "LOOP" else "cb"))
            terms.append(("prefix", it[2], W.enc_size(rest)))
            if nxt[0] == "RAW":
                terms.append(("raw", nxt[1]))
                i += 2
                continue
            if nxt[0] == "LOOP":
                terms.append(("loop", nxt[1]))
                i += 2
                continue
            i += 1
            continue
        if it[0] == "V":
            shape.append(("V", it[1]))
            terms.append(("v", it[2]))
        elif it[0] == "F":
            shape.append(("F", fkind(it[1])))
            terms.append(("f", it[2]))
        elif it[0] == "CB":
            shape.append(("CB",))
            terms.append(("cb", it[1]))
        elif it[0] == "LOOP":
            shape.append(("LOOP",))
            terms.append(("loop", it[1]))
        elif it[0] == "RAW":
            shape.append(("RAW",))
            terms.append(("raw", it[1]))
        i += 1
    return tuple(shape), terms


def fkind(k):
    m = re.match(r"[uif](\d+)(_le|_ne)?$", k)
    return (m.group(1), (m.group(2) or "") if m.group(1) != "8" else "")


def canon_items_dec(items, o):
    shape, terms = [], []
    its = [x for x in items]
    i = 0
    while i < len(its):
        it = its[i]
        nxt = its[i + 1] if i + 1 < len(its) else None
        if it[0] == "V" and it[1] == "u64" and nxt is not None and nxt[0] == "RAW" and nxt[2] == it[3]:
            shape.append(("LP", "raw"))
            terms.append(("prefix", it[3]))
            terms.append(("raw", nxt[3]))
            i += 2
            continue
        if it[0] == "V" and it[1] == "u64" and nxt is not None and nxt[0] == "WINDOW" and nxt[2] == it[3]:
            win = nxt[3]
            lp = its[i + 2] if i + 2 < len(its) else None
            if lp is not None and lp[0] == "LOOP":
                shape.append(("LP", "elems"))
                terms.append(("prefix", it[3]))
                terms.append(("loop", lp[1], win))
                i += 3
                if i < len(its) and its[i][0] == "REST" and its[i][1] == win:
                    i += 1
                continue
            shape.append(("LP", "elems"))
            terms.append(("prefix", it[3]))
            terms.append(("loop", (), win))
            i += 2
            continue
        if it[0] == "V" and nxt is not None and nxt[0] in ("RAW", "WINDOW") and uncast(nxt[2]) == it[3]:
            # a length prefix that is not taken for what was written
            shape.append(("LP", "read as %s and used as %s" % (it[1], show(nxt[2]))))
            terms.append(("prefix", it[3]))
            i += 1
            continue
        if it[0] == "V":
            shape.append(("V", it[1]))
            terms.append(("v", it[3]))
        elif it[0] == "F":
            shape.append(("F", fkind(it[1])))
            terms.append(("f", it[3]))
        elif it[0] == "CB":
            shape.append(("CB",))
            terms.append(("cb", it[3]))
        elif it[0] in ("SKIP", "REST", "RAW", "WINDOW", "LOOP", "CHAIN"):
            shape.append((it[0],))
            terms.append((it[0].lower(),) + tuple(it[2:]))
        i += 1
    return tuple(shape), terms


INT = re.compile(r"^[ui](8|16|32|64|128|size)$")


def value_norm(v, boolargs=()):
    def f(x):
        x = strip_views(x)
        if is_t(x, "cast") and INT.match(x[2]) and x[3] in boolargs:
            return x[3]
        if is_t(x, "fld") and x[3:] == ("Ok", "0") and is_t(x[2], "call"):
            n = str(x[2][2])
            if n.endswith("::from_utf8") or n.endswith("TryInto::try_into") or n.endswith("TryFrom::try_from"):
                return x[2][3][-1]
        if is_t(x, "fld") and x[3:] == ("Some", "0") and is_t(x[2], "call") and ("NonZero" in str(x[2][2])):
            return x[2][3][-1]
        if is_t(x, "call") and str(x[2]).split("::")[-1] in ("into", "from", "from_utf8_unchecked") and len(x[3]) >= 1 and isinstance(x[2], str):
            return x[3][-1]
        if x[0] == "adt" and x[1] == "mabo::NonZero" and len(x[4]) == 1:
            return x[4][0]
        if is_t(x, "not") and is_t(x[2], "eq") and x[2][2] == ("int", 0) and x[2][3] in boolargs:
            return x[2][3]
        if is_t(x, "eq") and x[2] == ("int", 1) and x[3] in boolargs:
            return x[3]
        if x[0] == "adt" and x[1].endswith("Cow") and len(x[4]) == 1:
            return x[4][0]
        if is_t(x, "call") and isinstance(x[2], str) and re.search(r"(Rc|Arc|Box)::new$", x[2]):
            return x[3][0]
        return x
    p = None
    while p != v:
        p = v
        v = rewrite(v, f)
    return v


def evalc(c):
    """Truth of a condition over constants, None if unknown."""
    if c[0] == "int":
        return bool(c[1])
    if is_t(c, "not"):
        r = evalc(c[2])
        return None if r is None else not r
    if is_t(c, "eq") and c[2][0] == "int" and c[3][0] == "int":
        return c[2][1] == c[3][1]
    if is_t(c, "lt") and c[2][0] == "int" and c[3][0] == "int":
        return c[2][1] < c[3][1]
    return None


def mentions_avail(c):
    return any(is_t(x, "call") and isinstance(x[2], str) and x[2].startswith(GET) and x[2][len(GET):] in ("remaining", "has_remaining") for x in walk(c))


def some_left(c, val):
    """The condition, with this value, says that input remains: True / that none does: False / anything else: None."""
    if is_t(c, "not"):
        return some_left(c[2], not val)
    if is_t(c, "call") and c[2] == GET + "has_remaining":
        return val
    if is_t(c, "lt"):
        if c[2] == ("int", 0) and rem_of(c[3]) is not None:
            return val
        if c[3] == ("int", 1) and rem_of(c[2]) is not None:
            return not val
    if is_t(c, "eq") and ("int", 0) in (c[2], c[3]) and (rem_of(c[2]) is not None or rem_of(c[3]) is not None):
        return not val
    return None


def uncast(t):
    t = plain(t)
    while is_t(t, "cast"):
        t = plain(t[3])
    return t


def plain(t):
    if is_t(t, "fld") and is_t(t[2], "call") and str(t[2][2]).split("::")[-1] in ("try_from", "try_into") and t[3:] == ("Ok", "0"):
        t = t[2][3][0]
    return t


def need_met(wk, c, val, k):
    """A check of the remaining input on the way to success asks for no more than the encoding provides."""
    if is_t(c, "not"):
        return need_met(wk, c[2], not val, k)
    s = some_left(c, val)
    vers = [y[3][0] for y in walk(c) if is_t(y, "call") and isinstance(y[2], str) and y[2].startswith(GET) and y[2][len(GET):] in ("remaining", "has_remaining")]
    if any(root(v) != wk.reader for v in vers):
        # the window of a length prefix
        if s is False:
            return None
        if is_t(c, "lt") or is_t(c, "eq"):
            if s is None:
                return "decoder stops reading elements when %s is %s, not when the input is used up" % (show(c), val)
        raise W.Unknown("check of the window in another form: %s" % show(c))
    x = ("int", 1) if s else None
    if is_t(c, "lt") and rem_of(c[2]) is not None and not val:
        x = plain(c[3])
    elif is_t(c, "lt") and rem_of(c[3]) is not None and val and c[2][0] == "int":
        x = ("int", c[2][1] + 1)
    if x is None:
        raise W.Unknown("check of the remaining input in another form: %s" % show(c))
    rest = wk.reads[k:]
    if any(r[0] in ("RAW", "WINDOW", "SKIP") and plain(r[2]) == x for r in rest):
        return None
    if x[0] == "int":
        lo = sum(W.width("get_" + r[1]) or 1 if r[0] == "F" else 1 for r in rest if r[0] in ("F", "V"))
        if x[1] <= lo:
            return None
        if any(r[0] in ("CB", "RAW", "WINDOW", "SKIP", "LOOP") for r in rest) is False or x[1] > lo:
            return "decoder demands %d byte(s) where the encoding may provide %d" % (x[1], lo)
    if any(is_t(y, "call") and "decode" in str(y[2]) for y in walk(x)):
        return "decoder demands %s byte(s) more, the encoding does not promise that" % show(x)
    raise W.Unknown("check of the remaining input in another form: %s" % show(c))


def match(I, eo, w, v0, boolargs, do, key, nonzero):
    """Try to match one encode path with one decode path. -> None when matched, else reason"""
    es, et = canon_items_enc(W.enc_items(I, eo.events, w))
    wk = Walk(I, T("arg", "r"))
    wk.run(do.events)
    ds, dt = canon_items_dec(wk.reads, do)
    if es != ds:
        bad = [x for x in ds if x[0] == "LP" and x[1].startswith("read as")]
        if bad:
            return "prefix", "the length prefix is %s, encoders write the u64 length" % bad[0][1]
        if any(x[0] in ("LOOP", "CHAIN", "RAW") for x in ds):
            raise W.Unknown("decoder loop over something other than a length-prefixed window")
        return "shape", "encoder writes %s, decoder reads %s" % (fmt_shape(es), fmt_shape(ds))
    m = {}
    loops = []
    for a, b in zip(et, dt):
        if a[0] == "prefix":
            m[b[1]] = W.size_term(I, a[1])
            if a[2] != W.size_term(I, a[1]):
                return "prefix", "length prefix %s is not the %s bytes that follow" % (show(a[1]), show(a[2]))
        elif a[0] in ("v", "f", "raw"):
            m[b[1]] = a[1]
        elif a[0] == "cb":
            m[T("fld", b[1], "Ok", "0")] = a[1][-1] if a[1] else A.UNIT
        elif a[0] == "loop":
            loops.append((a[1], b[1]))
    # element loops: one iteration of the encoder against one of the decoder
    elems = None
    for el, dl in loops:
        if len(el) != 1:
            return "loop", "encoder treats elements differently depending on conditions"
        if el[0][0]:
            return "loop", "encoder skips elements when %s" % ", ".join("%s is %s" % (show(c), v) for c, v in el[0][0])
        full = [(c, x) for c, x in dl]
        if not full:
            return "loop", "decoder reads no elements"
        ecb = [x for x in el[0][1]]
        for conds, x in full:
            if [y[0] for y in x] != [y[0] for y in ecb]:
                return "loop", "encoder writes %s per element, decoder reads %s" % ([y[0] for y in ecb], [y[0] for y in x])
            for c, val in conds:
                if mentions_avail(c):
                    left = some_left(c, val)
                    if left:
                        continue
                    if left is None and (is_t(c, "lt") or is_t(c, "eq")):
                        return "loop", "decoder reads another element only when %s is %s, not as long as input remains" % (show(c), val)
                    raise W.Unknown("element loop guarded by %s" % show(c))
                if is_t(c, "lt") and val and is_t(c[3], "cparam"):
                    continue
                return "loop", "decoder's element loop depends on %s" % show(c)
            for ye, yd in zip(ecb, x):
                if ye[0] == "CB":
                    m[T("fld", yd[3], "Ok", "0")] = ye[1][-1]
                elif ye[0] in ("V",):
                    m[yd[3]] = ye[2]
                elif ye[0] == "F":
                    m[yd[3]] = ye[2]
        elems = [y[1][-1] for y in ecb if y[0] == "CB"]
    # branch conditions of the decoder on what was written
    for c, val, k in wk.conds:
        if mentions_avail(c):
            r = need_met(wk, c, val, k)
            if r:
                return "restrict", r
            continue
        cs = value_norm(A.subst(c, m), boolargs)
        r = evalc(cs)
        if r is not None:
            if r != val:
                return "cond", "decoder takes this path only when %s is %s" % (show(cs), val)
            continue
        if nonzero and is_t(cs, "eq") and cs[2] == ("int", 0) and not val:
            continue
        return "restrict", "decoder accepts the written value only when %s is %s" % (show(cs), val)
    val = do.value
    if not (val and val[0] == "adt" and val[1] == A.RESULT and val[2] == 0):
        return "value", "decoder returns %s" % show(val)
    got = value_norm(A.subst(val[4][0], m), boolargs)
    eg = {g[1]: g[2] for g in W.guards(I, eo.events) if g[0] == "is"}
    if elems is not None:
        want = tuple(value_norm(x) for x in elems)
        ins = inserted(got, do, m)
        if ins is None:
            return "collect", "decoded elements do not reach the result: %s" % show(got)
        for x in ins:
            if tuple(value_norm(y) for y in x) != want:
                return "collect", "decoder collects %s where the encoder wrote %s" % ([show(y) for y in x], [show(y) for y in want])
        return None
    if v0 in eg:
        n = eg[v0]
        if got[0] == "adt" and got[3] == n and tuple(got[4]) == tuple(T("fld", v0, n, str(i)) for i in range(len(got[4]))):
            return None
        return "value", "decoder returns %s for %s" % (show(got), n)
    if got != v0:
        return "value", "decoder returns %s for the encoded %s" % (show(got), show(v0))
    return None


def fmt_shape(s):
    return " ".join("".join(str(y) if isinstance(y, str) else "(" + "".join(y) + ")" for y in x) if len(x) == 1 else x[0] + ":" + "".join(x[1] if isinstance(x[1], str) else x[1]) for x in s) or "nothing"


def inserted(got, do, m):
    """What each loop iteration contributes to the resulting collection."""
    g = strip_views(got)
    if g[0] == "vec":
        out = []
        for x in g[1]:
            if x[0] != "rep":
                return None
            for alt in x[1]:
                if not alt:
                    return None
                out.append(alt)
        return out
    base = root(g)
    out = []
    for e in do.events:
        if e[0] != "loop":
            continue
        for it in e[2]:
            k = [x for x in it if x[0] == "call" and isinstance(x[1], str) and x[1].split("::")[-1] in ("insert", "push") and root(x[2][0]) == base]
            if not k:
                return None
            for x in k:
                out.append(tuple(A.subst(y, m) for y in x[2][1:]))
    return out or None


def run(db, R):
    enc, _ = pairs(db)
    decs = {}
    for f in decoders(db):
        decs[f.item[7:] if f.kind == "Fn" else "impl " + f.self_s] = f
    done = 0
    for key, df in sorted(decs.items()):
        if key in ("skip", "id"):
            continue
        base, nonzero = key, False
        if key.startswith("non_zero_"):
            base, nonzero = key[9:], True
        ef = enc.get(base) or enc.get("impl " + base)
        if ef is None:
            R.v("no-encoder:" + key, "%s (%s) has no encoder of the same type" % (df.name, loc(df)))
            continue
        try:
            pair(db, R, key, ef, df, nonzero)
        except (W.Unknown, A.Unsupported) as e:
            R.undec(key, str(e))
    for key in sorted(enc):
        if key.startswith("impl "):
            continue
        if key not in decs and key not in ("tuple", "field", "field_option", "id"):
            R.v("no-decoder:" + key, "%s has no decoder" % enc[key].name)
    contiguous(db, R, decs)
    R.floor("encoder/decoder pairs", 55)
    R.floor("encode paths matched", 57)


def pair(db, R, key, ef, df, nonzero):
    I = W.interp(db)
    wi = writer_of(ef)
    eargs = I.arg_terms(ef)
    w = T("arg", "w")
    eargs[wi] = w
    eo = I.run(ef, eargs)
    vals = [i for i in range(ef.argc) if i != wi and ef.local_ty(i + 1)["k"] != "param"]
    v0 = eargs[vals[0]] if vals else None
    if v0 is not None and ef.local_ty(vals[0] + 1)["s"].endswith("VariantId"):
        v0 = ("adt", "mabo::VariantId", 0, "VariantId", (T("fld", v0, "value"),))
    bools = [eargs[i] for i in vals if ef.local_ty(i + 1)["s"] in ("bool", "&bool")]
    dargs = I.arg_terms(df)
    dargs[reader_of(df)] = T("arg", "r")
    do = [o for o in I.run(df, dargs)]
    good = [o for o in do if o.kind == "ret" and o.value[0] == "adt" and o.value[1] == A.RESULT and o.value[2] == 0]
    passed = [o for o in do if o.kind == "ret" and not (o.value[0] == "adt" and o.value[1] == A.RESULT)]
    R.saw(ef)
    R.saw(df)
    if passed:
        R.undec(key, "decoder returns an opaque result: %s" % show(passed[0].value))
        return
    R.n("encoder/decoder pairs")
    for o in eo:
        if o.kind != "ret":
            continue
        why, unk = [], None
        for d in good:
            try:
                r = match(I, o, w, v0, bools, d, key, nonzero)
            except W.Unknown as e:
                unk = unk or e
                continue
            if r is None:
                why = None
                break
            why.append(r)
        if why is not None and unk:
            raise unk
        if why is None:
            R.n("encode paths matched")
            R.sample("%s: %s" % (key, fmt_shape(canon_items_enc(W.enc_items(I, o.events, w))[0])))
            continue
        order = ["value", "collect", "restrict", "prefix", "loop", "cond", "shape"]
        why.sort(key=lambda x: order.index(x[0]))
        g = ", ".join("%s is %s" % (show(x[1]), x[2]) for x in W.guards(I, o.events) if x[0] == "is")
        R.v("mirror:" + key, "%s (%s) does not read back what %s writes%s: %s" % (df.name, loc(df), ef.name, " when " + g if g else "", why[0][1] if why else "it never succeeds"))


def contiguous(db, R, decs):
    """`chunk` shows only the first piece of a buffer; a value may span several (a chain of buffers)."""
    for key, df in sorted(decs.items()):
        I = W.interp(db)
        args = I.arg_terms(df)
        args[reader_of(df)] = T("arg", "r")
        try:
            outs = I.run(df, args)
        except A.Unsupported:
            continue
        for o in outs:
            ev = list(A.flat_events(o.events))
            sized = set()
            for e in ev:
                if e[0] == "cond":
                    for x in walk(e[1]):
                        if is_t(x, "len"):
                            sized |= {y for y in walk(x) if is_t(y, "call") and y[2] == GET + "chunk"}
            for e in ev:
                if e[0] != "call" or e[1] == GET + "chunk":
                    continue
                for a in e[2]:
                    if is_t(a, "call") and a[2] == GET + "chunk":
                        R.n("uses of the first chunk of a buffer")
                        if a not in sized and not str(e[1]).endswith("::len"):
                            if not isinstance(e[1], str):
                                R.undec(key, "the first chunk of the buffer is handed to an unknown function")
                                continue
                            R.v("chunk:" + "::".join(e[1].split("::")[-2:]), "%s line %s: parses only the first chunk of the buffer; a value that continues in the next chunk is reported as missing data" % (e[4][0], e[4][1]))
