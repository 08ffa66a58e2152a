"""Length prefixes delimit exactly: the whole announced part must be there, and all of it is consumed."""
from rules.common import *
from rules import wire as W
from rules.dec import *
from rules.p_decsafe import decoders, reader_of, where
from rules.p_mirror import some_left, plain


def run(db, R):
    for fn in sorted(decoders(db), key=lambda f: f.name):
        I = W.interp(db)
        args = I.arg_terms(fn)
        args[reader_of(fn)] = T("arg", "r")
        try:
            outs = I.run(fn, args)
        except A.Unsupported as e:
            R.undec(fn.name, str(e))
            continue
        R.saw(fn)
        for o in outs:
            if o.kind != "ret" or not (o.value[0] == "adt" and o.value[3] == "Ok"):
                continue
            R.n("successful paths")
            w = Walk(I, T("arg", "r"))
            try:
                w.run(o.events)
            except W.Unknown as e:
                R.undec(fn.name, str(e))
                continue
            for r in w.reads:
                if r[0] in ("RAW", "SKIP"):
                    R.n("length-delimited parts")
            for n, have, win, site in w.windows:
                R.n("length-delimited parts")
                if not have:
                    R.v("truncated:%s" % fn.name, "%s (%s): a part of %s bytes is taken as whatever is left of the input; a truncated input is accepted as a shorter value" % (fn.name, where(site), show(n)))
                done = any(x[0] == "REST" and x[1] == win for x in w.reads)
                for c, val, k in w.conds:
                    if some_left(c, val) is False and win in [root(y[3][0]) for y in walk(c) if isbufterm(y)]:
                        done = True
                if done:
                    R.n("windows consumed to their end")
                    continue
                R.v("leftover:%s" % fn.name, "%s (%s): it can succeed with part of the %s announced bytes unread; the next value is then read from the middle of this one" % (fn.name, where(site), show(n)))
    R.floor("length-delimited parts", 20)
    R.floor("windows consumed to their end", 6)


def isbufterm(y):
    return is_t(y, "call") and isinstance(y[2], str) and y[2] in (GET + "remaining", GET + "has_remaining")
