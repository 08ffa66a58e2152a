"""Decoding terminates with work and memory bounded by the input: every successful read consumes at least one byte,
every loop iteration reads, and nothing is allocated from an unchecked length."""
from rules.common import *
from rules import wire as W
from rules.dec import *
from rules.p_decsafe import decoders, reader_of, where

ALLOC = re.compile(r"(::with_capacity(_and_hasher)?|::reserve(_exact)?|::resize|::from_elem|::repeat|iter::repeat_n|::set_len|::take_bytes)$")
READS = ("V", "F", "RAW", "CB", "SKIP", "REST", "LOOP", "WINDOW")


def input_len(n):
    """mentions a number decoded from the input"""
    return any(is_t(x, "call") and (str(x[2]).startswith(W.VAR + "decode_") or str(x[2]).startswith(W.GET + "get_")) for x in walk(n))


def run(db, R):
    for fn in sorted(decoders(db), key=lambda f: f.name):
        I = W.interp(db)
        args = I.arg_terms(fn)
        args[reader_of(fn)] = T("arg", "r")
        try:
            outs = I.run(fn, args)
        except A.Unsupported as e:
            R.undec(fn.name, str(e))
            continue
        R.saw(fn)
        bad = False
        try:
            for o in outs:
                w = Walk(I, T("arg", "r"))
                w.run(o.events)
                okk = o.kind == "ret" and not (o.value[0] == "adt" and o.value[1] == A.RESULT and o.value[2] == 1)
                if okk:
                    R.n("successful paths")
                    if not any(x[0] in ("V", "F", "CB") or x[0] == "SKIP" and x[2][0] == "int" and x[2][1] > 0 for x in w.reads):
                        if not any(x[0] == "LOOP" and all(must_read(a) for a in x[1]) for x in w.reads) or not w.reads:
                            bad = True
                            R.v("progress:" + fn.name, "%s (%s): a successful decode consumes nothing, so a sequence of such elements never ends" % (fn.name, loc(fn)))
                loops(R, fn, o.events, T("arg", "r"), w)
                allocs(R, fn, o.events)
        except W.Unknown as e:
            R.undec(fn.name, str(e))
            continue
        R.n("decoders decided")
    R.floor("decoders decided", 50)
    R.floor("loop iterations that read", 12)


def must_read(alt):
    return any(x[0] in ("V", "F", "CB", "SKIP", "RAW") for x in alt[1])


def loops(R, fn, events, r, w):
    for e in events:
        if e[0] != "loop":
            continue
        for it in e[2]:
            w2 = Walk(w.I, w.reader)
            o2 = w2.run(it)
            touches = any(x[0] == "call" and isinstance(x[1], str) and x[1].startswith(W.GET) for x in it)
            finite = any(x[0] == "cond" and is_t(x[1], "isvar") or x[0] == "next" for x in it) and not touches
            if any(x[0] in ("V", "F", "CB") or x[0] in ("SKIP",) and x[2][0] == "int" and x[2][1] > 0 for x in o2):
                R.n("loop iterations that read")
            elif touches:
                R.v("loop:" + fn.name, "%s (%s): a loop over the remaining input has an iteration that consumes nothing" % (fn.name, loc(fn)))
            loops(R, fn, it, r, w)


def allocs(R, fn, events):
    f = Facts()

    def go(evs, f):
        for e in evs:
            if e[0] == "cond":
                f.cond(e[1], e[2])
            elif e[0] == "loop":
                for it in e[2]:
                    go(it, Facts(f))
            elif e[0] == "alloc":
                judge(e[1], e[2], f)
            elif e[0] == "call" and isinstance(e[1], str) and ALLOC.search(e[1]):
                for a in e[2]:
                    judge(a, e[4], f)

    def judge(n, site, f):
        n = value_uncast(n)
        if not input_len(n):
            return
        if any(n in s for s in f.low.values()) or any(is_t(x, "call") and str(x[2]).endswith("::min") for x in walk(n)):
            R.n("allocations covered by a length check")
            return
        if any(is_t(n, "bin") or is_t(n, "add") or is_t(n, "call") for _ in (0,)) and any(p in s for s in f.low.values() for p in walk(n)):
            R.n("allocations covered by a length check")
            return
        R.v("alloc:" + fn.name, "%s (%s): memory is reserved for a length taken from the input before the buffer is known to hold that many bytes" % (fn.name, where(site)))
    go(events, f)


def value_uncast(n):
    return n
