"""Trace-partitioned abstract interpretation of MIR.

Values are immutable tuples. Known structure (constants, constructors, closures, token streams,
vectors built in place) is tracked exactly; everything else is an opaque *provenance term* naming
where it came from (argument, field, element of a collection, result of a call...). Enum matches on
opaque terms partition the trace by variant; loops are summarised (one abstract iteration over an
arbitrary element, accumulators are recognised, every other location changed by the loop is
forgotten). Functions of the workspace are inlined (recursion and anchors stay opaque).
No concrete input exists at any point, and no solver is involved.
"""
import os, re, sys
from facts import strip_generics

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


UNIT = ("tup", ())
TRUE = ("int", 1)
FALSE = ("int", 0)


def T(op, *a):
    return ("t", op) + a


def is_t(v, *ops):
    return isinstance(v, tuple) and len(v) > 1 and v[0] == "t" and (not ops or v[1] in ops)


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"


def some(v):
    return ("adt", OPTION, 1, "Some", (v,))


NONE = ("adt", OPTION, 0, "None", ())


def ok(v):
    return ("adt", RESULT, 0, "Ok", (v,))


def err(v):
    return ("adt", RESULT, 1, "Err", (v,))


def walk(v):
    """All sub-values."""
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def subst(v, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(v, tuple):
        return v
    k = id(v)
    r = memo.get(k)
    if r is not None:
        return r[0]
    if v in m:
        out = m[v]
    else:
        ch = False
        l = []
        for x in v:
            y = subst(x, m, memo) if isinstance(x, tuple) else x
            if y is not x:
                ch = True
            l.append(y)
        out = tuple(l) if ch else v
    memo[k] = (out, v)
    return out


class State:
    __slots__ = ("cells", "omem", "refine", "facts", "events", "n")

    def __init__(self):
        self.cells = {}
        self.omem = {}
        self.refine = {}
        self.facts = {}
        self.events = None
        self.n = 0

    def fork(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.omem = dict(self.omem)
        s.refine = dict(self.refine)
        s.facts = dict(self.facts)
        s.events = self.events
        s.n = self.n
        return s

    def ev(self, *e):
        self.events = (self.events, e)

    def events_list(self):
        out = []
        e = self.events
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


def flat_events(evs):
    """Depth-first flattening through loop summaries."""
    for e in evs:
        if e[0] == "loop":
            for it in e[2]:
                yield from flat_events(it)
        else:
            yield e


class Outcome:
    __slots__ = ("kind", "value", "st", "info")

    def __init__(self, kind, value, st, info=None):
        self.kind = kind
        self.value = value
        self.st = st
        self.info = info

    @property
    def events(self):
        return self.st.events_list()


class Frame:
    __slots__ = ("fn", "fid", "stack", "promo")

    def __init__(self, fn, fid, stack):
        self.fn = fn
        self.fid = fid
        self.stack = stack
        self.promo = None


def loops_of(body_blocks):
    """Natural loops: header -> set of blocks (union over back edges), for reducible CFGs."""
    n = len(body_blocks)
    succ = [successors(b["t"]) if b else [] for b in body_blocks]
    # iterative dominators (reverse postorder)
    order = []
    seen = [False] * n
    stack = [(0, iter(succ[0]))]
    seen[0] = True
    while stack:
        u, it = stack[-1]
        adv = False
        for v in it:
            if not seen[v]:
                seen[v] = True
                stack.append((v, iter(succ[v])))
                adv = True
                break
        if not adv:
            order.append(u)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = [[] for _ in range(n)]
    for u in order:
        for v in succ[u]:
            preds[v].append(u)
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for u in order:
        for v in succ[u]:
            if dom(v, u):
                body = loops.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    return loops


def successors(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[4]]
    return []


BOXLIKE = ("alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
           "alloc::rc::Rc", "alloc::sync::Arc")
INTBITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
           "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64, "bool": 1, "char": 32}


def wrap_int(v, ty):
    b = INTBITS.get(ty)
    if not b or ty in ("bool",):
        return v
    v &= (1 << b) - 1
    if ty[0] == "i" and v >> (b - 1):
        v -= 1 << b
    return v


class Interp:
    def __init__(self, db, opaque=None, inline=None, max_depth=40, max_paths=60000, expand_fmt=True, fork_fmt=False,
                 models=None, track_assert=False):
        import models as M
        self.db = db
        self.opaque = opaque or (lambda fn: False)
        self.inline = inline
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.paths = 0
        self.expand_fmt = expand_fmt
        self.fork_fmt = fork_fmt
        self.models = dict(M.MODELS)
        if models:
            self.models.update(models)
        self.track_assert = track_assert
        self.reclo, self.refn = 1, 1   # how often a closure or function may be entered again
        self.stepping = False      # step exactly through iterators over literal lists
        self.step_vecs = False     # ... also over vectors known element by element, and ranges of known numbers
        self.rty = ""
        self.next_fid = 0
        self.next_loop = 0
        self.acc_info = {}
        self.iter_panics = []
        self.carry = {}            # unknown loop variable -> values it has after one iteration
        self.visited = set()
        self.opaque_calls = {}
        self.iter_panics = []      # panics inside the closures of iterator adapters
        self.promo_cache = {}
        self.fnmeta = db.fnmeta
        self.display_impls = None
        self.altcarry = {}

    # ------------------------------------------------------------------ entry points
    def run(self, fn, args=None, st=None):
        st = st or State()
        if args is None:
            args = self.arg_terms(fn)
        return self.call_fn(fn, args, st, ())

    def arg_terms(self, fn):
        names = []
        for i in range(fn.argc):
            n = fn.locals[i + 1][1]
            names.append(T("arg", n or "_%d" % (i + 1)))
        return names

    # ------------------------------------------------------------------ functions
    def call_fn(self, fn, args, st, stack, body=None):
        self.visited.add(fn.id)
        self.next_fid += 1
        fr = Frame(fn, self.next_fid, stack + (fn.id,))
        fr.promo = body
        b = body or fn.body
        for i, a in enumerate(args):
            st.cells[(fr.fid, i + 1)] = a
        outs = self.explore(fr, 0, st, None, ())
        res = []
        for o in outs:
            if o.kind == "ret":
                v = o.st.cells.get((fr.fid, 0), UNIT)
                fid = fr.fid
                # pointers to dead cells cannot escape; drop the frame
                for k in [k for k in o.st.cells if k[0] == fid]:
                    del o.st.cells[k]
                res.append(Outcome("ret", v, o.st))
            else:
                res.append(o)
        return res

    def blocks(self, fr):
        return (fr.promo or fr.fn.body)["blocks"]

    def locals(self, fr):
        return (fr.promo or fr.fn.body)["locals"]

    def loops(self, fr):
        body = fr.promo or fr.fn.body
        l = body.get("_loops")
        if l is None:
            l = loops_of(body["blocks"])
            body["_loops"] = l
        return l

    def explore(self, fr, start, st, within, active):
        """DFS over the CFG from block `start`. `within`: block set of the current loop (None = function)."""
        outs = []
        loops = self.loops(fr)
        blocks = self.blocks(fr)
        work = [(start, st, True)]
        while work:
            bb, s, first = work.pop()
            if not first:
                if bb in active:
                    outs.append(Outcome("back", bb, s))
                    continue
                if within is not None and bb not in within:
                    outs.append(Outcome("exit", bb, s))
                    continue
            if bb in loops and bb not in active:
                for o in self.do_loop(fr, bb, s, loops[bb], active):
                    if o.kind == "exit":
                        work.append((o.value, o.st, False))
                    else:
                        outs.append(o)
                continue
            blk = blocks[bb]
            for stt in blk["s"]:
                self.stmt(fr, s, stt)
            self.term(fr, s, blk["t"], work, outs)
            if self.paths > self.max_paths:
                raise Unsupported("path limit in %s" % fr.fn.id)
        return outs

    # ------------------------------------------------------------------ loops
    def do_loop(self, fr, header, st, body, active):
        self.next_loop += 1
        lid = "L%d" % len([1 for k in st.facts if 0]) if False else "L%s:%d" % (fr.fn.id.split("::")[-1], header)
        act = active + (header,)
        changed = {}
        gens = {}
        entry_cells = st.cells
        entry_omem = st.omem
        for rnd in range(10):
            s = st.fork()
            s.events = (st.events, ("mark", lid))
            markers = {}
            for k, mode in changed.items():
                init = self.getk(st, k)
                mk = self.marker(lid, k, init, mode) if mode == "acc" else gens[k]
                markers[k] = mk
                self.setk(s, k, mk)
            outs = self.explore(fr, header, s, body, act)
            grew = False
            for o in outs:
                if o.kind != "back" or o.value != header:
                    continue
                for k in list(entry_cells.keys()):
                    old = self.getk(s, ("c", k)) if False else None
                    init = entry_cells[k]
                    kk = ("c", k)
                    new = o.st.cells.get(k)
                    if kk in changed:
                        if changed[kk] == "acc":
                            if not self.acc_ok(markers.get(kk, init), new, init):
                                changed[kk] = "phi"
                                gens[kk] = self.generalise(lid, k[1], init, init, new)
                                grew = True
                        else:
                            g = self.generalise(lid, k[1], init, gens[kk], new)
                            if g != gens[kk]:
                                gens[kk] = g
                                grew = True
                    elif new is not init and new != init:
                        changed[kk] = "acc" if self.acc_kind(init) and self.acc_ok(init, new, init) else "phi"
                        if changed[kk] == "phi":
                            gens[kk] = self.generalise(lid, k[1], init, init, new)
                        grew = True
                for k in set(o.st.omem) | set(entry_omem):
                    kk = ("o", k)
                    new = o.st.omem.get(k)
                    if kk in changed:
                        continue
                    if new != entry_omem.get(k):
                        if k in entry_omem or self.term_live_before(k, entry_cells):
                            changed[kk] = "phi"
                            gens[kk] = self.marker(lid, kk, self.getk(st, kk), "phi")
                            grew = True
            if not grew:
                break
        else:
            raise Unsupported("loop does not stabilise in %s" % fr.fn.id)
        # iteration traces and accumulator deltas
        iters = []
        deltas = {}
        seen = set()
        for o in outs:
            if o.kind == "back" and o.value == header:
                ev = tuple(self.since(o.st, lid))
                if ev:
                    if ev not in seen:
                        seen.add(ev)
                        iters.append(ev)
                self.altcarry.setdefault((lid, ev), []).append(
                    {gens[k] if mode == "phi" else ("acc", lid, self.keyname(k)):
                     self.getk(o.st, k) if mode == "phi" else self.acc_delta(markers[k], self.getk(o.st, k)) for k, mode in changed.items()})
                for k, mode in changed.items():
                    if mode == "phi":
                        self.carried(lid, gens[k], self.getk(o.st, k))
                    if mode == "acc":
                        d = self.acc_delta(markers[k], self.getk(o.st, k))
                        deltas.setdefault(k, [])
                        if d not in deltas[k]:
                            deltas[k].append(d)
        res = []
        m = {}
        for k, mode in changed.items():
            if mode == "acc":
                init = self.getk(st, k)
                self.acc_subst(m, markers[k], init, deltas.get(k, []))
        for o in outs:
            if o.kind == "back" and o.value == header:
                continue
            part = self.since(o.st, lid)
            o.st.events = st.events
            if iters:
                o.st.ev("loop", lid, tuple(iters))
            for e in part:
                o.st.events = (o.st.events, e)
            if m:
                memo = {}
                for k in list(o.st.cells):
                    v = o.st.cells[k]
                    if isinstance(v, tuple):
                        o.st.cells[k] = self.norm(self.subst_acc(v, m, memo))
                for k in list(o.st.omem):
                    o.st.omem[k] = self.norm(self.subst_acc(o.st.omem[k], m, memo))
            res.append(o)
        return res

    def term_live_before(self, k, cells):
        return True

    def since(self, st, lid):
        out = []
        e = st.events
        while e is not None:
            if e[1] == ("mark", lid):
                break
            out.append(e[1])
            e = e[0]
        out.reverse()
        return [x for x in out if x[0] != "mark"]

    def getk(self, st, k):
        return st.cells.get(k[1]) if k[0] == "c" else st.omem.get(k[1], k[1])

    def setk(self, st, k, v):
        if k[0] == "c":
            st.cells[k[1]] = v
        else:
            st.omem[k[1]] = v

    def keyname(self, k):
        return k[1][1] if k[0] == "c" else k[1]

    def acc_kind(self, v):
        if not isinstance(v, tuple):
            return None
        if v[0] in ("ts", "vec", "sbuf"):
            return v[0]
        if v[0] == "int" or is_t(v):
            return "num"
        return None

    def marker(self, lid, k, init, mode):
        if mode == "acc":
            kind = self.acc_kind(init)
            mk = ("acc", lid, self.keyname(k))
            if kind == "num":
                return T("accn", lid, self.keyname(k))
            return (kind, (mk,))
        return T("phi", lid, self.keyname(k), init if isinstance(init, tuple) else UNIT)

    def generalise(self, lid, name, init, cur, new):
        """Value at the start of an arbitrary iteration: unknown where `cur` (so far) and `new` (after the body) differ,
        field by field for structs and tuples."""
        if cur == new or (is_t(cur, "phi") and cur[2] == lid and cur[3] == name):
            return cur
        if all(isinstance(v, tuple) and v and v[0] == cur[0] for v in (init, new)):
            if cur[0] == "adt" and cur[1:4] == new[1:4] == init[1:4] and len(cur[4]) == len(new[4]) == len(init[4]):
                return cur[:4] + (tuple(self.generalise(lid, (name, i), *x) for i, x in enumerate(zip(init[4], cur[4], new[4]))),) + cur[5:]
            if cur[0] == "tup" and len(cur[1]) == len(new[1]) == len(init[1]):
                return ("tup", tuple(self.generalise(lid, (name, i), *x) for i, x in enumerate(zip(init[1], cur[1], new[1]))))
        return T("phi", lid, name, init if isinstance(init, tuple) else UNIT)

    def carried(self, lid, mk, new):
        """Records what the unknown parts of a loop variable become in one iteration."""
        if is_t(mk, "phi"):
            if mk[2] == lid:
                self.carry.setdefault(mk, set()).add(new)
        elif isinstance(mk, tuple) and isinstance(new, tuple) and mk and new and mk[0] == new[0] and mk[0] in ("adt", "tup"):
            i = 4 if mk[0] == "adt" else 1
            for a, b in zip(mk[i], new[i]):
                self.carried(lid, a, b)

    def acc_ok(self, base, new, init):
        if not isinstance(new, tuple):
            return False
        if base[0] in ("ts", "vec", "sbuf"):
            return new[0] == base[0] and new[1][:len(base[1])] == base[1]
        return self.num_delta(base, new) is not None

    def num_delta(self, base, new):
        """new == base + delta ?"""
        terms = add_terms(new)
        if base in terms:
            terms = list(terms)
            terms.remove(base)
            return tuple(terms)
        bt = list(add_terms(base))
        nt = list(add_terms(new))
        for b in bt:
            if b in nt:
                nt.remove(b)
            else:
                return None
        return tuple(nt)

    def acc_delta(self, mk, new):
        if mk[0] in ("ts", "vec", "sbuf"):
            return new[1][len(mk[1]):]
        return self.num_delta(mk, new)

    def acc_subst(self, m, mk, init, deltas):
        if mk[0] in ("ts", "vec", "sbuf"):
            ds = tuple(d for d in deltas)
            rep = init[1] + ((("rep", ds),) if any(ds) else ())
            m[mk[1][0]] = ("splice", rep)
        else:
            ds = [d for d in deltas if d]
            opt = any(not d for d in deltas)
            self.acc_info[mk] = (init, tuple(add_of(d) for d in deltas))
            m[mk] = add_of((init,) + tuple(T("sum", T("opt", add_of(d)) if opt else add_of(d)) for d in ds))

    def subst_acc(self, v, m, memo):
        if not isinstance(v, tuple):
            return v
        k = id(v)
        r = memo.get(k)
        if r is not None:
            return r[0]
        if v in m and m[v][0] != "splice":
            out = m[v]
        else:
            l = []
            ch = False
            for x in v:
                if isinstance(x, tuple):
                    mm = m.get(x)
                    if mm is not None and mm[0] == "splice":
                        l.extend(mm[1])
                        ch = True
                        continue
                    y = self.subst_acc(x, m, memo)
                else:
                    y = x
                if y is not x:
                    ch = True
                l.append(y)
            out = tuple(l) if ch else v
        memo[k] = (out, v)
        return out

    def norm(self, v):
        return v

    # ------------------------------------------------------------------ places
    def lty(self, fr, l):
        return fr.fn.crate.ty(self.locals(fr)[l][0])

    def adt_of(self, ty):
        while ty and ty["k"] == "ref":
            ty = None
        return ty["adt"] if ty and ty["k"] == "adt" else None

    def fieldname(self, adt_id, vidx, i):
        vs = self.db.variants(adt_id) if adt_id else None
        if vs and vidx < len(vs) and i < len(vs[vidx]["fields"]):
            return vs[vidx]["fields"][i][0]
        return str(i)

    def vname(self, adt_id, vidx):
        vs = self.db.variants(adt_id) if adt_id else None
        if vs and vidx < len(vs):
            return vs[vidx]["name"]
        return str(vidx)

    def deref_read(self, st, v):
        while isinstance(v, tuple) and v and v[0] == "ref":
            v = self.read_lv(st, v)
        return v

    def read_lv(self, st, r):
        """r = ('ref', cell, path)"""
        v = st.cells.get(r[1], T("undef"))
        for p in r[2]:
            v = self.deref_read(st, v) if p == "*" else self.proj1(st, v, p)
        return v

    def proj1(self, st, v, p):
        """p: ('f', idx, name, vidx|None, vname|None) or ('i', value) or other"""
        if isinstance(v, tuple) and v and v[0] == "ref":
            v = self.deref_read(st, v)
        k = p[0]
        if k == "f":
            if v[0] == "adt":
                if p[1] < len(v[4]) and (p[3] is None or p[3] == v[2]):
                    return v[4][p[1]]
                return T("undef")
            if v[0] in ("tup", "arr"):
                if p[1] < len(v[1]):
                    return v[1][p[1]]
                return T("undef")
            if v[0] == "clo":
                return v[2][p[1]]
            t = self.field_term(v, p)
            return st.omem.get(t, t)
        if k == "i":
            if v[0] in ("arr",) and p[1][0] == "int" and 0 <= p[1][1] < len(v[1]):
                return v[1][p[1][1]]
            if v[0] == "bytes" and p[1][0] == "int":
                b = bytes.fromhex(v[1])
                if p[1][1] < len(b):
                    return ("int", b[p[1][1]])
            t = T("idx", v, p[1])
            return st.omem.get(t, t)
        if k == "c":
            if v[0] == "arr" and not p[2] and p[1] < len(v[1]):
                return v[1][p[1]]
            if v[0] == "arr" and p[2] and p[1] <= len(v[1]):
                return v[1][len(v[1]) - p[1]]
            t = T("cidx", v, p[1], p[2])
            return st.omem.get(t, t)
        if k == "s":
            return T("subslice", v, p[1], p[2], p[3])
        return T("proj", v, p)

    def field_term(self, v, p):
        # elements of enumerate/zip tuples etc. stay symbolic
        if p[4] is not None:
            if v[0] == "t" and v[1] == "undef":
                return v
            return T("fld", v, p[4], p[2])
        return T("fld", v, p[2])

    def resolve(self, fr, st, place):
        """Returns ('cell', key, path) | ('val', value): where the place lives. Path elements as in proj1."""
        key = (fr.fid, place[0])
        ty = self.lty(fr, place[0])
        loc = ("cell", key, ())
        vidx = None
        vname = None
        for p in place[1:]:
            if p == "*":
                cur = self.load(st, loc)
                if isinstance(cur, tuple) and cur and cur[0] == "ref":
                    loc = ("cell", cur[1], cur[2])
                else:
                    loc = ("val", cur)
                k = ty["k"]
                if k in ("ref", "ptr"):
                    ty = fr.fn.crate.ty(ty["e"])
                elif k == "adt" and ty["args"]:
                    ty = fr.fn.crate.ty(ty["args"][0]) if isinstance(ty["args"][0], int) else ty
                vidx = vname = None
                continue
            if p == "?":
                continue
            if p[0] == "d":
                vidx = p[1]
                vname = p[2] or self.vname(self.adt_of(ty), p[1])
                continue
            if p[0] == "f":
                adt = self.adt_of(ty)
                if adt in BOXLIKE:
                    ty = fr.fn.crate.ty(p[2])
                    continue
                cur0 = None
                name = self.fieldname(adt, vidx or 0, p[1]) if adt else str(p[1])
                e = ("f", p[1], name, vidx, vname)
                ty = fr.fn.crate.ty(p[2])
                vidx = vname = None
            elif p[0] == "i":
                e = ("i", self.load(st, ("cell", (fr.fid, p[1]), ())))
                ty = fr.fn.crate.ty(ty["e"]) if "e" in ty else ty
            elif p[0] == "c":
                e = ("c", p[1], p[3])
                ty = fr.fn.crate.ty(ty["e"]) if "e" in ty else ty
            else:
                e = tuple(p)
            if loc[0] == "cell":
                loc = ("cell", loc[1], loc[2] + (e,))
            else:
                loc = ("val", self.proj1(st, loc[1], e))
        return loc, ty

    def load(self, st, loc):
        if loc[0] == "val":
            v = loc[1]
            if is_t(v) and v in st.omem:
                return st.omem[v]
            return v
        v = st.cells.get(loc[1])
        if v is None:
            v = T("undef")
        for p in loc[2]:
            v = self.proj1(st, v, p)
        return v

    def read(self, fr, st, place):
        if len(place) == 1:
            v = st.cells.get((fr.fid, place[0]))
            return T("undef") if v is None else v
        loc, _ = self.resolve(fr, st, place)
        return self.load(st, loc)

    def place_ty(self, fr, place):
        ty = self.lty(fr, place[0])
        for p in place[1:]:
            if p == "*":
                if ty["k"] in ("ref", "ptr"):
                    ty = fr.fn.crate.ty(ty["e"])
                elif ty["k"] == "adt" and ty["args"] and isinstance(ty["args"][0], int):
                    ty = fr.fn.crate.ty(ty["args"][0])
            elif p[0] == "f":
                ty = fr.fn.crate.ty(p[2])
            elif p[0] in ("i", "c") and "e" in ty:
                ty = fr.fn.crate.ty(ty["e"])
        return ty

    def store(self, st, loc, v):
        if loc[0] == "val":
            t = loc[1]
            # loc[1] is the current value of the place; find the lvalue term itself
            st.omem[self.lvterm(t)] = v
            return
        if not loc[2]:
            st.cells[loc[1]] = v
            return
        base = st.cells.get(loc[1])
        if base is None:
            base = T("undef")
        st.cells[loc[1]] = self.update(st, base, loc[2], v)

    def lvterm(self, t):
        while is_t(t, "mut"):
            t = t[2]
        return t

    def update(self, st, base, path, v):
        if not path:
            return v
        p = path[0]
        if isinstance(base, tuple) and base[0] == "ref":
            self.store(st, ("cell", base[1], base[2] + path), v)
            return base
        if p[0] == "f":
            i = p[1]
            if base[0] == "adt":
                fs = list(base[4])
                while len(fs) <= i:
                    fs.append(T("undef"))
                fs[i] = self.update(st, fs[i], path[1:], v)
                return base[:4] + (tuple(fs),)
            if base[0] in ("tup", "arr"):
                fs = list(base[1])
                while len(fs) <= i:
                    fs.append(T("undef"))
                fs[i] = self.update(st, fs[i], path[1:], v)
                return (base[0], tuple(fs))
            if base[0] == "clo":
                fs = list(base[2])
                fs[i] = self.update(st, fs[i], path[1:], v)
                return base[:2] + (tuple(fs),) + base[3:]
            if is_t(base, "undef"):
                return T("part", base, p[2], self.update(st, T("undef"), path[1:], v))
            t = self.field_term(base, p)
            cur = st.omem.get(t, t)
            st.omem[t] = self.update(st, cur, path[1:], v)
            return base
        if p[0] == "i" and base[0] == "arr" and p[1][0] == "int" and p[1][1] < len(base[1]):
            fs = list(base[1])
            fs[p[1][1]] = self.update(st, fs[p[1][1]], path[1:], v)
            return ("arr", tuple(fs))
        return T("upd", base, p, v)

    def write(self, fr, st, place, v):
        if len(place) == 1:
            st.cells[(fr.fid, place[0])] = v
            return
        # write through: compute location of the place without loading the last value
        loc = ("cell", (fr.fid, place[0]), ())
        ty = self.lty(fr, place[0])
        loc, ty = self.resolve_lv(fr, st, place)
        if loc[0] == "lv":
            st.omem[loc[1]] = v
        else:
            self.store(st, loc, v)

    def resolve_lv(self, fr, st, place):
        last = place[-1]
        if last == "*":
            l, ty = self.resolve(fr, st, place[:-1])
            cur = self.load(st, l)
            if isinstance(cur, tuple) and cur and cur[0] == "ref":
                return ("cell", cur[1], cur[2]), ty
            return ("lv", self.lvterm(cur)), ty
        l, ty = self.resolve(fr, st, place)
        if l[0] == "val":
            # recompute the lvalue term of the final projection
            for cut in range(len(place) - 1, 0, -1):
                if place[cut] == "*":
                    break
            l0, t0 = self.resolve(fr, st, place[:cut + 1])
            base = l0[1] if l0[0] == "val" else None
            # rebuild without consulting the overlay at the last step
            t = base
            ty2 = t0
            vidx = vname = None
            for p in place[cut + 1:]:
                if p == "?":
                    continue
                if p[0] == "d":
                    vidx, vname = p[1], p[2] or self.vname(self.adt_of(ty2), p[1])
                    continue
                if p[0] == "f":
                    adt = self.adt_of(ty2)
                    if adt in BOXLIKE:
                        ty2 = fr.fn.crate.ty(p[2])
                        continue
                    e = ("f", p[1], self.fieldname(adt, vidx or 0, p[1]) if adt else str(p[1]), vidx, vname)
                    t = self.field_term(t, e)
                    ty2 = fr.fn.crate.ty(p[2])
                    vidx = vname = None
                elif p[0] == "i":
                    t = T("idx", t, self.load(st, ("cell", (fr.fid, p[1]), ())))
                else:
                    t = T("proj", t, tuple(p))
            return ("lv", t), ty
        return l, ty

    def mut_ref(self, fr, st, place):
        if len(place) == 1:
            return ("ref", (fr.fid, place[0]), ())
        loc, _ = self.resolve_lv(fr, st, place)
        if loc[0] == "cell":
            # pointer to a cell holding a pointer's pointee etc.
            v = None
            return ("ref", loc[1], loc[2])
        return loc[1]

    # ------------------------------------------------------------------ statements
    def stmt(self, fr, st, s):
        if s[0] == "=":
            self.cur_line = s[3]
            v = self.rvalue(fr, st, s[2], s[1])
            self.write(fr, st, s[1], v)
        elif s[0] == "sd":
            cur = self.read(fr, st, s[1])
            ty = self.place_ty(fr, s[1])
            adt = self.adt_of(ty)
            fs = cur[4] if cur[0] == "adt" else ()
            self.write(fr, st, s[1], ("adt", adt, s[2], self.vname(adt, s[2]), fs))

    def operand(self, fr, st, o):
        if o[0] in ("cp", "mv"):
            return self.read(fr, st, o[1])
        if o[0] == "k":
            return self.const(fr, o[1])
        return FALSE

    def operand_ty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1])
        if o[0] == "k":
            return fr.fn.crate.ty(o[1]["ty"])
        return {"k": "bool", "s": "bool"}

    def mkfn(self, m):
        key = (m["id"], m.get("res"), tuple(m.get("args", ())))
        k = ("%s" % m["id"], m.get("res") or "", ",".join(str(x) for x in m.get("args", ())))
        self.fnmeta.setdefault(k, m)
        return ("fn", k)

    def const(self, fr, c):
        crate = fr.fn.crate
        ty = crate.ty(c["ty"])
        if "fn" in c:
            return self.mkfn(c["fn"])
        if "promoted" in c:
            return self.promoted(fr, c)
        if "str" in c:
            return ("str", c["str"])
        if "bytes" in c:
            return ("bytes", c["bytes"])
        if "int" in c:
            return self.scalar(ty, c["int"])
        if c.get("zst"):
            return self.zst(ty)
        if "param" in c:
            return T("cparam", c["param"])
        if "uneval" in c:
            f = self.db.fn(c["uneval"])
            if f is not None:
                return self.const_body(f, f.body)
            if "ptr" in c:
                v = self.mem_value(crate, ty, c["ptr"])
                if v is not None:
                    return v
            return T("const", strip_generics(c["uname"]), tuple(crate.tstr(a) if isinstance(a, int) else a for a in c.get("uargs", ())))
        if "ptr" in c:
            v = self.mem_value(crate, ty, c["ptr"])
            if v is not None:
                return v
            if "static" in (c["ptr"] or {}):
                return T("static", c["ptr"]["static"])
        if "slice" in c:
            v = self.slice_value(crate, ty, c["slice"], c["meta"])
            if v is not None:
                return v
        if "mem" in c:
            v = self.agg_value(crate, ty, c["mem"], 0)
            if v is not None:
                return v
        return T("konst", ty["s"], str(c)[:200])

    def agg_value(self, crate, ty, mem, off):
        k = ty["k"]
        hexs = mem.get("hex")
        if hexs is None:
            return None
        b = bytes.fromhex(hexs)
        if k in ("int", "uint", "bool", "char"):
            n = {"bool": 1}.get(ty["s"], INTBITS.get(ty["s"], 0) // 8)
            return ("int", wrap_int(int.from_bytes(b[off:off + n], "little"), ty["s"]))
        if k == "array" and isinstance(ty["n"], int):
            e = crate.ty(ty["e"])
            sz = self.sizeof(crate, e)
            if sz is None:
                return None
            vs = [self.agg_value(crate, e, mem, off + i * sz) for i in range(ty["n"])]
            return None if any(x is None for x in vs) else ("arr", tuple(vs))
        if k == "ref":
            e = crate.ty(ty["e"])
            for o, m in mem.get("ptrs", ()):
                if o == off and m:
                    if e["k"] in ("str", "slice"):
                        ln = int.from_bytes(b[off + 8:off + 16], "little")
                        return self.slice_value(crate, ty, m, ln)
                    return self.agg_value(crate, e, m, 0)
        if k == "tuple" and not ty["args"]:
            return UNIT
        if k == "tuple" and len(ty["args"]) == 1:
            v = self.agg_value(crate, crate.ty(ty["args"][0]), mem, off)
            return None if v is None else ("tup", (v,))
        return None

    def sizeof(self, crate, ty):
        k = ty["k"]
        if k in ("int", "uint", "char"):
            return INTBITS[ty["s"]] // 8
        if k == "bool":
            return 1
        if k == "ref":
            return 16 if crate.ty(ty["e"])["k"] in ("str", "slice", "dyn") else 8
        return None

    def mem_value(self, crate, ty, mem):
        if not mem or ty["k"] not in ("ref", "ptr"):
            return None
        e = crate.ty(ty["e"])
        if "hex" not in mem:
            return None
        if e["k"] == "array" and crate.ty(e["e"])["s"] == "u8":
            return ("bytes", mem["hex"])
        return self.agg_value(crate, e, mem, 0)

    def slice_value(self, crate, ty, mem, n):
        e = crate.ty(ty["e"])
        if "hex" not in mem:
            return None
        if e["k"] == "str":
            return ("str", bytes.fromhex(mem["hex"])[:n].decode("utf-8", "replace"))
        if e["k"] == "slice":
            ee = crate.ty(e["e"])
            if ee["s"] == "u8":
                return ("bytes", mem["hex"][:2 * n])
            sz = self.sizeof(crate, ee)
            if sz is None:
                return None
            vs = [self.agg_value(crate, ee, mem, i * sz) for i in range(n)]
            return None if any(v is None for v in vs) else ("arr", tuple(vs))
        return None

    def scalar(self, ty, v):
        if ty["k"] == "adt":
            vs = self.db.variants(ty["adt"])
            a = self.db.adts.get(ty["adt"])
            if a and a.get("enum"):
                for i, x in enumerate(vs):
                    if x["discr"] == v and not x["fields"]:
                        return ("adt", ty["adt"], i, x["name"], ())
            elif a and vs and len(vs[0]["fields"]) == 1:
                return ("adt", ty["adt"], 0, vs[0]["name"], (("int", v),))
        return ("int", v)

    def zst(self, ty):
        if ty["k"] == "closure":
            return ("clo", ty["id"], ())
        if ty["k"] == "tuple":
            return UNIT
        if ty["k"] == "fndef":
            return T("fnzst", ty["id"])
        if ty["k"] == "adt":
            vs = self.db.variants(ty["adt"])
            if vs and len(vs) == 1 and not vs[0]["fields"]:
                return ("adt", ty["adt"], 0, vs[0]["name"], ())
        if ty["k"] == "array":
            return ("arr", ())
        return T("zst", ty["s"])

    def promoted(self, fr, c):
        f = self.db.fn(c["uneval"])
        if f is None:
            return T("promoted", c["uneval"], c["promoted"])
        return self.const_body(f, f.promoted[c["promoted"]])

    def const_body(self, f, body):
        k = id(body)
        if k in self.promo_cache:
            return self.promo_cache[k]
        self.promo_cache[k] = T("constrec", f.id)
        outs = [o for o in self.call_fn(f, [], State(), (), body=body) if o.kind == "ret"]
        v = outs[0].value if len(outs) == 1 else T("constbody", f.id)
        if isinstance(v, tuple) and v and v[0] == "ref":
            v = T("constref", f.id)
        self.promo_cache[k] = v
        return v

    def rvalue(self, fr, st, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            if r[1] in ("mut", "raw"):
                return self.mut_ref(fr, st, r[2])
            v = self.read(fr, st, r[2])
            return v
        if k == "reb":
            return self.mut_ref(fr, st, r[2] + ["*"]) if r[1] == "mut" else self.read(fr, st, r[2] + ["*"])
        if k == "discr":
            v = self.deref_read(st, self.read(fr, st, r[1]))
            ty = self.place_ty(fr, r[1])
            adt = self.adt_of(ty)
            if v[0] == "adt":
                vs = self.db.variants(v[1]) or self.db.variants(adt)
                return ("int", vs[v[2]]["discr"] if vs else v[2])
            if v in st.refine and isinstance(st.refine[v], int):
                vs = self.db.variants(adt)
                return ("int", vs[st.refine[v]]["discr"] if vs else st.refine[v])
            return T("discr", v, adt or ty["s"])
        if k == "agg":
            ops = tuple(self.operand(fr, st, o) for o in r[2])
            a = r[1]
            if a[0] == "tuple":
                return ("tup", ops)
            if a[0] == "array":
                return ("arr", ops)
            if a[0] == "adt":
                if a[1] in BOXLIKE and ops:
                    return ops[0]
                return ("adt", a[1], a[2], a[3], ops)
            if a[0] in ("closure", "coroutine"):
                return ("clo", a[1], ops)
            return T("agg", a[0], ops)
        if k == "bin":
            return self.binop(fr, st, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), self.operand_ty(fr, r[2]))
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                ty = self.operand_ty(fr, r[2])
                if v[0] == "int":
                    return ("int", 1 - v[1]) if ty["k"] == "bool" else ("int", wrap_int(~v[1], ty["s"]))
                if is_t(v, "not"):
                    return v[2]
                return T("not", v)
            if r[1] == "Neg" and v[0] == "int":
                return ("int", -v[1])
            if r[1] == "PtrMetadata":
                return self.length(v)
            return T("un", r[1], v)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            if r[1] == "IntToInt":
                sty = self.operand_ty(fr, r[2])
                dty = fr.fn.crate.ty(r[3])
                if v[0] == "adt":
                    vs = self.db.variants(v[1])
                    v = ("int", vs[v[2]]["discr"] if vs else v[2])
                if v[0] == "int":
                    return ("int", wrap_int(v[1], dty["s"]))
                sb, dbb = INTBITS.get(sty["s"]), INTBITS.get(dty["s"])
                if sb and dbb and dbb >= sb:
                    return v
                return T("cast", dty["s"], v)
            if "Float" in r[1]:
                return T("cast", fr.fn.crate.tstr(r[3]), v)
            return v
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            if isinstance(r[2], int) and r[2] <= 64:
                return ("arr", (v,) * r[2])
            return T("repeat", v, str(r[2]))
        return T("rv", str(r)[:80])

    def length(self, v):
        if v[0] == "arr":
            return ("int", len(v[1]))
        if v[0] == "str":
            return ("int", len(v[1].encode()))
        if v[0] == "bytes":
            return ("int", len(v[1]) // 2)
        if v[0] == "vec" and all(x[0] not in ("rep", "spread", "acc") for x in v[1]):
            return ("int", len(v[1]))
        if v[0] == "iter" and all(x[0] in ("map", "enum", "enumerate", "rev", "copied", "cloned", "pairp") for x in v[2]):
            return self.length(v[1])
        return T("len", v)

    def binop(self, fr, st, op, a, b, ty):
        a = self.deref_read(st, a)
        b = self.deref_read(st, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        wo = op.endswith("WithOverflow")
        v = None
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            s = ty["s"]
            try:
                if base == "Add":
                    v = wrap_int(x + y, s)
                elif base == "Sub":
                    v = wrap_int(x - y, s)
                elif base == "Mul":
                    v = wrap_int(x * y, s)
                elif base == "Div" and y:
                    v = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                elif base == "Rem" and y:
                    v = x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
                elif base == "BitAnd":
                    v = x & y
                elif base == "BitOr":
                    v = x | y
                elif base == "BitXor":
                    v = x ^ y
                elif base == "Shl":
                    v = wrap_int(x << (y & (INTBITS.get(s, 64) - 1)), s)
                elif base == "Shr":
                    v = x >> (y & (INTBITS.get(s, 64) - 1))
                elif base == "Eq":
                    v = int(x == y)
                elif base == "Ne":
                    v = int(x != y)
                elif base == "Lt":
                    v = int(x < y)
                elif base == "Le":
                    v = int(x <= y)
                elif base == "Gt":
                    v = int(x > y)
                elif base == "Ge":
                    v = int(x >= y)
            except Exception:
                v = None
            if v is not None:
                return ("tup", (("int", v), FALSE)) if wo else ("int", v)
        if base in ("Eq", "Ne"):
            r = self.eq(st, a, b)
            return r if base == "Eq" else self.neg(r)
        if base == "Lt":
            return self.lt(a, b)
        if base == "Gt":
            return self.lt(b, a)
        if base == "Ge":
            return self.neg(self.lt(a, b))
        if base == "Le":
            return self.neg(self.lt(b, a))
        if base == "Add":
            r = add_of((a, b))
        elif base in ("BitAnd", "BitOr") and ty["k"] == "bool":
            r = self.boolop(base, a, b)
        elif base in ("BitAnd", "BitOr", "BitXor", "Mul"):
            r = T("bin", base) + tuple(sorted((a, b), key=repr))
        else:
            r = T("bin", base, a, b)
        if wo:
            return ("tup", (r, T("ovf", base, a, b)))
        return r

    def boolop(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x == TRUE:
                return y if op == "BitAnd" else TRUE
            if x == FALSE:
                return FALSE if op == "BitAnd" else y
        return T("bin", op) + tuple(sorted((a, b), key=repr))

    def lt(self, a, b):
        # len(x) > 0  <=>  not (len(x) == 0)
        if a == ("int", 0) and is_t(b, "len"):
            return self.neg(self.eq0(b))
        if is_t(a, "len") and b == ("int", 1):
            return self.eq0(a)
        return T("lt", a, b)

    def eq0(self, l):
        if l[0] == "int":
            return ("int", int(l[1] == 0))
        return T("eq", ("int", 0), l)

    def neg(self, v):
        if v[0] == "int":
            return ("int", 1 - v[1])
        if is_t(v, "not"):
            return v[2]
        return T("not", v)

    def eq(self, st, a, b):
        a = self.deref_read(st, a)
        b = self.deref_read(st, b)
        if a == b and a[0] in ("int", "str", "bytes"):
            return TRUE
        if a[0] == b[0] and a[0] in ("int", "str", "bytes"):
            return ("int", int(a == b))
        if a[0] == "adt" and b[0] == "adt":
            if a[2] != b[2]:
                return FALSE
            if not a[4] and not b[4]:
                return TRUE
        x, y = sorted((a, b), key=lambda z: (z[0] == "t", repr(z)))
        return T("eq", x, y)

    # ------------------------------------------------------------------ terminators
    def term(self, fr, st, t, work, outs):
        k = t[0]
        if k == "goto":
            work.append((t[1], st, False))
        elif k == "ret":
            self.paths += 1
            outs.append(Outcome("ret", None, st))
        elif k == "unreachable":
            return
        elif k == "drop":
            work.append((t[2], st, False))
        elif k == "switch":
            self.switch(fr, st, t, work)
        elif k == "assert":
            if self.track_assert:
                cond = self.operand(fr, st, t[1])
                ops = tuple(self.operand(fr, st, o) for o in t[3][1:] if isinstance(o, list))
                what = t[3][1] if t[3][0] == "overflow" else ""
                if cond[0] != "int":
                    st.ev("assert", t[3][0], what, ops, (fr.fn.id, t[5]))
                elif bool(cond[1]) != bool(t[2]):
                    st.ev("assertfail", t[3][0], what, ops, (fr.fn.id, t[5]))
                    outs.append(Outcome("panic", None, st, (t[3][0], fr.fn.id, t[5])))
                    return
            work.append((t[4], st, False))
        elif k == "call":
            self.call(fr, st, t, work, outs)
        else:
            raise Unsupported("terminator %s in %s" % (k, fr.fn.id))

    def assume(self, st, cond, val):
        """Record boolean fact; returns False when contradictory."""
        if cond[0] == "int":
            return bool(cond[1]) == val
        if is_t(cond, "not"):
            return self.assume(st, cond[2], not val)
        if cond in st.facts:
            return st.facts[cond] == val
        if is_t(cond, "isvar"):
            _, _, v, adt, idx = cond
            return self.refine_to(st, v, adt, idx) if val else self.refine_not(st, v, adt, idx)
        if is_t(cond, "bin") and cond[2] == "BitAnd" and val:
            if not (self.assume(st, cond[3], True) and self.assume(st, cond[4], True)):
                return False
        if is_t(cond, "bin") and cond[2] == "BitOr" and not val:
            if not (self.assume(st, cond[3], False) and self.assume(st, cond[4], False)):
                return False
        if is_t(cond, "eq") and val and cond[2][0] == "int":
            # x == c excludes x == c'
            for f, fv in st.facts.items():
                if fv and is_t(f, "eq") and f[3] == cond[3] and f[2][0] == "int" and f[2] != cond[2]:
                    return False
        if is_t(cond, "eq") and val and cond[2][0] == "str":
            for f, fv in st.facts.items():
                if fv and is_t(f, "eq") and f[3] == cond[3] and f[2][0] == "str" and f[2] != cond[2]:
                    return False
        st.facts[cond] = val
        st.ev("cond", cond, val)
        return True

    def refine_to(self, st, v, adt, idx):
        cur = st.refine.get(v)
        if isinstance(cur, int):
            return cur == idx
        if cur is not None and idx in cur:
            return False
        st.refine[v] = idx
        st.ev("is", v, self.vname(adt, idx))
        return True

    def refine_not(self, st, v, adt, idx):
        cur = st.refine.get(v)
        if isinstance(cur, int):
            return cur != idx
        cur = (cur or frozenset()) | {idx}
        vs = self.db.variants(adt)
        if vs:
            rest = [i for i in range(len(vs)) if i not in cur]
            if not rest:
                return False
            if len(rest) == 1:
                st.refine[v] = rest[0]
                st.ev("is", v, self.vname(adt, rest[0]))
                return True
            st.ev("not", v, tuple(self.vname(adt, i) for i in sorted(cur)))
        st.refine[v] = cur
        return True

    def switch(self, fr, st, t, work):
        v = self.deref_read(st, self.operand(fr, st, t[1]))
        ty = fr.fn.crate.ty(t[5])
        targets, other = t[2], t[3]
        if v[0] == "int":
            val = v[1] & ((1 << 128) - 1)
            b = INTBITS.get(ty["s"])
            if b:
                val &= (1 << b) - 1 if b > 1 else 1
            for tv, bb in targets:
                if tv == val:
                    work.append((bb, st, False))
                    return
            work.append((other, st, False))
            return
        if is_t(v, "discr"):
            term, adt = v[2], v[3]
            vs = self.db.variants(adt)
            if vs is None:
                vs = []
            d2i = {x["discr"]: i for i, x in enumerate(vs)}
            outs = []
            so = st.fork()
            okk = True
            for tv, bb in targets:
                idx = d2i.get(tv, tv)
                s2 = st.fork()
                if self.refine_to(s2, term, adt, idx):
                    outs.append((bb, s2, False))
                if okk:
                    okk = self.refine_not(so, term, adt, idx)
            if okk and self.blocks(fr)[other]["t"][0] != "unreachable":
                outs.append((other, so, False))
            work.extend(reversed(outs))
            return
        if ty["k"] == "bool":
            s2 = st.fork()
            outs = []
            for tv, bb in targets:
                s = st.fork()
                if self.assume(s, v, bool(tv)):
                    outs.append((bb, s, False))
            used = {bool(tv) for tv, _ in targets}
            for val in (True, False):
                if val not in used:
                    s = st.fork()
                    if self.assume(s, v, val):
                        outs.append((other, s, False))
            work.extend(reversed(outs))
            return
        outs = []
        so = st.fork()
        okk = True
        for tv, bb in targets:
            s = st.fork()
            c = self.eq(st, ("int", wrap_int(tv, ty["s"])), v)
            if self.assume(s, c, True):
                outs.append((bb, s, False))
            if okk:
                okk = self.assume(so, c, False)
        if okk and self.blocks(fr)[other]["t"][0] != "unreachable":
            outs.append((other, so, False))
        work.extend(reversed(outs))

    # ------------------------------------------------------------------ calls
    def call(self, fr, st, t, work, outs):
        _, fo, ao, dest, target, line, atys = t
        f = self.operand(fr, st, fo)
        args = [self.operand(fr, st, a) for a in ao]
        tys = [fr.fn.crate.rty(x) for x in atys]
        site = (fr.fn.id, line)
        # the type of the result, for models of functions that are generic in it
        self.rty = fr.fn.local_ty(dest[0])["s"] if len(dest) == 1 and fr.promo is None else ""
        for o in self.invoke(fr, st, f, args, tys, site, fr.stack):
            if o.kind == "ret":
                if target is None:
                    continue
                self.write(fr, o.st, dest, o.value)
                work.append((target, o.st, False))
            else:
                outs.append(o)

    def invoke(self, fr, st, f, args, tys, site, stack):
        f = self.deref_read(st, f)
        if f[0] == "fn":
            return self.invoke_fn(fr, st, self.fnmeta[f[1]], f, args, tys, site, stack)
        if f[0] == "clo":
            return self.invoke_closure(fr, st, f, None, args, site, stack)
        # opaque callable
        return self.opaque_call(fr, st, ("callv", f), [f] + list(args), [None] + list(tys or [None] * len(args)), site, impure=True)

    def invoke_closure(self, fr, st, clo, selfval, args, site, stack):
        body = self.db.fn(clo[1])
        if body is None or stack.count(clo[1]) > self.reclo or len(stack) > self.max_depth:
            return self.opaque_call(fr, st, ("clo", clo[1]), list(args), [None] * len(args), site, impure=True)
        env = selfval if selfval is not None else clo
        return self.call_fn(body, [env] + list(args), st, stack)

    def call_value(self, fr, st, f, args, site, stack, selfref=None):
        """Call a callable value with untupled args (used by models)."""
        g = self.deref_read(st, f)
        if g[0] == "clo":
            return self.invoke_closure(fr, st, g, f if f[0] == "ref" else None, args, site, stack)
        if g[0] == "fn":
            m = self.fnmeta[g[1]]
            return self.invoke_fn(fr, st, m, g, list(args), [None] * len(args), site, stack)
        return self.opaque_call(fr, st, ("callv", g), [g] + list(args), [None] * (len(args) + 1), site, impure=True)

    def fname(self, m):
        return strip_generics(m["name"])

    def invoke_fn(self, fr, st, m, f, args, tys, site, stack):
        if "ctor" in m:
            c = m["ctor"]
            return [Outcome("ret", ("adt", c[0], c[1], c[2], tuple(args)), st)]
        name = self.fname(m)
        if name in ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once"):
            tup = self.deref_read(st, args[1])
            a = list(tup[1]) if tup[0] == "tup" else [tup]
            return self.call_value(fr, st, args[0], a, site, stack)
        res = m.get("res")
        target = self.db.fn(res) if res else None
        if target is None:
            target = self.db.fn(m["id"]) if "trait" not in m else None
        if target is None and "trait" in m:
            # devirtualise through the known value of the receiver
            target = self.by_receiver(st, m, args)
            if target is None and m["id"] in self.db.fns and self.db.fns[m["id"]].d.get("intrait"):
                target = None
        h = self.models.get(name)
        if target is not None:
            derived = target.d.get("expn") and target.trait in ("core::clone::Clone", "core::cmp::PartialEq", "core::fmt::Debug",
                                                                "core::hash::Hash", "core::cmp::Eq", "core::default::Default")
            h2 = self.models.get(target.name)
            if h2 is None and target.trait and target.crate.name == "mabo_parser" and "punctuated" in (target.self_s or ""):
                h2 = h          # its iterators are modelled as the list's elements in order
            if h2 is not None:
                return self.model(h2, fr, st, args, m, site, stack, tys)
            if derived and h is not None:
                return self.model(h, fr, st, args, m, site, stack, tys)
            if not self.opaque(target) and not derived and len(stack) <= self.max_depth and stack.count(target.id) < self.refn \
                    and (self.inline is None or self.inline(target)):
                return self.call_fn(target, args, st, stack)
            return self.opaque_call(fr, st, target.name, args, tys, site, target=target)
        rn = strip_generics(m["resname"]) if "resname" in m else None
        if rn and rn in self.models:
            return self.model(self.models[rn], fr, st, args, m, site, stack, tys)
        if h is not None:
            return self.model(h, fr, st, args, m, site, stack, tys)
        return self.opaque_call(fr, st, name, args, tys, site)

    def by_receiver(self, st, m, args):
        if not args:
            return None
        v = self.deref_read(st, args[0])
        if v[0] != "adt":
            return None
        for fn in self.trait_impl_index().get((m["trait"], m["method"]), ()):
            d = fn.d
            sty = fn.crate.ty(d["self"])
            if sty.get("adt") == v[1]:
                return fn
        return None

    def trait_impl_index(self):
        ix = getattr(self.db, "_timpl", None)
        if ix is None:
            ix = {}
            for fn in self.db.fns.values():
                if fn.trait and fn.kind == "AssocFn":
                    ix.setdefault((fn.trait, fn.item), []).append(fn)
            self.db._timpl = ix
        return ix

    def model(self, h, fr, st, args, m, site, stack, tys):
        r = h(self, fr, st, args, m, site, stack, tys)
        if r is NotImplemented:
            return self.opaque_call(fr, st, self.fname(m), args, tys, site)
        if isinstance(r, list):
            return r
        return [Outcome("ret", r, st)]

    PANICS = re.compile(r"^(core|std)::(panicking::|option::(unwrap_failed|expect_failed)|result::unwrap_failed)|::panic_fmt$|^std::rt::begin_panic|^std::process::(exit|abort)")

    def opaque_call(self, fr, st, name, args, tys, site, target=None, impure=False):
        if isinstance(name, str) and self.PANICS.search(name):
            st.ev("panic", name, tuple(args), site)
            self.paths += 1
            return [Outcome("panic", None, st, (name, site[0], site[1]))]
        st.n += 1
        n = st.n
        mut = []
        vals = []
        for i, a in enumerate(args):
            ty = tys[i] if tys and i < len(tys) else None
            # a borrow of a borrow reaches the innermost place
            nested = False
            while ty is not None and ty["k"] == "ref" and ty.get("e2") is not None and ty["e2"]["k"] == "ref":
                mutable = ty["mut"]
                ty = ty["e2"]
                a = self.deref_read(st, a)
                nested = True
                if not mutable and ty["mut"]:
                    ty = dict(ty, mut=False)
            if nested and not (isinstance(a, tuple) and a and a[0] == "ref"):
                if ty["mut"] and is_t(a):
                    mut.append((i, a))
                vals.append(self.load(st, ("val", a)))
                continue
            isref = isinstance(a, tuple) and a and a[0] == "ref"
            if isref:
                mut.append((i, a))
                vals.append(self.deref_read(st, a))
            else:
                if ty is not None and ty["k"] == "ref" and ty["mut"] and is_t(a):
                    mut.append((i, a))
                    vals.append(self.load(st, ("val", a)))
                else:
                    vals.append(a)
                    for x in self.inner_refs(a):
                        mut.append((i, x))
        if mut or impure:
            res = T("call", name, tuple(vals), n)
        else:
            res = T("call", name, tuple(vals))
        nm = name if isinstance(name, str) else name[0]
        self.opaque_calls[nm] = self.opaque_calls.get(nm, 0) + 1
        st.ev("call", name, tuple(vals), res, site)
        for i, a in mut:
            if a[0] == "ref":
                old = self.deref_read(st, a)
                if isinstance(old, tuple) and old[0] == "iter":
                    continue
                self.store(st, ("cell", a[1], a[2]), T("mut", old, name, i, n))
            else:
                t = self.lvterm(a)
                st.omem[t] = T("mut", st.omem.get(t, t), name, i, n)
        return [Outcome("ret", res, st)]

    def inner_refs(self, a, depth=0):
        if isinstance(a, tuple) and a and depth < 4:
            if a[0] == "ref" and len(a) == 3 and isinstance(a[1], tuple):
                yield a
            elif a[0] in ("tup", "arr"):
                for x in a[1]:
                    yield from self.inner_refs(x, depth + 1)
            elif a[0] == "adt":
                for x in a[4]:
                    yield from self.inner_refs(x, depth + 1)
            elif a[0] == "clo":
                for x in a[2]:
                    yield from self.inner_refs(x, depth + 1)


def add_terms(v):
    if is_t(v, "add"):
        return tuple(v[2:])
    return (v,)


def add_of(vs):
    c = 0
    out = []
    for v in vs:
        for x in add_terms(v):
            if x[0] == "int":
                c += x[1]
            else:
                out.append(x)
    out.sort(key=repr)
    if c or not out:
        out.insert(0, ("int", c))
    if len(out) == 1:
        return out[0]
    return T("add", *out)


# ------------------------------------------------------------------ printing
def show(v, d=0):
    if not isinstance(v, tuple) or not v:
        return str(v)
    if d > 14:
        return "…"
    k = v[0]
    s = lambda x: show(x, d + 1)
    if k == "int":
        return str(v[1])
    if k == "str":
        return repr(v[1])
    if k == "bytes":
        return "b" + v[1]
    if k == "adt":
        n = v[3]
        return n + ("(" + ", ".join(map(s, v[4])) + ")" if v[4] else "")
    if k in ("tup", "arr"):
        return ("(%s)" if k == "tup" else "[%s]") % ", ".join(map(s, v[1]))
    if k == "clo":
        return "|clo %s %s|" % (v[1].split("::")[-2] if "::" in v[1] else v[1], ",".join(map(s, v[2])))
    if k == "fn":
        return "fn " + v[1][0].split("::")[-1]
    if k == "ts":
        return "ts`" + " ".join(map(tok, v[1])) + "`"
    if k == "vec":
        return "vec[" + ", ".join(map(s, v[1])) + "]"
    if k == "sbuf":
        return "sbuf[" + ", ".join(map(s, v[1])) + "]"
    if k == "rep":
        return "rep{" + " | ".join("(" + " ".join(map(tok, x)) + ")" for x in v[1]) + "}"
    if k == "iter":
        return "iter(%s)" % s(v[1])
    if k == "ref":
        return "&mut %s%s" % (v[1], v[2] or "")
    if k == "fmt":
        return "fmt[" + ", ".join(x if isinstance(x, str) else (repr(x[1]) if x[0] == "lit" else "{%s:%s}" % (s(x[2]), x[1])) for x in v[1]) + "]"
    if k == "t":
        op = v[1]
        if op == "arg":
            return str(v[2])
        if op == "fld":
            return s(v[2]) + "." + ".".join(str(x) for x in v[3:])
        if op == "elem":
            return "elem(" + s(v[2]) + ")"
        if op == "call":
            n = v[2] if isinstance(v[2], str) else str(v[2][0])
            return n.split("::")[-1] + "(" + ", ".join(map(s, v[3])) + ")" + ("#%d" % v[4] if len(v) > 4 else "")
        if op == "mut":
            return s(v[2]) + "'"
        return op + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in v[2:]) + ")"
    return "<" + ",".join(s(x) if isinstance(x, tuple) else str(x) for x in v) + ">"


def tok(t):
    if isinstance(t, str):
        return t
    if t[0] == "grp":
        o, c = {"Parenthesis": "()", "Brace": "{}", "Bracket": "[]", "None": "⟦⟧"}[t[1]]
        return o + " " + " ".join(map(tok, t[2])) + " " + c
    if t[0] == "hole":
        return "⟨" + show(t[1]) + "⟩"
    if t[0] == "rep":
        return "REP{" + " | ".join(" ".join(map(tok, x)) for x in t[1]) + "}"
    return show(t)


def show_events(evs, ind=0):
    out = []
    for e in evs:
        p = "  " * ind
        if e[0] == "loop":
            out.append(p + "loop " + e[1])
            for it in e[2]:
                out.append(p + " iter:")
                out.append(show_events(it, ind + 2))
        elif e[0] == "call":
            n = e[1] if isinstance(e[1], str) else str(e[1][0])
            out.append(p + "call %s(%s)" % (n, ", ".join(map(show, e[2]))))
        elif e[0] == "cond":
            out.append(p + "cond %s = %s" % (show(e[1]), e[2]))
        elif e[0] == "is":
            out.append(p + "is %s :: %s" % (show(e[1]), e[2]))
        else:
            out.append(p + " ".join(show(x) if isinstance(x, tuple) else str(x) for x in e))
    return "\n".join(out)
