"""M25: every request of the editor gets exactly one answer, every notification is handled once, in order."""
from rules.lsp import *
from rules.common import loc
from rules.trace import flat

# the protocol: what a message of a method carries
REQUESTS = {"textDocument/hover": "HoverParams", "textDocument/documentSymbol": "DocumentSymbolParams", "textDocument/semanticTokens/full": "SemanticTokensParams"}
NOTES = {"textDocument/didOpen": "DidOpenTextDocumentParams", "textDocument/didChange": "DidChangeTextDocumentParams", "textDocument/didClose": "DidCloseTextDocumentParams",
         "workspace/didDeleteFiles": "DeleteFilesParams", "workspace/didChangeConfiguration": "DidChangeConfigurationParams", "initialized": "InitializedParams"}
PROVIDERS = {"hover_provider": "textDocument/hover", "document_symbol_provider": "textDocument/documentSymbol", "semantic_tokens_provider": "textDocument/semanticTokens/full",
             "definition_provider": "textDocument/definition", "references_provider": "textDocument/references", "completion_provider": "textDocument/completion",
             "rename_provider": "textDocument/rename", "document_formatting_provider": "textDocument/formatting", "folding_range_provider": "textDocument/foldingRange",
             "code_action_provider": "textDocument/codeAction", "code_lens_provider": "textDocument/codeLens", "inlay_hint_provider": "textDocument/inlayHint",
             "document_highlight_provider": "textDocument/documentHighlight", "document_link_provider": "textDocument/documentLink", "workspace_symbol_provider": "workspace/symbol"}
TYPES = {"HoverRequest": "textDocument/hover", "DocumentSymbolRequest": "textDocument/documentSymbol", "SemanticTokensFullRequest": "textDocument/semanticTokens/full", "Shutdown": "shutdown",
         "DidOpenTextDocument": "textDocument/didOpen", "DidChangeTextDocument": "textDocument/didChange", "DidCloseTextDocument": "textDocument/didClose",
         "DidDeleteFiles": "workspace/didDeleteFiles", "DidChangeConfiguration": "workspace/didChangeConfiguration", "Initialized": "initialized",
         "WorkspaceConfiguration": "workspace/configuration", "RegisterCapability": "client/registerCapability", "PublishDiagnostics": "textDocument/publishDiagnostics"}
TAKES = ("recv", "recv_timeout", "recv_deadline", "try_recv", "iter", "try_iter", "into_iter", "next")
MSG = "lsp_server::msg::Message"


class Requests(LspInterp):
    def const(self, fr, c):
        v = super().const(fr, c)
        if is_t(v, "const") and v[2].endswith("::METHOD") and c.get("uargs"):
            t = self.rty_of(fr, c["uargs"][0])
            n = TYPES.get((t or {"s": ""})["s"].rsplit("::", 1)[-1])
            if n and t["s"].startswith("lsp_types::"):
                return ("str", n)
        return v


def s_(x):
    return ("str", x)


class Loop:
    def __init__(self, db):
        self.db = db
        self.handler = {}
        for f in db.fns.values():
            if f.crate.name == CRATE and f.kind in ("Fn", "AssocFn") and f.argc == 2 and "GlobalState" in f.local_ty(1)["s"] and f.local_ty(2)["s"].startswith("lsp_types::"):
                self.handler[f.id] = f.local_ty(2)["s"].split("<")[0].rsplit("::", 1)[1]

        # those that take messages off the connection are followed, the work of the others is another matter
        self.asking = {i for i in self.handler if any("crossbeam_channel::" in c and c.rsplit("::", 1)[1] in TAKES for g in db.reach(db.fns[i]).values() for c in db.mentions(g))}

    def handled(self, f):
        def h(I, fr, st, args, m, site, stack, tys):
            p = I.deref_read(st, args[1])
            r = A.UNIT if f.local_ty(0)["s"] == "()" else T("handled", f.id, p)
            st.ev("call", "handler", (f.id, p), r, site)
            return r
        return h

    def message(self, kind, *a):
        vs = self.db.variants(MSG)
        i = next(i for i, v in enumerate(vs) if v["name"] == kind)
        return ("adt", MSG, i, kind, (adt(self.db, "lsp_server::msg::" + kind, **dict(a)),))

    def request(self, n, method):
        return self.message("Request", ("id", T("arg", "id%d" % n)), ("method", s_(method)), ("params", T("arg", "params%d" % n)))

    def note(self, n, method):
        return self.message("Notification", ("method", s_(method)), ("params", T("arg", "params%d" % n)))

    def response(self, n, id, failed=False):
        return self.message("Response", ("id", T("reqid", ("int", id))), ("result", A.NONE if failed else some(T("arg", "result%d" % n))), ("error", some(T("arg", "error%d" % n)) if failed else A.NONE))

    def interp(self, inbox):
        db = self.db

        def take(I, st, site):
            n = sum(1 for e in flat(st.events_list()) if e[0] == "call" and e[1] == "take")
            st.ev("call", "take", (("int", n),), A.UNIT, site)
            return inbox[n] if n < len(inbox) else None

        def as_result(I, fr, st, args, m, site, stack, tys):
            v = take(I, st, site)
            return ok(v) if v is not None else A.err(T("closed"))

        def as_option(I, fr, st, args, m, site, stack, tys):
            v = take(I, st, site)
            return some(v) if v is not None else A.NONE
        rx = "crossbeam_channel::channel::"
        ms = {rx + "Receiver::" + n: as_result for n in ("recv", "recv_timeout", "recv_deadline", "try_recv")}
        ms[rx + "Receiver::iter"] = ms[rx + "Receiver::try_iter"] = lambda I, fr, st, args, m, site, stack, tys: T("inbox")

        def parse(I, fr, st, args, m, site, stack, tys):
            v = plain(I.deref_read(st, args[0]))
            s = st.fork()
            s.ev("call", "parsed", (v, A.TRUE), A.UNIT, site)
            st.ev("call", "parsed", (v, A.FALSE), A.UNIT, site)
            return [ret(ok(T("parsed", v)), s), ret(A.err(T("malformed", v)), st)]
        ms["serde_json::value::from_value"] = ms["serde_json::from_value"] = parse

        def extract(I, fr, st, args, m, site, stack, tys):
            note, meth = I.deref_read(st, args[0]), plain(I.deref_read(st, args[1]))
            req = I.fname(m).split("::")[-2] == "Request"
            own = plain(get(db, note, "method"))
            if own[0] != "str" or meth[0] != "str":
                return NotImplemented
            if own != meth:
                return A.err(T("mismatch", own, meth))
            outs = parse(I, fr, st, [get(db, note, "params")], m, site, stack, tys)
            if req:
                for o in outs:
                    if o.value[3] == "Ok":
                        o.value = ok(("tup", (get(db, note, "id"), o.value[4][0])))
            return outs
        for k in ("Notification", "Request"):
            ms["lsp_server::msg::%s::extract" % k] = extract
        ms["core::num::<impl i32>::wrapping_add"] = lambda I, fr, st, args, m, site, stack, tys: ("int", args[0][1] + args[1][1]) if args[0][0] == args[1][0] == "int" else NotImplemented
        ms["lsp_server::msg::Request::new"] = lambda I, fr, st, args, m, site, stack, tys: T("request", *args_of(I, st, args))
        ms["lsp_server::msg::Response::new_ok"] = lambda I, fr, st, args, m, site, stack, tys: T("answer", args_of(I, st, args)[0], "ok", args_of(I, st, args)[1:])
        ms["lsp_server::msg::Response::new_err"] = lambda I, fr, st, args, m, site, stack, tys: T("answer", args_of(I, st, args)[0], "err", args_of(I, st, args)[1:])

        def shutdown(I, fr, st, args, m, site, stack, tys):
            r = I.deref_read(st, args[1])
            meth = plain(get(db, r, "method"))
            if meth[0] != "str":
                return NotImplemented
            if meth[1] != "shutdown":
                return ok(A.FALSE)
            st.ev("call", "send", (T("conn"), T("answer", get(db, r, "id"), "ok", (A.UNIT,))), A.UNIT, site)
            take(I, st, site)
            return ok(A.TRUE)
        ms["lsp_server::Connection::handle_shutdown"] = shutdown
        for i in self.handler:
            if i not in self.asking:
                ms[db.fns[i].name] = self.handled(db.fns[i])
        I = Requests(db, models=ms)
        for n in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
            I.models[n] = same_id(I.models.get(n), n.endswith("ne"))
        nx = I.models.get("core::iter::traits::iterator::Iterator::next")

        def nxt(I, fr, st, args, m, site, stack, tys):
            v = I.deref_read(st, args[0])
            if is_t(v, "inbox") or "crossbeam_channel" in ((tys[0] or {}).get("s", "") if tys else ""):
                return as_option(I, fr, st, args, m, site, stack, tys)
            return nx(I, fr, st, args, m, site, stack, tys) if nx else NotImplemented
        I.models["core::iter::traits::iterator::Iterator::next"] = nxt
        it = I.models.get("core::iter::traits::collect::IntoIterator::into_iter")

        def into_iter(I, fr, st, args, m, site, stack, tys):
            if "crossbeam_channel" in ((tys[0] or {}).get("s", "") if tys else ""):
                return T("inbox")
            return it(I, fr, st, args, m, site, stack, tys) if it else NotImplemented
        I.models["core::iter::traits::collect::IntoIterator::into_iter"] = into_iter
        return I


def same_id(base, neg):
    def h(I, fr, st, args, m, site, stack, tys):
        a, b = (I.deref_read(st, I.deref_read(st, x)) for x in args[:2])
        if is_t(a, "reqid") or is_t(b, "reqid"):
            x, y = (v[2] if is_t(v, "reqid") else v for v in (a, b))
            if x[0] == y[0] == "int":
                return A.TRUE if (x == y) != neg else A.FALSE
        return base(I, fr, st, args, m, site, stack, tys) if base else NotImplemented
    return h



def run(db, R):
    L = Loop(db)
    fns = [f for f in db.fns.values() if f.crate.name == CRATE and f.kind in ("Fn", "AssocFn") and any(c.endswith("::handle_shutdown") for c in db.mentions(f))]
    if len(fns) != 1:
        R.undec("message loop", "%d functions handle the shutdown" % len(fns))
        return
    f = fns[0]
    R.saw(f)
    hover, note = L.request(1, "textDocument/hover"), L.note(2, "textDocument/didChange")
    cfg = "workspace/didChangeConfiguration"
    cases = [("request " + m, [L.request(0, m)]) for m in REQUESTS] + [("a request of an unknown method", [L.request(0, "demo/unknown")]), ("an optional request", [L.request(0, "$/unknown")]), ("shutdown", [L.request(0, "shutdown")])]
    cases += [("notification " + m, [L.note(0, m)]) for m in NOTES] + [("a notification of an unknown method", [L.note(0, "demo/unknown")]), ("a response nobody waits for", [L.response(0, 77)])]
    cases += [("three messages", [L.request(0, "textDocument/documentSymbol"), note, hover]), ("no message", [])]
    mid = {"a request": [hover], "a notification": [note], "a request and a notification": [hover, note], "a notification and a request": [note, hover],
           "another response": [L.response(3, 77)], "nothing": [], "a failure": None}
    for k, x in mid.items():
        for failed in (False, True):
            if x is not None:
                cases.append(("%s before the %s to a request of the server" % (k, "failure" if failed else "response"),
                              [L.note(0, cfg)] + x + [L.response(4, 1, failed), L.request(5, "textDocument/documentSymbol")]))
    for label, inbox in cases:
        R.n("sequences of messages")
        try:
            judge(db, R, L, f, label, inbox)
        except (A.Unsupported, P.Unsure, Undecided) as x:
            R.undec(label, str(x))
    announced(db, R, L, f)
    R.floor("sequences of messages", 20)


def start(db, L, I, f):
    """The state of a server that has just started, and the arguments of the loop."""
    new = [g for g in db.fns.values() if g.crate.name == CRATE and g.kind == "AssocFn" and g.argc == 1 and g.local_ty(0)["s"].startswith(CRATE) and "GlobalState" in g.local_ty(0)["s"] and "Connection" in g.local_ty(1)["s"]]
    if len(new) != 1:
        raise Undecided("%d ways to start" % len(new))
    conn = T("conn")
    outs = I.call_fn(new[0], [conn], A.State(), ())
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Undecided("start of the server")
    st, state = outs[0].st, outs[0].value
    args = []
    for i in range(1, f.argc + 1):
        t = f.local_ty(i)["s"]
        if "GlobalState" in t:
            if t.startswith("&"):
                k = ("x", "state")
                st.mem[k] = state
                args.append(("ref", k, ()))
            else:
                args.append(state)
        elif "Connection" in t:
            args.append(conn)
        else:
            raise Undecided("parameter %s" % t)
    return st, args


def judge(db, R, L, f, label, inbox):
    where = "%s (%s)" % (f.name, loc(f))
    I = L.interp(inbox)
    st, args = start(db, L, I, f)
    outs = I.call_fn(f, args, st, ())
    for g in I.visited:
        if CRATE in g:
            R.saw(g)
    if not outs:
        raise Undecided("no outcome")
    for o in outs:
        R.n("paths")
        if o.kind == "panic":
            R.v("panic", "%s: stops with a panic on %s" % (where, label))
            continue
        if o.kind != "ret":
            raise Undecided(o.kind)
        ev = [e for e in flat(o.events) if e[0] == "call"]
        taken = sum(1 for e in ev if e[1] == "take")
        over = any(m[3] == "Request" and plain(get(db, m[4][0], "method")) == s_("shutdown") for m in inbox)
        if taken <= len(inbox) and not over:
            R.v("stops:" + kind(db, inbox[min(taken, len(inbox)) - 1]) if inbox else "stops", "%s: the server stops while messages are still to come: %s" % (where, label))
            continue
        if not (o.value[0] == "adt" and o.value[3] in ("Ok", "Err")):
            raise Undecided("result of the loop")
        if o.value[3] == "Err":
            R.v("fails", "%s: the server ends with an error after %s" % (where, label))
            continue
        answers, handled = [], []
        ok_ = {}
        for e in ev:
            if e[1] == "parsed":
                ok_.setdefault(e[2][0], []).append(e[2][1] == A.TRUE)
            elif e[1] == "handler":
                handled.append((e[2][0], e[2][1], e[3]))
            elif e[1] == "send":
                answers += answers_in(db, e[2][1])
            elif not isinstance(e[1], str) or e[1].startswith(CRATE):
                pass
        expect = []
        for i, m in enumerate(inbox):
            R.n("messages")
            k, body = m[3], m[4][0]
            if k == "Response":
                continue
            meth = plain(get(db, body, "method"))[1]
            params = get(db, body, "params")
            if k == "Notification":
                if meth in NOTES:
                    expect.append((i, meth, NOTES[meth], params, None))
                continue
            id = get(db, body, "id")
            mine = [a for a in answers if a[0] == id]
            how = "%s: the request %s" % (where, meth if "/" in meth or meth == "shutdown" else "of an unknown method")
            if len(mine) != 1:
                R.v(("unanswered:" if not mine else "twice:") + meth, "%s is answered %s (%s)" % (how, "%d times" % len(mine) if mine else "never", label))
                continue
            R.n("obligations")
            if meth in REQUESTS:
                expect.append((i, meth, REQUESTS[meth], params, mine[0]))
            elif meth != "shutdown":
                if mine[0][1] != "err":
                    R.v("unknown:ok", "%s is answered with a result" % how)
                elif mine[0][2] and mine[0][2][0][0] == "int" and mine[0][2][0] != ("int", -32601):
                    R.v("unknown:code", "%s is answered with the code %d instead of -32601" % (how, mine[0][2][0][1]))
        ids = {get(db, m[4][0], "id") for m in inbox if m[3] == "Request"}
        for a in answers:
            if a[0] not in ids:
                if not is_t(a[0], "arg", "reqid"):
                    raise Undecided("id %s" % show(a[0])[:60])
                R.v("stray", "%s: a response is sent that nobody asked for (%s)" % (where, label))
        order = []
        for i, meth, ptype, params, a in expect:
            R.n("obligations")
            p = ok_.get(params)
            hs = [h for h in handled if any(u == params for u in walk(h[1]))]
            follow = any(L.handler.get(x) == ptype and x in L.asking for x in L.handler)
            if p is None:
                R.v("ignored:" + meth, "%s: the parameters of %s are never looked at (%s)" % (where, meth, label))
                continue
            if p[-1] is False:
                if hs:
                    raise Undecided("a malformed message is handled")
                if a is not None and a[1] != "err":
                    R.v("malformed:" + meth, "%s: malformed parameters of %s are answered with a result" % (where, meth))
                continue
            if follow:
                continue
            if len(hs) != 1:
                R.v(("ignored:" if not hs else "repeated:") + meth, "%s: %s is handled %s (%s)" % (where, meth, "%d times" % len(hs) if hs else "by nothing", label))
                continue
            order.append((handled.index(hs[0]), i))
            h = hs[0]
            if L.handler[h[0]] != ptype:
                R.v("handler:" + meth, "%s: %s is handled by %s" % (where, meth, db.fns[h[0]].name))
                continue
            if a is None:
                continue
            r = o.st.refine.get(h[2])
            if r is None:
                raise Undecided("the answer to %s does not look at the result" % meth)
            if r == 1 and a[1] != "err":
                R.v("error:" + meth, "%s: the answer to %s is a result although the handler failed" % (where, meth))
            if r == 0:
                if a[1] != "ok":
                    R.v("result:" + meth, "%s: the answer to %s is an error although the handler had a result" % (where, meth))
                    continue
                val = T("fld", h[2], "Ok", "0")
                x = a[2][0] if a[2] else None
                some_ = o.st.refine.get(val)
                if x is None or not (any(u == val for u in walk(x)) or some_ == 0):
                    if x is not None and not any(is_t(u) for u in walk(x)) or x is not None and any(is_t(u, "handled") for u in walk(x)):
                        R.v("result:" + meth, "%s: the answer to %s is not what the handler found" % (where, meth))
                    else:
                        raise Undecided("answer %s" % (show(x)[:80] if x else x))
        if [i for _, i in sorted(order)] != sorted(i for _, i in order):
            R.v("order", "%s: messages are handled in another order than they arrived (%s)" % (where, label))


def kind(db, m):
    return plain(get(db, m[4][0], "method"))[1] if m[3] != "Response" else "response"


def answers_in(db, v):
    """[(id, "ok" or "err", rest)] of the responses in a message that is sent"""
    out = []

    def go(u):
        if is_t(u, "answer"):
            out.append((u[2], u[3], u[4]))
        elif isinstance(u, tuple):
            if u and u[0] == "adt" and u[1] == "lsp_server::msg::Response":
                e = get(db, u, "error")
                out.append((get(db, u, "id"), "err" if e[0] == "adt" and e[3] == "Some" else "ok", (get(db, u, "result"),)))
                return
            for x in u:
                if isinstance(x, tuple):
                    go(x)
    go(v)
    return out


def announced(db, R, L, f):
    """What the server announces to answer, it answers."""
    inits = handlers(db, "lsp_types::InitializeParams")
    for g in inits:
        caps = None
        try:
            I = LspInterp(db)
            for o in I.run(g, [T("arg", "state"), adt(db, "InitializeParams", workspace_folders=some(("vec", ())))]):
                if o.kind == "ret":
                    for u in walk(o.value):
                        if u and u[0] == "adt" and u[1].endswith("::ServerCapabilities"):
                            caps = u
        except (A.Unsupported, P.Unsure, Undecided) as x:
            R.undec(g.name, str(x))
        if caps is None:
            R.undec(g.name, "capabilities")
            continue
        R.saw(g)
        for field, meth in PROVIDERS.items():
            c = get(db, caps, field)
            if c[0] != "adt" or c[3] != "Some":
                continue
            R.n("announced")
            inbox = [L.request(0, meth)]
            I = L.interp(inbox)
            st, args = start(db, L, I, f)
            got = False
            for o in I.call_fn(f, args, st, ()):
                got = got or any(e[0] == "call" and e[1] == "handler" for e in flat(o.events))
            if not got:
                R.v("announced:" + meth, "%s (%s): %s is announced but not handled" % (g.name, loc(g), meth))
