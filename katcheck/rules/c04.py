"""Reply counting on every path: handle_request is walked over every outcome of the handler
(plain result, future, AsyncReply, FailReply, any other exception, a result that is no reply,
unknown request) and the number and kind of replies handed to the connection is counted: one,
or none exactly where the handler declared an asynchronous reply or returned a future.  The
future's completion callback is walked the same way with every call allowed to raise, and must
release the completion future on every exit.  The one-shot request connection must disarm
both reply methods on every sending path; a queued request is released on every path of the
handler thread; every built-in handler returns exactly one reply and sends none itself."""
import ast

from ..engine import NONE, const, is_const, show, subterms
from ..lib import (A, P, S, SELF, always_raises, arg, as_msg, call_name, callee, events,
                   excisa, has, is_log, path_str, raised, returns, tested, unret, uses)
from ..program import AnalysisError

MIN_OBLIGATIONS = 40
BASE = "server.DeviceServerBase."


def _sends(p, msg=None):
    """Replies handed to a connection (attempts that raised do not count)."""
    out = []
    for e in events(p, "call"):
        if e.name in ("reply", "reply_with_message") and not (
                e.target or "").startswith("core.Message.") and not raised(p, e):
            if e.recv is not None and e.recv[0] in ("module", "class"):
                continue
            out.append(e)
    return out


def _is_fail(g, code):
    return g is not None and g.kind == "reply" and len(g.args) >= 1 and \
        is_const(g.args[0]) and g.args[0][2] in (code, code.encode())


def _text_of(t, exc):
    """Does the text derive from the exception (or the current exception)?"""
    return has(t, lambda x: x == exc) or has(
        t, lambda x: x[0] == "call" and call_name(x) in ("exc_info", "format_exc"))


def _handler_call(p):
    for e in events(p, "call"):
        if e.f and has(e.f, lambda x: x[0] == "attr" and x[2] == "_request_handlers") and \
                e.name not in ("get", "keys", "items", "values", "pop", "setdefault"):
            return e
    return None


def dispatch(ctx):
    q = BASE + "handle_request"
    w = ctx.where(q)
    fi = ctx.p.func(q)
    conn, msg = [P(a) for a in fi.params[1:3]]
    seen = set()
    callbacks = {}
    for p in ctx.paths(q, opaque={"core.Message.*", "server.ClientRequestConnection.*",
                                  "server.ClientConnection.*"}):
        h = _handler_call(p)
        sends = _sends(p)
        if p.kind == "raise":
            frm = p.val[3] if len(p.val) > 3 else None
            esc = any(e.kind == "exc" and e.val == p.val for e in p.events)
            ctx.ob("dispatch", "errors are answered", not esc if h else None, w,
                   "an exception of the handler leaves handle_request without a reply "
                   "(path: %s)" % path_str(p))
            continue
        if p.kind != "return":
            continue
        if h is None:
            early = [e for e in events(p, "exc")]
            if early:
                # something failed before the handler was called
                ctx.ob("dispatch", "early failure answered", len(sends) == 1, w, path_str(p))
                continue
            known = any(e.kind == "cond" and "_request_handlers" in repr(e.extra) and
                        e.extra[0] == "in" and e.val for e in p.events)
            ctx.ob("dispatch", "known requests are handled", not known, w,
                   "a known request is not passed to its handler (path: %s)" % path_str(p))
            g = as_msg(sends[0].args[0]) if sends and sends[0].args else None
            ctx.ob("dispatch", "unknown request answered once", len(sends) == 1, w,
                   "an unknown request gets %d replies (path: %s)"
                   % (len(sends), path_str(p)))
            if g is not None:
                ctx.ob("dispatch", "unknown request is invalid", _is_fail(g, "invalid"), w,
                       "an unknown request is answered with %s" % g)
            seen.add("unknown")
            continue
        al = list(h.args)
        ctx.ob("dispatch", "handler gets request and message",
               len(al) == 3 and al[2] == msg, h.where, "handler called with %s"
               % [show(a) for a in al])
        if raised(p, h):
            isa, isf = excisa(p, "AsyncReply"), excisa(p, "FailReply")
            exc = next((e.val for e in p.events if e.kind == "exc" and e.extra is h), None)
            if isa:
                seen.add("async")
                ctx.ob("dispatch", "asynchronous reply: none sent", len(sends) == 0, w,
                       "a reply is sent although the handler declared an asynchronous one "
                       "(path: %s)" % path_str(p))
            else:
                k = "fail" if isf else "error"
                seen.add(k)
                ctx.ob("dispatch", "%s: one reply" % k, len(sends) == 1, w,
                       "a handler that raises gets %d replies (path: %s)"
                       % (len(sends), path_str(p)))
                g = as_msg(sends[0].args[0]) if sends and sends[0].args else None
                if g is None:
                    ctx.ob("dispatch", "%s: failure reply" % k, None, w, "")
                else:
                    ctx.ob("dispatch", "%s: failure reply" % k, _is_fail(g, "fail"), w,
                           "answered with %s" % g)
                    ctx.ob("dispatch", "%s: carries the error text" % k,
                           len(g.args) >= 2 and _text_of(g.args[1], exc), w,
                           "the failure reply is %s" % [show(a) for a in g.args])
            continue
        # the handler returned
        isfut = None
        for a, v in p.facts.items():
            if a[0] == "truth" and call_name(a[1]) in ("is_future", "isfuture") and \
                    uses(a[1], h.res):
                isfut = v
            if a[0] == "isinstance" and a[1] == h.res and "Future" in repr(a[2]):
                isfut = v if isfut is None else (isfut or v)
        later_exc = any(e.kind == "exc" for e in p.events[h.idx:])
        if isfut is None and not later_exc:
            ctx.ob("dispatch", "future results recognised", None if sends else False, w,
                   path_str(p))
            continue
        if later_exc:
            # something between result and reply failed: exactly one reply unless the
            # failing call itself was the registration of the future
            ctx.ob("dispatch", "late failure answered", len(sends) <= 1, w, path_str(p))
            hand = any(e.kind == "handler" for e in p.events[h.idx:])
            if hand and not excisa(p, "AsyncReply") and isfut is not True:
                ctx.ob("dispatch", "bad result answered", len(sends) == 1, w,
                       "a bad handler result gets %d replies (path: %s)"
                       % (len(sends), path_str(p)))
            continue
        if isfut:
            seen.add("future")
            ctx.ob("dispatch", "future: no immediate reply", len(sends) == 0, w,
                   "%d replies are sent at once for a future" % len(sends))
            regs = []
            for e in events(p, "call"):
                for a in e.allargs():
                    c = callee(p, a)
                    if c and (e.name in ("add_done_callback", "add_future") or any(
                            b[0] == "attr" and b[2] == "add_done_callback"
                            for x in e.allargs() for b in subterms(x))):
                        regs.append((c, e))
            ctx.ob("dispatch", "future: completion is watched", len(regs) == 1
                   if regs or not events(p, "yield") else None, w,
                   "the future's completion has %d callbacks (path: %s)"
                   % (len(regs), path_str(p)))
            for c, e in regs:
                ok = any(uses(x, h.res) for x in e.allargs() + ([e.recv] if e.recv else []))
                ctx.ob("dispatch", "future: the handler's future is watched", ok, e.where,
                       "")
                callbacks[c[0]] = len(c[1])
            conc = any(a[0] == "truth" and "_concurrent_reply" in repr(a) and v
                       for a, v in p.facts.items())
            val = p.val
            ok = val != NONE and val[0] in ("new", "call", "res") or \
                any(val == x.res for x in events(p, "call"))
            ctx.ob("dispatch", "future: completion returned" if not conc else
                   "future: concurrent", True if conc else ok, w,
                   "the caller is not given the completion of a future reply: %s"
                   % show(val))
            continue
        seen.add("plain")
        ctx.ob("dispatch", "plain: one reply", len(sends) == 1 or _failed_check(p, h), w,
               "a handler result gets %d replies (path: %s)" % (len(sends), path_str(p)))
        if len(sends) == 1 and not events(p, "handler"):
            ctx.ob("dispatch", "plain: the handler's result", sends[0].args and
                   sends[0].args[0] == h.res, w, "the reply sent is %s"
                   % show(sends[0].args[0]))
            mt = tested(p, lambda a: a[0] == "eq" and A(h.res, "mtype") in a[1:], True)
            nm = tested(p, lambda a: a[0] == "eq" and A(h.res, "name") in a[1:], True)
            ctx.ob("dispatch", "plain: result is a reply to this request", mt and nm, w,
                   "a handler result is sent without checking that it is a reply with "
                   "the request's name")
    for k in ("plain", "future", "async", "fail", "error", "unknown"):
        ctx.ob("dispatch", "%s case exists" % k, k in seen, w,
               "handle_request has no path for the %s case" % k)
    for cb, nlead in sorted(callbacks.items()):
        _callback(ctx, cb, nlead)
    if not callbacks:
        ctx.ob("completion", "callback", None, w, "no completion callback found")


def _failed_check(p, h):
    return any(e.kind == "raise" for e in p.events[h.idx:])


def _callback(ctx, q, nlead):
    w = ctx.where(q)
    fi = ctx.p.func(q)
    pars = [a for a in fi.params if a != "self"]
    fut = P(pars[nlead]) if nlead < len(pars) else P(pars[-1])
    seen = set()
    noise = lambda ev: is_log(ev) or ev.name in ("exc_info", "str", "format_exception",
                                                 "join", "set_result", "isinstance") or \
        (ev.target or "").startswith("core.Message.")
    for p in ctx.paths(q, raise_all=True, noraise=noise,
                       opaque={"core.Message.*", "server.ClientConnection.*"}):
        if p.kind == "cut":
            continue
        sends = _sends(p)
        rel = [e for e in events(p, "call") if e.name in ("set_result", "set_exception") and
               e.recv is not None]
        ctx.ob("completion", "request released", len(rel) == 1, w,
               "the completion of the request is signalled %d times (path: %s)"
               % (len(rel), path_str(p)))
        res = [e for e in events(p, "call") if e.name == "result" and e.recv == fut]
        exc = next((e for e in p.events if e.kind == "exc"), None)
        if exc is None:
            seen.add("ok")
            ctx.ob("completion", "one reply", len(sends) == 1, w,
                   "a completed future gets %d replies (path: %s)"
                   % (len(sends), path_str(p)))
            if len(sends) == 1 and res:
                ctx.ob("completion", "the future's result",
                       sends[0].args[0] == res[0].res, w, "the reply is %s"
                       % show(sends[0].args[0]))
            continue
        # first failure: the future itself
        if not res or exc.extra is not res[0]:
            if p.kind == "return" and not excisa(p, "AsyncReply"):
                ctx.ob("completion", "bad result answered", len(sends) == 1, w,
                       "a future with a bad result gets %d replies (path: %s)"
                       % (len(sends), path_str(p)))
            elif p.kind == "raise":
                tried = [e for e in events(p, "call") if e.name == "reply" and
                         e.target is None]
                hnd = events(p, "handler")
                ctx.ob("completion", "bad result caught", bool(hnd), w,
                       "an error sending the future's result is not answered")
            continue
        if excisa(p, "AsyncReply"):
            seen.add("async")
            ctx.ob("completion", "asynchronous: none sent", len(sends) == 0, w,
                   "a reply is sent for an asynchronous one")
            continue
        second = any(e.kind == "exc" and e is not exc for e in p.events)
        if second:
            continue
        if p.kind == "raise":
            ctx.ob("completion", "failed future answered", False, w,
                   "the error of a failed future is not turned into a reply")
            continue
        k = "fail" if excisa(p, "FailReply") else "error"
        seen.add(k)
        ctx.ob("completion", "%s: one reply" % k, len(sends) == 1, w,
               "a failed future gets %d replies (path: %s)" % (len(sends), path_str(p)))
        g = as_msg(sends[0].args[0]) if sends else None
        if g is not None:
            ctx.ob("completion", "%s: failure reply" % k, _is_fail(g, "fail"), w,
                   "answered with %s" % g)
            ctx.ob("completion", "%s: carries the error text" % k,
                   len(g.args) >= 2 and _text_of(g.args[1], exc.val), w,
                   "the failure reply is %s" % [show(a) for a in g.args])
    for k in ("ok", "error", "async", "fail"):
        ctx.ob("completion", "%s case exists" % k, k in seen, w,
               "the completion callback has no path for the %s case" % k)


def one_shot(ctx):
    base = "server.ClientRequestConnection."
    for m in ("reply", "reply_with_message"):
        q = base + m
        w = ctx.where(q)
        for p in returns(ctx.paths(q, opaque={"core.Message.*"})):
            sends = [e for e in events(p, "call") if e.recv == S("client_connection") and
                     e.name in ("reply", "_send_message", "send_message")]
            ctx.ob("one-shot", "%s sends once" % m, len(sends) == 1, w,
                   "%s() sends %d replies" % (m, len(sends)))
            st = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
            if {"reply", "reply_with_message"} & set(st):
                for a in ("reply", "reply_with_message"):
                    c = callee(p, st.get(a)) if st.get(a) is not None else None
                    v = st.get(a)
                    ok = False
                    if c is not None:
                        ok = always_raises(ctx, c[0])
                    elif v is not None and v[0] == "attr" and v[1] == SELF:
                        ok = always_raises(ctx, base + v[2])
                    ctx.ob("one-shot", "%s disarms %s" % (m, a), ok, w,
                           "after %s() the method %s still sends (set to %s)"
                           % (m, a, show(v) if v else None))
            elif st:
                flags = [a for a in st if tested(p, lambda x, a=a: x in (
                    ("truth", S(a)), ("is", S(a), NONE)), None)]
                ctx.ob("one-shot", "%s guarded" % m, True if flags else False, w,
                       "%s() can be used twice" % m)
            else:
                ctx.ob("one-shot", "%s disarms" % m, False, w,
                       "%s() leaves the request open for a second reply" % m)
    q = "server.ClientConnection.reply"
    for p in returns(ctx.paths(q)):
        n = [e for e in events(p, "call") if e.name in ("_send_message",) or
             (e.recv is None and e.f == S("_send_message"))]
        ctx.ob("one-shot", "connection sends a reply once", len(n) == 1, ctx.where(q),
               "ClientConnection.reply sends %d messages" % len(n))


def routing(ctx):
    """Requests go to the request dispatcher and its completion is passed on."""
    q = BASE + "handle_message"
    w = ctx.where(q)
    msg = P(ctx.p.func(q).params[2])
    op = {BASE + "handle_request", BASE + "handle_inform", BASE + "handle_reply",
          "core.Message.*", BASE + "create_log_inform"}
    found = set()
    for p in returns(ctx.paths(q, opaque=op)):
        hs = [e for e in events(p, "call") if e.name in ("handle_request", "handle_inform",
                                                         "handle_reply")]
        for k, n in (("REQUEST", "handle_request"), ("INFORM", "handle_inform"),
                     ("REPLY", "handle_reply")):
            if tested(p, lambda a, k=k: a[0] == "eq" and A(msg, "mtype") in a[1:] and
                      k in _mt(ctx, a), True):
                found.add(k)
                ctx.ob("routing", k, [e.name for e in hs] == [n], w,
                       "a %s is handled by %s" % (k, [e.name for e in hs]))
                if k == "REQUEST" and hs:
                    ctx.ob("routing", "completion passed on", p.val == hs[0].res, w,
                           "handle_message does not return the request's completion")
    ctx.ob("routing", "requests", "REQUEST" in found or None, w, "")


def _mt(ctx, a):
    out = set()
    for x in a[1:]:
        if x[0] in ("attr", "cattr") and x[-1] in ("REQUEST", "INFORM", "REPLY"):
            out.add(x[-1])
        if is_const(x) and isinstance(x[2], int):
            for n in ("REQUEST", "INFORM", "REPLY"):
                if ctx.cconst("core.Message", n) == x[2]:
                    out.add(n)
    return out


def queued(ctx):
    """Every request taken off the handler thread's queue is released."""
    q = "server.MessageHandlerThread.run"
    w = ctx.where(q)
    n = 0
    for p in ctx.paths(q, loop_max=1, while_max=1):
        pops = [e for e in events(p, "call") if e.name in ("popleft", "pop") and
                e.recv == S("_msg_queue")]
        for e in pops:
            if raised(p, e):
                continue
            n += 1
            fut = ("item", e.res, const(0))
            first = next((x.idx for x in events(p, "handler")), None)
            inform_failed = first is not None and any(
                x.idx > first for x in events(p, "exc"))
            unpack = next(iter(events(p, "exc")), None)
            if inform_failed or unpack is not None and \
                    getattr(unpack.extra, "kind", None) != "call":
                continue
            rel = [x for x in events(p, "call") if (
                x.name in ("set_result", "set_exception") and x.recv == fut and
                not raised(p, x)) or
                (not raised(p, x) and x.name in ("chain_future", "add_callback", "add_done_callback",
                            "add_future") and any(uses(a, fut) for a in x.allargs()))]
            if p.kind == "cut":
                continue
            ctx.ob("queued", "request released", len(rel) == 1, e.where,
                   "a queued request is released %d times (path: %s)"
                   % (len(rel), path_str(p)))
        if p.kind == "raise" and pops:
            ctx.ob("queued", "errors contained", False, w,
                   "an error ends the handler thread with an exception")
    ctx.ob("queued", "queue is read", n > 0, w, "")
    q = "server.MessageHandlerThread.on_message"
    for p in returns(ctx.paths(q)):
        app = [e for e in events(p, "call") if e.name == "append" and
               e.recv == S("_msg_queue")]
        ok = len(app) == 1 and app[0].args[0][0] == "tuple" and \
            p.val in app[0].args[0][1]
        ctx.ob("queued", "caller gets the request's completion", ok, ctx.where(q),
               "on_message returns %s" % show(p.val))
        ctx.ob("queued", "thread is woken", any(e.name == "set" and e.recv == S("_wake")
                                                for e in events(p, "call")) or None,
               ctx.where(q), "")


def builtin(ctx):
    """Built-in handlers: one reply on every path."""
    n = 0
    for q, fi in sorted(ctx.p.functions.items()):
        nm = q.split(".")[-1]
        if not q.startswith("server.DeviceServer.request_") or "<locals>" in q:
            continue
        decl = any("return_reply" in d or "request" == d.split("(")[0] for d in
                   [ast.unparse(x) for x in fi.node.decorator_list])
        deco_rr = any("return_reply" in ast.unparse(x) for x in fi.node.decorator_list)
        try:
            ps = ctx.paths(q, loop_max=1, max_paths=5000, no_fork_raise=True,
                           opaque={"core.*", "kattypes.*", "sampling.*",
                                   "server.DeviceLogger.*", "server.KATCPServer.*",
                                   "server.ClientRequestConnection.*"})
        except AnalysisError as e:
            ctx.ob("builtin", q, None, ctx.where(q), str(e))
            continue
        for p in returns(ps):
            n += 1
            v = p.val
            own = [e for e in events(p, "call") if e.name in (
                "reply", "reply_with_message") and e.recv is not None and
                e.recv == P("req")]
            ok = None
            if own:
                ok = False
            elif v == NONE:
                ok = False
            elif v[0] == "tuple":
                ok = deco_rr
            elif as_msg(v) is not None:
                ok = as_msg(v).kind == "reply"
            elif v[0] == "call" and call_name(v) in ("make_reply", "reply_to_request"):
                ok = True
            elif v[0] in ("new", "fut", "futexc", "call", "yield"):
                ok = None if v[0] == "call" or v[0] == "new" else True
            ctx.ob("builtin", "%s replies once" % nm, ok, ctx.where(q),
                   "%s returns %s%s (path: %s)" % (nm, show(v), " after replying itself"
                                                   if own else "", path_str(p)))
    ctx.ob("builtin", "handlers", n >= 20, "", "only %d return paths" % n)


PARTS = [dispatch, one_shot, routing, queued, builtin]
