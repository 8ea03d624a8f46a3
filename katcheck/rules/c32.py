"""Start and stop of a server, decided as: shutting down closes the listening socket, goes over a
copy of the connections and passes each (waiting for it) to the disconnect path with a reason
before anything else can fail, and signals not-running and stopped on every exit, exceptions
included; stop hands exactly that work to the loop manager and stops the handler thread when
there is one; the wait for the device in the disconnect path is bounded.  The disconnect reason
reaches a client that can still be sent to and is flushed.  The handler thread takes requests
from the end of the queue opposite to where they are put, releases each exactly once on every
path, waits only with an empty queue and after looking at its stop flag, and always ends by
withdrawing its running signal; stopping it withdraws the flag before waking it."""
import ast

from ..engine import NONE, TRUE, FALSE, const, is_const, show
from ..lib import (A, P, S, SELF, arg, attr_stores, call_name, callee, decided, events, has,
                   is_log, isnone, path_str, raised, returns, snapshot_kind, tested, truthy,
                   uses)

MIN_OBLIGATIONS = 35
KS = "server.KATCPServer."
DB = "server.DeviceServerBase."
DS = "server.DeviceServer."
MH = "server.MessageHandlerThread."


def _ev(p, name, meth):
    return [e for e in events(p, "call") if e.name == meth and e.recv == S(name)]


def _assertion(p):
    return p.kind == "raise" and isinstance(p.val, tuple) and p.val[1] == "AssertionError" \
        and not events(p, "exc")


def how(p):
    return "path: %s, raised: %s" % (path_str(p), [
        getattr(x.extra, "name", None) or getattr(x.extra, "kind", None)
        for x in events(p, "exc")])


def shutdown(ctx):
    q = KS + "_uninstall"
    w = ctx.where(q)
    seen = set()
    for p in ctx.paths(q, raise_all=True, loop_max=2, opaque={KS + "_disconnect_client"},
                       noraise=lambda e: is_log(e) or e.name in (
                           "get_ident", "list", "items", "clear", "set", "tuple", "keys",
                           "copy", "get", "dict")):
        if _assertion(p):
            continue
        run, stp = _ev(p, "_running", "clear"), _ev(p, "_stopped", "set")
        ctx.ob("shutdown", "no longer running", bool(run), w,
               "a stopped server says it is running (%s)" % how(p))
        ctx.ob("shutdown", "stopped is signalled", bool(stp), w,
               "stopped is not signalled (%s)" % how(p))
        ts = [e for e in events(p, "call") if e.name == "stop" and e.recv == S("_tcp_server")]
        dis = [e for e in events(p, "call") if e.name == "_disconnect_client"]
        its = [e for e in events(p, "iter")]
        x = next(iter(events(p, "exc")), None)
        if x is None:
            ctx.ob("shutdown", "listening socket closed", len(ts) == 1, w,
                   "the listening socket stays open (%s)" % how(p))
            ctx.ob("shutdown", "every client disconnected", len(dis) == len(its), w,
                   "%d of %d clients are disconnected (%s)" % (len(dis), len(its), how(p)))
            ends = events(p, "enditer")
            ctx.ob("shutdown", "goes over the clients", any(
                uses(e.val, S("_connections")) for e in its + ends), w,
                "the clients are not disconnected")
            seen.add(len(its))
        elif x.extra in ts:
            seen.add("socket")
        for e in its:
            k = snapshot_kind(e.val, S("_connections"))
            ctx.ob("shutdown", "over a copy", k == "copy" if k else None, e.where,
                   "the table of clients changes while it is gone over")
        if ts and dis:
            ctx.ob("shutdown", "no new clients first", ts[0].idx < dis[0].idx, w,
                   "clients can still connect while the others are disconnected")
        for e in dis:
            r = e.args[2] if len(e.args) > 2 else None
            ctx.ob("shutdown", "with a reason", r is not None and is_const(r) and bool(
                r[2]) or (None if r is not None and not is_const(r) else False), e.where,
                "clients are disconnected without a reason")
            ok = any(uses(y.val, e.res) for y in events(p, "yield")) or raised(p, e)
            lst = any(y.idx > e.idx for y in events(p, "yield"))
            ctx.ob("shutdown", "waited for", ok or (None if lst else False), e.where,
                   "the server stops before its clients are told")
        if dis and stp:
            ctx.ob("shutdown", "stopped after the clients were told",
                   dis[-1].idx < stp[-1].idx, w, "")
    ctx.ob("shutdown", "cases", {0, 1} <= seen or None, w, "%s" % seen)
    # the wait for the device is bounded
    q = KS + "_disconnect_client"
    w = ctx.where(q)
    n = 0
    for p in returns(ctx.paths(q, opaque={KS + "get_address", "core.with_relative_timeout"})):
        told = [e for e in events(p, "call") if e.name == "on_client_disconnect"]
        for y in events(p, "yield"):
            if any(uses(y.val, t.res) for t in told):
                n += 1
                v = y.val
                ctx.ob("shutdown", "wait for the device is bounded", v[0] == "call" and
                       call_name(v) in ("with_relative_timeout", "with_timeout",
                                        "future_timeout_manager") and bool(v[2]) and
                       not (is_const(v[2][0]) and v[2][0][2] is None), w,
                       "stopping waits without limit for the device to handle a "
                       "disconnect")
    ctx.ob("shutdown", "device wait", n > 0 or None, w, "")
    for attr, ok in (("_stopped", (KS + "__init__",)), ("_running", (KS + "__init__",))):
        for fq, fi in sorted(ctx.p.functions.items()):
            if not fq.startswith(KS):
                continue
            for c in ast.walk(fi.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                        isinstance(c.func.value, ast.Attribute) and \
                        c.func.value.attr == attr and c.func.attr in ("set", "clear"):
                    m = fq.split(".")[2]
                    want = {("_stopped", "set"): "_uninstall", ("_stopped", "clear"): "start",
                            ("_running", "set"): "_install",
                            ("_running", "clear"): "_uninstall"}[(attr, c.func.attr)]
                    ctx.ob("shutdown", "%s.%s in %s" % (attr, c.func.attr, m), m == want or
                           _new(fq), ctx.where(fq), "%s() calls %s.%s()" % (
                               m, attr, c.func.attr))


def _new(fq):
    from .. import engine
    return None if fq not in engine.BASELINE else False


def startup(ctx):
    q = KS + "start"
    w = ctx.where(q)
    seen = set()
    for p in ctx.paths(q, opaque={KS + "_bind_socket", "ioloop_manager.*"}):
        isset = decided(p, lambda a: a[0] == "truth" and has(
            a[1], lambda t: t == S("_running")))
        work = [e for e in events(p, "call") if e.name in ("start", "_bind_socket",
                                                           "get_ioloop", "add_callback")]
        if isset:
            seen.add("running")
            ctx.ob("startup", "refused when running", p.kind == "raise" and not work, w,
                   "a running server can be started again")
            continue
        seen.add("start")
        if p.kind != "return":
            continue
        ins = [e for e in work if e.name == "add_callback"]
        ok = any(callee(p, e.args[0]) and callee(p, e.args[0])[0] == KS + "_install"
                 for e in ins if e.args)
        ctx.ob("startup", "installed in its loop", ok or (None if ins else False), w,
               "starting does not install the server in its loop")
        clr = _ev(p, "_stopped", "clear")
        ctx.ob("startup", "stopped is withdrawn", bool(clr), w,
               "a started server says it is stopped")
        if clr and work:
            ctx.ob("startup", "withdrawn before it starts", clr[0].idx < work[-1].idx, w, "")
    ctx.ob("startup", "cases", len(seen) == 2 or None, w, "%s" % seen)
    q = KS + "_install"
    w = ctx.where(q)
    for p in ctx.paths(q, raise_all=True, noraise=lambda e: e.name != "add_socket"):
        s = _ev(p, "_running", "set")
        a = [e for e in events(p, "call") if e.name in ("add_socket", "add_sockets")]
        tid = [e for e in events(p, "store") if e.attr == "ioloop_thread_id"]
        ctx.ob("startup", "running only when accepting", not s or bool(a) and
               a[0].idx < s[0].idx and not raised(p, a[0]), w,
               "running is signalled before the server accepts connections")
        if p.kind == "return":
            ctx.ob("startup", "running is signalled", len(s) == 1 and bool(tid) and
                   tid[0].idx < s[0].idx, w, "running is not signalled")


def stop(ctx):
    q = KS + "stop"
    w = ctx.where(q)
    for p in ctx.paths(q, opaque={"ioloop_manager.*"}):
        ms = [e for e in events(p, "call") if e.name == "stop" and e.recv == S(
            "_ioloop_manager")]
        ctx.ob("stop", "the loop manager is stopped", len(ms) == 1, w,
               "stopping does not stop the loop manager (%s)" % how(p))
        for e in ms:
            c = callee(p, arg(e, 1, "callback"))
            ctx.ob("stop", "with the shutdown work", c[0] == KS + "_uninstall" or _new(c[0])
                   if c else (False if arg(e, 1, "callback") is None else None), e.where,
                   "the loop manager is stopped without shutting the server down")
            ctx.ob("stop", "returns its end", p.val == e.res, w, "stop() returns %s" % (
                show(p.val) if p.kind == "return" else p.kind))
        for e in _ev(p, "_running", "wait"):
            ctx.ob("stop", "waiting for the start is bounded", bool(e.args or e.kwargs) and
                   arg(e, 0, "timeout") not in (None, NONE) and (
                       truthy(p, P("timeout")) or arg(e, 0, "timeout") != P("timeout")),
                   e.where, "stop() waits without limit for the server to start")
    q = DB + "stop"
    w = ctx.where(q)
    for p in ctx.paths(q, opaque={KS + "stop", MH + "stop"}):
        ss = [e for e in events(p, "call") if e.name == "stop" and e.recv == S("_server")]
        hs = [e for e in events(p, "call") if e.name == "stop" and e.recv == S(
            "_handler_thread")]
        h = truthy(p, S("_handler_thread"))
        if h is None and isnone(p, S("_handler_thread")) is False:
            h = True
        ctx.ob("stop", "the server is stopped", len(ss) == 1, w,
               "stopping the device leaves its server running")
        ctx.ob("stop", "the handler thread is stopped", len(hs) == 1 if h is not False
               else not hs, w, "stopping the device leaves its handler thread running "
               "(%s)" % how(p))
        if ss:
            ctx.ob("stop", "returns the server's end", p.val == ss[0].res, w, "")
    q = DS + "on_client_disconnect"
    w = ctx.where(q)
    prm = ctx.p.func(q).params
    conn, msg, valid = [P(x) for x in prm[1:4]]
    n = 0
    for p in returns(ctx.paths(q, no_fork_raise=True, deferred={"add_callback": 0},
                               opaque={DS + "clear_strategies", "core.Message.*"})):
        v = truthy(p, valid)
        if not v:
            continue
        n += 1
        inf = [e for e in events(p, "call") if e.name in ("inform", "_send_message") and
               e.recv == conn]
        g = [e for e in inf if e.args and has(e.args[0], lambda t: t == const("disconnect"))
             and uses(e.args[0], msg)]
        ctx.ob("stop", "a client is told why", len(g) == 1, w,
               "a client that can be sent to is not told why it is disconnected")
        fl = [e for e in events(p, "call") if e.name == "flush_on_close" and e.recv == conn]
        ctx.ob("stop", "what it is told is flushed", bool(fl) and bool(g) and
               g[0].idx < fl[0].idx and any(uses(y.val, fl[0].res)
                                            for y in events(p, "yield")), w,
               "the connection is closed before the reason is sent")
    ctx.ob("stop", "told", n > 0 or None, w, "")


def thread(ctx):
    q = MH + "run"
    w = ctx.where(q)
    ends = set()
    quiet = lambda e: e.name not in ("handler", "add_callback")
    for p in ctx.paths(q, raise_all=True, while_max=2, noraise=quiet, subscript_raises=False,
                       havoc_after=("clear",)):
        clr = _ev(p, "_running", "clear")
        if p.kind != "cut":
            ctx.ob("thread", "running is withdrawn", bool(clr), w,
                   "the handler thread ends and still says it is running (%s)" % how(p))
        takes = [e for e in events(p, "call") if e.recv == S("_msg_queue") and e.name in (
            "popleft", "pop", "get")]
        run = [e for e in events(p, "call") if e.f == S("handler") or e.name == "handler"]
        for i, e in enumerate(takes):
            ctx.ob("thread", "oldest first", e.name == "popleft" or (
                bool(e.args) and e.args[0] == const(0)), e.where,
                "requests are taken with %s()" % e.name)
            end = takes[i + 1].idx if i + 1 < len(takes) else len(p.events)
            fut = ("item", e.res, const(0))
            seg = p.events[e.idx:end]
            calls = [x for x in seg if x in run]
            done = [x for x in seg if x.kind == "call" and x.name in (
                "set_result", "set_exception", "set_exc_info") and x.recv == fut]
            chain = [x for x in seg if x.kind == "call" and x.name in (
                "add_callback", "chain_future", "add_future") and any(
                    uses(a, fut) for a in x.args) and not raised(p, x)]
            if p.kind == "cut" and i + 1 == len(takes):
                continue
            ctx.ob("thread", "handled once", len(calls) == 1 and tuple(calls[0].args) == (
                ("item", e.res, const(1)), ("item", e.res, const(2))), w,
                "a queued request is handled %d times (%s)" % (len(calls), how(p)))
            ctx.ob("thread", "released once", len(done) + len(chain) == 1, w,
                   "a queued request is released %d times (%s)" % (
                       len(done) + len(chain), how(p)))
            bad = [x for x in calls if raised(p, x)]
            if bad:
                ends.add("raised")
                ctx.ob("thread", "the error is passed on", bool(done) and all(
                    x.name != "set_result" for x in done), w,
                    "a request whose handler raised counts as done")
                ctx.ob("thread", "the thread goes on", any(
                    x.kind in ("while", "endwhile") or x in takes for x in p.events[
                        bad[0].idx:]), w, "an error in a handler ends the handler thread")
            elif calls and not any(x.kind == "exc" for x in seg):
                r = calls[0].res
                fu = decided(p, lambda a: a[0] == "truth" and call_name(a[1]) in (
                    "is_future", "is_coroutine") and uses(a[1], r))
                ends.add("future" if fu else "result")
                if fu:
                    ctx.ob("thread", "waits for a future result", len(chain) == 1 and any(
                        uses(a, r) for a in chain[0].args), w,
                        "a request is released before its future result is there")
                elif fu is False:
                    ctx.ob("thread", "passes the result on", len(done) == 1 and
                           done[0].name == "set_result" and tuple(done[0].args) == (r,), w,
                           "")
        for e in _ev(p, "_wake", "wait"):
            if e.args and e.args[0] != NONE:
                continue
            before = p.events[:e.idx]
            i = max([z.idx for z in before if z.kind == "call" and z.recv == S("_wake") and
                     z.name == "clear"] + [-1])
            if i < 0:
                continue                # nothing that was signalled can have been dropped
            seg = before[i + 1:]
            q0 = any(z.kind == "cond" and z.extra[0] == "truth" and uses(
                z.extra[1], S("_msg_queue")) and not z.val for z in seg) or any(
                z.kind == "cond" and z.extra[0] in ("eq", "lt") and has(
                    ("x",) + z.extra[1:], lambda t: t == S("_msg_queue")) for z in seg)
            r0 = any(z.kind == "cond" and z.extra[0] == "truth" and has(
                z.extra[1], lambda t: t == S("_running")) and z.val for z in seg)
            ctx.ob("thread", "waits only with an empty queue", q0, e.where,
                   "a request queued before the wake-up was reset is left waiting")
            ctx.ob("thread", "waits only when not stopped", r0, e.where,
                   "a stop signalled before the wake-up was reset is missed")
    ctx.ob("thread", "cases", len(ends) == 3 or None, w, "%s" % ends)
    q = MH + "on_message"
    w = ctx.where(q)
    conn, msg = [P(x) for x in ctx.p.func(q).params[1:3]]
    for p in ctx.paths(q):
        put = [e for e in events(p, "call") if e.recv == S("_msg_queue") and e.name in (
            "append", "appendleft", "insert", "put")]
        wake = _ev(p, "_wake", "set")
        if p.kind == "raise":
            ctx.ob("thread", "a refused request is not queued", not put, w, "")
            continue
        ctx.ob("thread", "queued last", len(put) == 1 and put[0].name == "append", w,
               "a request is queued with %s" % [e.name for e in put])
        if len(put) != 1:
            continue
        v = put[0].args[0]
        ctx.ob("thread", "queued whole", v[0] == "tuple" and len(v[1]) == 3 and
               v[1][1:] == (conn, msg) and v[1][0] == p.val, w,
               "queued: %s, returned: %s" % (show(v), show(p.val)))
        ctx.ob("thread", "woken after queueing", bool(wake) and put[0].idx < wake[0].idx, w,
               "the handler thread is not woken for a request")
    q = MH + "stop"
    w = ctx.where(q)
    for p in ctx.paths(q):
        clr, wake = _ev(p, "_running", "clear"), _ev(p, "_wake", "set")
        ctx.ob("thread", "stop: flag before wake-up", bool(clr) and bool(wake) and
               clr[0].idx < wake[0].idx, w,
               "the handler thread is not stopped (%s)" % how(p))


def functions(ctx):
    return [KS + n for n in ("_uninstall", "_disconnect_client", "start", "_install",
                             "stop")] + [DB + "stop", DS + "on_client_disconnect"] + [
        MH + n for n in ("run", "on_message", "stop")]


PARTS = [shutdown, startup, stop, thread]
