"""Thread affinity, decided as: every path of the server and client code that writes to a stream
has found out, before the write, that it runs in the thread recorded as the loop's (or is part of
a callback given to the loop); the recorded thread id is only ever the id taken inside the loop;
the hand-over functions run the call directly only in the loop's thread, otherwise as exactly one
callback, and pass its result or error on; thread-safe connections and clients use the hand-over
forms, and handler threads are only used with them; updates from sensors reach every observing
strategy through the hand-over wrapper; the strategy table is only touched in functions that
have made sure of the loop's thread or that are reached only from callbacks given to the loop."""
import ast

from .. import engine
from ..engine import NONE, show, subterms
from ..lib import (A, P, S, SELF, arg, attr_loads, attr_stores, call_name, call_recv, callee,
                   decided, events, has, method_of, path_str, raised, returns, truthy, uses,
                   entries, mentions_of, outermost)

MIN_OBLIGATIONS = 40
ASSUMPTIONS = ["a callback given to IOLoop.add_callback / call_later / call_at runs in the "
               "loop's thread", "asserts are enabled or never violated"]
D = {"add_callback": 0, "call_later": 1, "call_at": 1, "add_callback_from_signal": 0}
KS = "server.KATCPServer."
DC = "client.DeviceClient."
AC = "client.AsyncClient."
TID = ("ioloop_thread_id", "_ioloop_thread_id")


def _is_ident(t):
    return t[0] == "call" and call_name(t) in ("get_ident", "get_thread_ident")


def _thread_test(a):
    if a[0] not in ("eq", "is"):
        return False
    x, y = a[1], a[2]
    if not _is_ident(x):
        x, y = y, x
    return _is_ident(x) and y[0] == "attr" and y[2] in TID


def _deferred(p, idx):
    d = 0
    for e in p.events[:idx]:
        if e.kind == "defer":
            d += 1
        elif e.kind == "enddefer":
            d -= 1
    return d > 0


def _in_loop(p, idx):
    return bool(decided(p, _thread_test, idx)) or _deferred(p, idx)


def _with_ast(ctx, pred, mods):
    out = []
    for fq, fi in ctx.p.functions.items():
        if fq.split(".")[0] in mods and any(pred(n) for n in ast.walk(fi.node)):
            out.append(fq)
    return out


def writes(ctx):
    found = 0
    qs = _with_ast(ctx, lambda n: isinstance(n, ast.Attribute) and n.attr == "write",
                   ("server", "client", "inspecting_client", "resource_client", "core"))
    for q in sorted(entries(ctx, qs)):
        w = ctx.where(q)
        n = 0
        for p in ctx.paths(q, deferred=D, loop_max=1):
            for e in events(p, "call"):
                if e.name != "write" or e.recv is None:
                    continue
                n += 1
                ctx.ob("writes", "%s writes in the loop's thread" % q, _in_loop(p, e.idx),
                       e.where, "%s writes to %s without having made sure of the loop's "
                       "thread (path: %s)" % (q, show(e.recv), path_str(p)))
        found += bool(n)
    ctx.ob("writes", "writers found", found >= 4 or None, "server", "%d" % found)


def ids(ctx):
    """The recorded thread ids."""
    n = 0
    for name in TID:
        fqs = {fq for fq, _ in attr_stores(ctx, name)
               if not fq.startswith(("testutils.", "fake_clients."))}
        for q in sorted(entries(ctx, fqs)):
            w = ctx.where(q)
            for p in ctx.paths(q, deferred=D, loop_max=1, no_fork_raise=True,
                               opaque={DC + "_connect", DC + "_connect_loop",
                                       DC + "_disconnect", DC + "_line_read_loop"}):
                for e in events(p, "store"):
                    if e.attr != name:
                        continue
                    n += 1
                    if e.val == NONE:
                        continue
                    ctx.ob("ids", "%s records the running thread" % q,
                           _is_ident(e.val) or (None if e.val[0] != "param" else False),
                           e.where, "%s records thread %s" % (q, show(e.val)))
                    ctx.ob("ids", "%s runs in the loop" % q,
                           _deferred(p, e.idx) or _loop_only(ctx, q), e.where,
                           "%s records a thread id outside the loop" % q)
                    got = [c for c in events(p, "call") if c.res == e.val]
                    ctx.ob("ids", "%s asks in the loop" % q,
                           not _deferred(p, e.idx) or not got or _deferred(p, got[0].idx),
                           e.where, "%s takes the thread id before going to the loop" % q)
    ctx.ob("ids", "writers found", n >= 3 or None, "server", "%d" % n)


def _callback_names(p):
    """(scheduling event, function qual) for callbacks given to the loop on a path."""
    for e in events(p, "call"):
        if e.name in D or e.name in ("spawn_callback", "add_future", "run_sync"):
            for a in e.allargs():
                c = callee(p, a)
                if c:
                    yield e, c[0]
                elif a[0] == "attr":
                    yield e, a[2]


def _loop_only(ctx, q, seen=()):
    """Is this method only ever started in the loop?  True, False or None."""
    memo = ctx.__dict__.setdefault("_loop_only_memo", {})
    if (q, seen) not in memo:
        memo[q, seen] = _loop_only1(ctx, q, seen)
    return memo[q, seen]


def _loop_only1(ctx, q, seen):
    name = q.rsplit(".", 1)[1]
    callers = sorted(entries(ctx, mentions_of(ctx, name) - {q}))
    if q in seen or len(seen) > 2 or len(callers) > 6:
        return None
    res = []
    for g in callers:
        if g == q or g.startswith(("testutils.",)):
            continue
        fn = g.rsplit(".", 1)[1]
        if fn == name:        # an override calling its base
            continue
        for p in ctx.paths(g, deferred=D, loop_max=1, opaque={"*." + name},
                           no_fork_raise=True):
            for e in events(p, "call"):
                if e.name == name:
                    if not _in_loop(p, e.idx):
                        lo = _loop_only(ctx, g, seen + (q,))
                        if lo is None and not fn.startswith("_"):
                            lo = False   # public: its callers may be in any thread
                        if lo is not True:
                            return lo
                    res.append(g)
            res += [g for e, c in _callback_names(p) if c in (q, name)]
    return True if res else None


def handover(ctx):
    q = KS + "call_from_thread"
    w = ctx.where(q)
    fn = P(ctx.p.func(q).params[1])
    seen = set()
    for p in ctx.paths(q, deferred=D):
        if p.kind == "raise":
            ctx.ob("handover", "no error to the caller", None, w, str(p.val))
            continue
        if p.kind != "return":
            continue
        here = decided(p, _thread_test)
        fut = p.val
        isfut = call_name(fut) == "Future"
        ctx.ob("handover", "gives a future", isfut or None, w, show(fut))
        calls = [e for e in events(p, "call") if e.f == fn]
        sched = [e for e in events(p, "call") if e.name in D]
        rr = [e for e in events(p, "call") if e.recv == fut and
              e.name in ("set_result", "set_exception", "set_exc_info")]
        direct = [e for e in calls if not _deferred(p, e.idx)]
        ctx.ob("handover", "runs elsewhere only in the loop", here is True or not direct, w,
               "the call runs in the caller's thread without knowing that it is the loop's "
               "(path: %s)" % path_str(p))
        if here is None:
            here = not sched
        if here:
            seen.add("in")
            ctx.ob("handover", "called once", len(calls) == 1 and not sched, w,
                   "in the loop's thread the call is made %d times, scheduled %d times"
                   % (len(calls), len(sched)))
        else:
            if not calls and (any(raised(p, e) for e in sched) or not sched and any(
                    e.kind == "exc" for e in p.events)):
                # scheduling itself failed
                ctx.ob("handover", "failure to hand over is told", bool(rr), w,
                       "the future is left open when the hand-over fails")
                continue
            seen.add("out")
            ctx.ob("handover", "handed over once", len(sched) == 1 and (
                len(calls) == 1), w, "the call is handed over %d times, made %d times "
                "(path: %s)" % (len(sched), len(calls), path_str(p)))
        # the outcome
        for c in calls:
            if raised(p, c):
                bad = [e for e in rr if e.idx > c.idx and e.name == "set_result"]
                ok = any(e.idx > c.idx and e.name != "set_result" and
                         has(e.args[0], lambda x: x[0] == "exc") for e in rr
                         if e.args) or any(e.name == "set_exc_info" for e in rr)
                ctx.ob("handover", "errors are passed on", ok and not bad, w,
                       "an error of the call is not put in the future (path: %s)"
                       % path_str(p))
            else:
                first = [e for e in rr if e.idx > c.idx][:1]
                ctx.ob("handover", "results are passed on", bool(first) and
                       first[0].name == "set_result" and first[0].args[0] == c.res, w,
                       "the result of the call is not put in the future (path: %s)"
                       % path_str(p))
    ctx.ob("handover", "both cases", seen == {"in", "out"} or None, w, str(seen))
    # in_ioloop_thread
    q = KS + "in_ioloop_thread"
    for p in returns(ctx.paths(q)):
        v = p.val
        ok = None
        if v[0] in ("cmp", "atom", "bool"):
            ok = has(v, _is_ident) and has(v, lambda x: x == S("ioloop_thread_id")) or None
        d = decided(p, _thread_test)
        if d is not None and v[0] == "const":
            ok = v[1] is d
        elif _thread_test(v):
            ok = True
        ctx.ob("handover", "in_ioloop_thread", ok, ctx.where(q),
               "answers %s for thread test %s" % (show(v), d))
    # the sending forms
    for nm, target, lead in (("send_message_from_thread", "send_message", ("stream", "msg")),
                             ("mass_send_message_from_thread", "mass_send_message", ("msg",))):
        q = KS + nm
        w = ctx.where(q)
        want = tuple(P(x) for x in ctx.p.func(q).params[1:])
        n = 0
        for p in returns(ctx.paths(q, opaque={KS + "call_from_thread", KS + target})):
            n += 1
            cs = [e for e in events(p, "call") if e.name == "call_from_thread"]
            direct = [e for e in events(p, "call") if e.name == target]
            for e in direct:
                ctx.ob("handover", "%s is handed over" % nm, _in_loop(p, e.idx), e.where,
                       "%s calls %s in the caller's thread" % (nm, target))
            if direct and not cs:
                continue
            ctx.ob("handover", "%s hands over once" % nm, len(cs) == 1, w,
                   "%d hand-overs" % len(cs))
            for e in cs:
                a = e.allargs()[0]
                c = callee(p, a)
                ok = None
                if a[0] == "partial" and c:
                    ok = c[0].endswith("." + target) and c[1] == want
                elif c and ".<locals>." in c[0]:
                    ok = _closure_calls(ctx, c[0], target, len(want))
                elif c:
                    ok = False
                ctx.ob("handover", "%s hands over its message" % nm, ok, e.where,
                       "%s hands over %s" % (nm, show(a)))
                ctx.ob("handover", "%s gives the future" % nm, p.val == e.res, w,
                       "%s returns %s" % (nm, show(p.val)))
        ctx.ob("handover", "%s analysed" % nm, n >= 1 or None, w, "")


def _closure_calls(ctx, cq, target, n):
    for p in returns(ctx.paths(cq, opaque={KS + target})):
        cs = [e for e in events(p, "call") if e.name == target]
        if len(cs) != 1 or len(cs[0].allargs()) != n:
            return False
        if not all(x[0] == "outer" for x in cs[0].allargs()):
            return None
    return True


def connections(ctx):
    q = "server.ThreadsafeClientConnection.__init__"
    if not ctx.p.has_func(q):
        ctx.ob("connections", "thread-safe connection", None, "server", "no %s" % q)
        return
    w = ctx.where(q)
    srv, cid = [P(x) for x in ctx.p.func(q).params[1:3]]
    for p in returns(ctx.paths(q)):
        for attr, target in (("_send_message", "send_message_from_thread"),
                             ("_mass_send_message", "mass_send_message_from_thread")):
            st = [e for e in events(p, "store") if e.base == SELF and e.attr == attr]
            t = st[-1].val if st else NONE
            ok = has(t, lambda x: x[0] == "attr" and x[2] == target or
                     x[0] == "bound" and x[1].endswith("." + target))
            ctx.ob("connections", "%s is handed over" % attr,
                   ok if ok or t[0] not in ("closure",) else None, w,
                   "a thread-safe connection's %s is %s" % (attr, show(t)))
    # everything a connection sends goes through these two
    cc = "server.ClientConnection"
    for fq in sorted(ctx.p.functions):
        if not fq.startswith((cc + ".", "server.ThreadsafeClientConnection.")) or \
                ".<locals>." in fq:
            continue
        m = fq.rsplit(".", 1)[1]
        if m == "__init__":
            continue
        for p in ctx.paths(fq):
            for e in events(p, "call"):
                if e.name in ("send_message", "mass_send_message", "write"):
                    ctx.ob("connections", "%s sends through the hand-over" % m, False, e.where,
                           "%s sends with %s, which is not handed over" % (fq, e.name))
        if m in ("inform", "reply", "reply_inform", "mass_inform"):
            for p in returns(ctx.paths(fq)):
                want = S("_mass_send_message" if m == "mass_inform" else "_send_message")
                cs = [e for e in events(p, "call") if e.f == want]
                ctx.ob("connections", "%s sends" % m, len(cs) == 1 or
                       (None if any(e.f and e.f[0] == "attr" and e.f[1] == SELF and
                                    e.name not in ("inform",) for e in events(p, "call"))
                        else False), ctx.where(fq), "%s sends %d messages" % (m, len(cs)))
    # options
    q = "server.DeviceServerBase.set_concurrency_options"
    w = ctx.where(q)
    ts, ht = [P(x) for x in ctx.p.func(q).params[1:3]]
    seen = set()
    for p in returns(ctx.paths(q)):
        t, h = truthy(p, ts), truthy(p, ht)
        if h and t is False:
            ctx.ob("options", "a handler thread needs thread-safe connections", False, w,
                   "a handler thread is set up with connections that are not thread-safe")
            continue
        fac = [e for e in events(p, "store") if e.attr == "client_connection_factory"]
        if t is None and h is not None:
            # the choice must be explicit
            ctx.ob("options", "thread_safe is looked at", None, w, path_str(p))
            continue
        seen.add((t, h))
        v = fac[-1].val if fac else NONE
        name = v[1].rsplit(".", 1)[-1] if v[0] == "class" else show(v)
        if t:
            ctx.ob("options", "thread-safe connections when asked", len(fac) >= 1 and
                   (name == "ThreadsafeClientConnection" if v[0] == "class" else None), w,
                   "connections are made with %s when thread_safe is set" % name)
        if h:
            om = [e for e in events(p, "store") if e.base == SELF and e.attr == "on_message"]
            ctx.ob("options", "messages go to the handler thread", bool(om) and has(
                om[-1].val, lambda x: x[0] in ("attr", "bound") and
                (x[2] if x[0] == "attr" else x[1].rsplit(".", 1)[-1]) == "on_message"), w,
                "messages do not go to the handler thread")
    ctx.ob("options", "cases", len(seen) >= 3 or None, w, str(seen))
    for fq, n in attr_stores(ctx, "client_connection_factory"):
        ok = True if fq == q else None if fq not in engine.BASELINE else False
        if not fq.startswith("testutils."):
            ctx.ob("options", "connection factory writers", ok, ctx.where(fq),
                   "%s also chooses the connection class" % fq)
    q = "server.DeviceServerBase.mass_inform"
    for p in returns(ctx.paths(q, opaque={KS + "*"})):
        for e in events(p, "call"):
            if e.name in ("mass_send_message", "send_message"):
                ctx.ob("connections", "mass informs are handed over", _in_loop(p, e.idx),
                       e.where, "mass_inform sends in the caller's thread")
        cs = [e for e in events(p, "call") if e.name in (
            "mass_send_message_from_thread", "call_from_thread")]
        ctx.ob("connections", "mass informs are sent", len(cs) == 1 or None, ctx.where(q), "")


def _decos(fi):
    out = []
    for d in fi.node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.append(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "?"))
    return out


def client(ctx):
    for q, blocking in ((DC + "_make_threadsafe", False),
                        (DC + "_make_threadsafe_blocking", True)):
        w = ctx.where(q)
        meth = P(ctx.p.func(q).params[1])
        inner = [f for f in ctx.p.functions if f.startswith(q + ".<locals>.") and
                 f.count(".<locals>.") == 1]
        seen = set()
        for f in inner:
            for p in ctx.paths(f, deferred=D, models=None):
                calls = [e for e in events(p, "call") if e.f == meth]
                sched = [e for e in events(p, "call") if e.name in D]
                pas = [e for e in sched if e.allargs()[:1] == [meth] or
                       tuple(e.allargs()[:1]) == (meth,)]
                for e in calls:
                    ctx.ob("client", "%s runs in the loop" % q, _in_loop(p, e.idx), e.where,
                           "the method runs in the caller's thread (path: %s)" % path_str(p))
                here = decided(p, _thread_test)
                if here is None or p.kind == "cut":
                    continue
                if here:
                    seen.add("in")
                    ctx.ob("client", "%s direct in the loop" % q, len(calls) == 1 and
                           not sched and (p.kind == "raise" or p.val == calls[0].res), w,
                           "in the loop's thread the method is not simply called (path: %s)"
                           % path_str(p))
                    continue
                failed = [e for e in sched if raised(p, e)]
                if failed and p.kind == "raise":
                    continue
                seen.add("out")
                ctx.ob("client", "%s handed over once" % q, len(sched) == 1 and
                       len(calls) + len(pas) == 1, w,
                       "outside the loop's thread the method is scheduled %d times, called "
                       "%d times" % (len(sched), len(calls) + len(pas)))
                for e in calls:
                    ctx.ob("client", "%s arguments" % q, len(e.args) >= 1 and
                           e.args[0][0] == "star", e.where, "the method loses its arguments")
                for e in pas:
                    ctx.ob("client", "%s arguments" % q, any(
                        a[0] == "star" for a in e.args), e.where,
                        "the method loses its arguments")
                if blocking:
                    chain = [e for e in events(p, "call") if e.name == "chain_future" or
                             e.name in ("set_result", "set_exception", "set_exc_info")]
                    ctx.ob("client", "%s passes the outcome on" % q,
                           any(_deferred(p, e.idx) for e in chain), w,
                           "the outcome is not passed to the waiting caller (path: %s)"
                           % path_str(p))
                    for c in calls:
                        if raised(p, c):
                            ok = any(e.name in ("set_exc_info", "set_exception")
                                     for e in chain) or _deep_exc(p)
                            ctx.ob("client", "%s passes errors on" % q, ok, c.where,
                                   "an error of the method does not reach the caller (path: "
                                   "%s)" % path_str(p))
                    res = [e for e in events(p, "call") if e.name in ("result",)]
                    ctx.ob("client", "%s waits for the outcome" % q, p.kind == "raise" or
                           bool(res) and p.val == res[-1].res, w,
                           "the caller is given %s" % (show(p.val) if p.kind == "return"
                                                       else ""))
        ctx.ob("client", "%s cases" % q, seen == {"in", "out"} or None, w, str(seen))
    for q, names in ((DC + "request", ("make_threadsafe_blocking",)),
                     (DC + "send_message", ("make_threadsafe_blocking",)),
                     (DC + "disconnect", ("make_threadsafe", "make_threadsafe_blocking")),
                     (AC + "callback_request", ("make_threadsafe",
                                                "make_threadsafe_blocking"))):
        d = _decos(ctx.p.func(q))
        ctx.ob("client", "%s is marked for hand-over" % q, any(x in names for x in d) or
               (None if [x for x in d if x not in ("make_threadsafe",
                                                   "make_threadsafe_blocking")] else False),
               ctx.where(q), "%s is not marked for hand-over (decorators %s)" % (q, d))
    for mk in ("make_threadsafe", "make_threadsafe_blocking"):
        q = "client." + mk
        if not ctx.p.has_func(q):
            ctx.ob("client", mk, None, "client", "gone")
            continue
        m = P(ctx.p.func(q).params[0])
        for p in returns(ctx.paths(q)):
            st = [e for e in events(p, "store") if e.base == m]
            ctx.ob("client", "%s marks" % mk, p.val == m and [
                e.attr for e in st] == [mk], ctx.where(q),
                "%s sets %s and gives %s" % (mk, [e.attr for e in st], show(p.val)))
    # enable_thread_safety
    q = DC + "enable_thread_safety"
    w = ctx.where(q)
    seen = set()
    for p in returns(ctx.paths(q, loop_max=1, opaque={DC + "_make_threadsafe",
                                                     DC + "_make_threadsafe_blocking"})):
        def mark(nm):
            def pred(a):
                return a[0] in ("truth", "is", "eq") and has(
                    a[1], lambda x: x[0] == "attr" and x[2] == nm or
                    x[0] == "const" and nm in x[1:])
            return decided(p, pred)
        wraps = {nm: [e for e in events(p, "call") if e.name == "_" + nm]
                 for nm in ("make_threadsafe", "make_threadsafe_blocking")}
        for nm in wraps:
            m = mark(nm)
            if m is None:
                continue
            seen.add((nm, m))
            if m:
                sets = [e for e in events(p, "call") if e.name in ("setattr",)] + \
                    [e for e in events(p, "store")]
                put = [e for e in sets if any(
                    uses(x, c.res) for c in wraps[nm] for x in (
                        e.allargs() if e.kind == "call" else [e.val]))]
                elsewhere = any(uses(x, c.res) for c in wraps[nm] for e in p.events
                                if e.idx > c.idx and e.kind == "call"
                                for x in e.allargs())
                ctx.ob("client", "methods marked %s are wrapped" % nm, len(wraps[nm]) == 1
                       and len(put) == 1 or (None if elsewhere else False), w,
                       "a method marked %s is not replaced by its wrapper (path: %s)" % (
                           nm, path_str(p)))
    ctx.ob("client", "marks are looked at", len([1 for s in seen if s[1]]) >= 2 or None, w,
           str(seen))
    q = "client.CallbackClient.__init__"
    for p in returns(ctx.paths(q, opaque={DC + "*", AC + "*"})):
        ctx.ob("client", "callback clients are thread-safe", any(
            e.name == "enable_thread_safety" for e in events(p, "call")), ctx.where(q),
            "a callback client is not made thread-safe")


def _deep_exc(p):
    return any(e.kind == "exc" and e.extra is not None for e in p.events) and any(
        e.name in ("exc_info", "Future") for e in events(p, "call"))


def strategies(ctx):
    ui = "sampling.update_in_ioloop"
    wrapped = []
    if ctx.p.has_func(ui):
        w = ctx.where(ui)
        upd = P(ctx.p.func(ui).params[0])
        seen = set()
        for f in sorted(ctx.p.functions):
            if not f.startswith(ui + ".<locals>.") or f.count(".<locals>.") != 1:
                continue
            pars = tuple(P(x) for x in ctx.p.func(f).params)
            for p in ctx.paths(f, deferred=D):
                if p.kind == "cut":
                    continue
                direct = [e for e in events(p, "call") if e.f == upd]
                sched = [e for e in events(p, "call") if e.name in D]
                pas = [e for e in sched if upd in tuple(e.allargs())[:1]]
                if not (direct or sched):
                    if p.kind == "return":
                        ctx.ob("strategies", "every update is delivered", False, w,
                               "an update is dropped by the hand-over (path: %s)"
                               % path_str(p))
                    continue
                seen.add(bool(sched))
                for e in direct:
                    ctx.ob("strategies", "direct update only in the loop", _in_loop(p, e.idx),
                           e.where, "a strategy is updated in the sensor's thread (path: %s)"
                           % path_str(p))
                    ctx.ob("strategies", "update arguments", tuple(e.allargs()) == pars or
                           any(x[0] == "star" for x in e.allargs()), e.where,
                           "the update gets %s" % [show(x) for x in e.allargs()])
                for e in pas:
                    ctx.ob("strategies", "update arguments",
                           tuple(e.allargs())[1:] == pars, e.where,
                           "the update gets %s" % [show(x) for x in e.allargs()[1:]])
                if p.kind == "return":
                    ctx.ob("strategies", "delivered once", len(direct) + len(pas) == 1, w,
                           "an update is delivered %d times (path: %s)" % (
                               len(direct) + len(pas), path_str(p)))
                for e in sched:
                    ctx.ob("strategies", "given to the strategy's loop",
                           e.recv == ("attr", pars[0], "ioloop") or None, e.where,
                           "the update is given to %s" % show(e.recv))
        ctx.ob("strategies", "hand-over cases", seen == {True, False} or None, w, str(seen))
    base = "sampling.SampleStrategy"
    n = 0
    obsc = []
    for cq in sorted(ctx.p.classes):
        if not cq.startswith("sampling.") or ctx.p.cls(base) not in ctx.p.mro(ctx.p.cls(cq)):
            continue
        obs = ctx.cconst(ctx.p.cls(cq), "OBSERVE_UPDATES")
        m = method_of(ctx, cq, "update")
        if not obs or m is None:
            continue
        n += 1
        obsc.append(cq)
        fi, m = m, m.qual
        d = _decos(fi)
        ok = "update_in_ioloop" in d
        if not ok and not d:
            ok = all(_in_loop(p, e.idx) for p in ctx.paths(m, deferred=D)
                     for e in events(p, "call") if e.name not in (
                         "get_ident", "get_thread_ident", "add_callback", "exception"))
        ctx.ob("strategies", "%s updates are handed over" % cq, ok or (None if d else False),
               ctx.where(m), "%s.update runs in the thread that updates the sensor" % cq)
    ctx.ob("strategies", "observing strategies found", n >= 4 or None, base, "%d" % n)
    # the thread id is known before the first update can come
    for cq in obsc:
        m = method_of(ctx, cq, "start")
        for p in returns(ctx.paths(m.qual, selfcls=cq, deferred=D, no_fork_raise=True)):
            for e in events(p, "call"):
                if e.name != "attach" or not e.recv or e.recv == SELF:
                    continue
                ctx.ob("strategies", "%s attached in the loop" % cq, _deferred(p, e.idx),
                       e.where, "a strategy is attached outside the loop")
                st = [s for s in events(p, "store") if s.attr == "_ioloop_thread_id" and
                      s.idx < e.idx]
                ctx.ob("strategies", "%s thread id before attaching" % cq, bool(st), e.where,
                       "a strategy is attached before it knows its loop's thread")
    for fq, node in attr_loads(ctx, "attach"):
        if fq.startswith("sampling.") and outermost(fq) in engine.BASELINE:
            ctx.ob("strategies", "attaching functions", fq in (
                base + ".attach", base + ".start", base + ".start.<locals>.first_run") or None,
                ctx.where(fq), "%s attaches" % fq)


def table(ctx):
    """The table of strategies is touched in the loop only."""
    name = "_strategies"
    fqs = {fq for fq, _ in attr_loads(ctx, name)} | {fq for fq, _ in attr_stores(ctx, name)}
    fqs = {f for f in fqs if f.startswith(("server.", "sampling.", "core.", "kattypes."))}
    n = 0
    for q in sorted(entries(ctx, fqs)):
        w = ctx.where(q)
        if q.endswith(".__init__"):
            continue
        bad = None
        hit = 0
        for p in ctx.paths(q, deferred=D, loop_max=1, no_fork_raise=True):
            for e in p.events:
                if _touches(e, name):
                    hit += 1
                    if not _in_loop(p, e.idx):
                        bad = bad or (p, e)
        n += 1
        if bad is None:
            ctx.ob("table", "%s touches the table in the loop" % q, True if hit else None, w,
                   "no touch found")
            continue
        lo = _loop_only(ctx, q)
        if lo is None and not q.rsplit(".", 1)[1].startswith("_"):
            lo = False      # a public function: its callers may be in any thread
        ctx.ob("table", "%s touches the table in the loop" % q, lo, bad[1].where,
               "%s touches the table of strategies outside the loop (%s)" % (q, bad[1]))
    ctx.ob("table", "functions found", n >= 5 or None, "server", "%d" % n)


def _touches(e, name):
    def pred(x):
        return x[0] == "attr" and x[2] == name
    ts = []
    if e.kind == "call":
        ts = list(e.allargs()) + ([e.f] if e.f else []) + ([e.recv] if e.recv else [])
    elif e.kind in ("setitem", "delitem", "store"):
        ts = [e.base]
        if e.kind == "store" and e.attr == name:
            return True
    elif e.kind == "cond":
        ts = [e.extra] if isinstance(e.extra, tuple) else []
    elif e.kind in ("iter", "enditer"):
        ts = [e.val]
    return any(has(t, pred) for t in ts if isinstance(t, tuple))


PARTS = [writes, ids, handover, connections, client, strategies, table]
