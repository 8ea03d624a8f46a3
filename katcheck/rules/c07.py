"""Exactly-once completion, decided as: a request is put in the pending table with its timeout
before it is sent; a failed send completes it through the same path with a fail reply carrying
its id; every function that completes a request first takes its entry out of the table
(so no second event can find it), cancels its timeout and calls its reply callback exactly once
on every path, containing what the callback raises; a lost connection and stop() complete every
entry of a snapshot and empty the table; nothing else writes the tables.  The future and
blocking forms resolve their future from that one callback or with the error of the call.  The client is also followed through
histories of its operations (requests of every form, answers, waits, losses, stops), driven as an abstract machine with
stand-ins for I/O loop, clock, stream and futures that are analysed with it, and compared after
every step with a list of pending requests kept beside it; thorough follows longer histories."""
import ast

from .. import asyncreq as R, clients
from ..engine import NONE, const, is_const, show
from .c08 import table
from ..lib import (A, P, S, SELF, arg, as_msg, call_name, callee, events, has, is_log, mid_at,
                   path_str, raised, reaches, returns, tested, uses)

MIN_OBLIGATIONS = 30
AC, DC = R.AC, R.DC


def request(ctx):
    q = AC + "callback_request"
    w = ctx.where(q)
    fi = ctx.p.func(q)
    msg, rcb, icb, data = [P(x) for x in fi.params[1:5]]
    opq = {AC + "_push_async_request", AC + "handle_reply", DC + "send_request",
           DC + "_get_mid_and_update_msg", AC + "_handle_timeout", "core.Message.*",
           AC + "_do_fail_callback", AC + "_pop_async_request"}
    n = 0
    for p in ctx.paths(q, raise_all=True, opaque=opq, noraise=lambda e: e.name !=
                       "send_request"):
        push = [e for e in events(p, "call") if e.name == "_push_async_request"]
        send = [e for e in events(p, "call") if e.name in ("send_request", "send_message")]
        mids = [e for e in events(p, "call") if e.name == "_get_mid_and_update_msg"]
        if not send:
            ctx.ob("request", "sent", None, w, "")
            continue
        n += 1
        ctx.ob("request", "pending before it is sent", len(push) == 1 and
               push[0].idx < send[0].idx, send[0].where,
               "a request is sent before (or without) being pending")
        ctx.ob("request", "sent once", len(send) == 1, w, "sent %d times" % len(send))
        if mids and push and push[0].args:
            ctx.ob("request", "pending under its id", push[0].args[0] == mids[0].res,
                   push[0].where, "pending under %s" % show(push[0].args[0]))
            ctx.ob("request", "entry contents", list(push[0].args[1:5]) ==
                   [msg, rcb, icb, data] if len(push[0].args) >= 5 else None,
                   push[0].where, "pending as %s" % [show(a) for a in push[0].args])
        if push and len(push[0].args) >= 6:
            h = push[0].args[5]
            tm = [e for e in events(p, "call") if e.name in ("call_later", "call_at",
                                                             "add_timeout")]
            none = _timeout_none(p)
            if tm:
                ctx.ob("request", "timeout is kept with the request", h == tm[0].res,
                       push[0].where, "the timeout handle kept is %s" % show(h))
                cb = arg(tm[0], 1, "callback")
                r = reaches(ctx, p, cb, "_handle_timeout") if cb is not None else None
                ctx.ob("request", "timeout completes the request", r, tm[0].where,
                       "the timeout runs %s" % show(cb))
                c = callee(p, cb)
                if c and c[0] == AC + "_handle_timeout" and mids:
                    lead = c[1] or tuple(tm[0].args[2:])
                    ctx.ob("request", "timeout names this request", bool(lead) and
                           lead[0] == mids[0].res, tm[0].where,
                           "the timeout completes request %s" % (
                               show(lead[0]) if lead else None))
            elif none is False:
                ctx.ob("request", "timeout is set", False, w,
                       "a request with a timeout gets none (path: %s)" % path_str(p))
            else:
                ctx.ob("request", "no timeout", h == NONE, w, "")
        x = next((z for z in events(p, "exc") if z.extra in send), None)
        if x is not None and p.kind == "return":
            done = [e for e in events(p, "call") if e.idx > x.idx and e.name in (
                "handle_reply", "_handle_reply")]
            direct = [e for e in events(p, "call") if e.idx > x.idx and (
                e.f == rcb or e.name == "_do_fail_callback")]
            ctx.ob("request", "unsent request is completed", len(done) + len(direct) == 1,
                   x.where, "a request that cannot be sent is completed %d times"
                   % (len(done) + len(direct)))
            for e in done:
                g = as_msg(e.args[0]) if e.args else None
                if g is None:
                    ctx.ob("request", "unsent: fail reply", None, e.where, "")
                    continue
                ctx.ob("request", "unsent: fail reply", g.kind == "reply" and
                       bool(g.args) and g.args[0] in (const("fail"), const(b"fail")) and
                       (g.name in (A(msg, "name"),)), e.where,
                       "a request that cannot be sent gets %s" % g)
                m = mid_at(p, g, e.idx)
                ctx.ob("request", "unsent: finds its request", bool(mids) and
                       m == mids[0].res, e.where,
                       "the failure carries id %s, the request is pending under %s"
                       % (show(m), show(mids[0].res) if mids else None))
            if direct and not done:
                pop = [e for e in events(p, "call") if e.name == "_pop_async_request" and
                       x.idx < e.idx]
                ctx.ob("request", "unsent: forgotten", bool(pop), x.where,
                       "a request that could not be sent stays pending")
    ctx.ob("request", "paths", n > 0 or None, w, "")
    _send_errors(ctx, q)


def _timeout_none(p):
    r = None
    for e in events(p, "cond"):
        a = e.extra
        if a[0] == "is" and NONE in a[1:] and has(("x",) + a[1:], lambda t: t == P(
                "timeout") or t == S("_request_timeout")):
            r = e.val
    return r


def _send_errors(ctx, q):
    """Every error sending raises on purpose is one the request path completes."""
    fi = ctx.p.func(q)
    caught = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Try) and any(
                isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and
                c.func.attr in ("send_request", "send_message")
                for b in n.body for c in ast.walk(b)):
            for h in n.handlers:
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    caught.add(ast.unparse(t).split(".")[-1] if t is not None else
                               "BaseException")
    if not caught:
        return
    for m in ("send_request", "send_message"):
        fq = DC + m
        for p in ctx.paths(fq, opaque={DC + "_disconnect"}, no_fork_raise=True):
            if p.kind != "raise":
                continue
            c = str(p.val[1])
            if c.endswith("AssertionError"):
                continue
            if {"Exception", "BaseException"} & caught:
                ok = True
            else:
                try:
                    mro = [k.split(".")[-1] for k in ctx.p.mro_names(c)]
                except Exception:
                    mro = _mro(ctx, c)
                ok = bool(set(mro) & caught) if mro else None
            ctx.ob("request", "%s completes the request" % c.split(".")[-1], ok,
                   ctx.where(fq), "%s() raises %s, which leaves the request pending" % (
                       m, c))


def _mro(ctx, c):
    out, todo = [], [c]
    while todo:
        k = todo.pop()
        out.append(k.split(".")[-1])
        ci = ctx.p.classes.get(k)
        if ci is not None:
            for b in ci.bases:
                todo.append(b if isinstance(b, str) else getattr(b, "qual", str(b)))
    return out


def reply(ctx):
    q = AC + "handle_reply"
    w = ctx.where(q)
    nr = lambda e: is_log(e) or e.name in R.NOISE or e.name in (
        "_pop_async_request", "_peek_async_request")
    for p in ctx.paths(q, raise_all=True, opaque=R.LOOKUPS | R.BASEH | {"core.Message.*"},
                       noraise=nr):
        looks = R.lookups(p)
        pops = [e for e in looks if e.name == "_pop_async_request"]
        dl = R.deliveries(p, looks)
        rm = [e for e in events(p, "call") if e.name in ("remove_timeout",
                                                         "cancel_timeout")]
        for e, ent, k in dl:
            own = [x for x in pops if x is ent or x.args == ent.args]
            ctx.ob("reply", "forgotten before its callback runs",
                   bool(own) and own[0].idx < e.idx, e.where,
                   "the callback of a request runs while it is still pending")
        for ent in pops:
            h = [z for z in p.events if z.kind == "cond" and z.extra[0] == "is" and
                 NONE in z.extra[1:] and any(R.field(x, [ent]) == (ent, R.HANDLE)
                                             for x in z.extra[1:])]
            if R.missing(p, ent):
                continue
            mine = [e for e in rm if e.args and R.field(e.args[0], [ent]) == (
                ent, R.HANDLE)]
            if h and h[-1].val:
                continue
            ctx.ob("reply", "its timeout is cancelled", len(mine) == 1, w,
                   "a request that was answered keeps its timeout (path: %s)"
                   % path_str(p))
        for e in rm:
            ok = e.args and R.field(e.args[0], pops) is not None
            ctx.ob("reply", "only its own timeout is cancelled", ok, e.where,
                   "cancelled: %s" % [show(a) for a in e.args])
        x = R.raises_first(p)
        if x is not None:
            ctx.ob("reply", "callback errors contained", p.kind == "return", w,
                   "an error in a reply callback escapes")
        calls = [d for d in dl if d[2] in (R.REPLY, R.INFORM)]
        ctx.ob("reply", "callback called once", len(calls) <= 1, w,
               "a reply callback is called %d times" % len(calls))
        for ent in pops:
            none = tested(p, lambda a: a[0] == "is" and NONE in a[1:] and any(
                R.field(z, [ent]) == (ent, R.REPLY) for z in a[1:]), True)
            if not none:
                ctx.ob("reply", "a removed request is answered",
                       any(d[1] is ent or d[1].args == ent.args for d in calls) or
                       (None if _falsy(p, ent) else False), w,
                       "a request is forgotten without an answer (path: %s)" % path_str(p))


def _falsy(p, ent):
    return tested(p, lambda a: a[0] == "truth" and R.field(a[1], [ent]) is not None, False)


def timeout(ctx):
    q = AC + "_handle_timeout"
    w = ctx.where(q)
    mid = P(ctx.p.func(q).params[1])
    seen = set()
    for p in returns(ctx.paths(q, no_fork_raise=True, opaque=R.LOOKUPS | {
            AC + "_do_fail_callback", "core.Message.*"})):
        looks = R.lookups(p)
        pops = [e for e in looks if e.name == "_pop_async_request"]
        comp = [e for e in events(p, "call") if e.name == "_do_fail_callback"] + \
            [d[0] for d in R.deliveries(p, looks) if d[2] == R.REPLY]
        ctx.ob("timeout", "looked up by its id", bool(looks) and all(
            e.args and e.args[0] == mid for e in looks), w,
            "a timeout looks up %s" % [show(a) for e in looks for a in e.args])
        miss = any(tested(p, lambda a: a[0] == "is" and NONE in a[1:] and any(
            (R.field(z, [e]) or (0, R.DATA))[1] in (R.REQ, R.REPLY, R.HANDLE)
            for z in a[1:]), True) for e in looks)
        miss = miss or any(tested(p, lambda a: a[0] == "truth" and (R.field(
            a[1], [e]) or (0, R.DATA))[1] in (R.REQ, R.REPLY, R.HANDLE), False)
            for e in looks)
        if miss:
            seen.add("late")
            ctx.ob("timeout", "late timeout is ignored", not comp, w,
                   "a timeout of a completed request completes it again")
            continue
        seen.add("timed out")
        ctx.ob("timeout", "forgotten", len(pops) == 1, w,
               "a request that timed out stays pending")
        ctx.ob("timeout", "completed once", len(comp) == 1, w,
               "a request that timed out is completed %d times (path: %s)"
               % (len(comp), path_str(p)))
        if pops and comp:
            ctx.ob("timeout", "forgotten before its callback runs",
                   pops[0].idx < comp[0].idx, w, "")
            for e in comp:
                if e.name == "_do_fail_callback":
                    _fail_args(ctx, "timeout", e, pops)
        if not miss and comp and not any(
                e.kind == "cond" and any(R.field(z, looks) for z in e.extra[1:]
                                         if isinstance(z, tuple)) for e in p.events):
            ctx.ob("timeout", "late timeout is ignored", False, w,
                   "a timeout does not check that its request is still pending")
    ctx.ob("timeout", "cases", "timed out" in seen or None, w, "")


def _fail_args(ctx, rule, e, ents):
    """_do_fail_callback(reason, *entry)"""
    a = e.args
    if len(a) == 2 and a[1][0] == "star":
        ctx.ob(rule, "fails its own request", any(a[1][1] == x.res for x in ents), e.where,
               "")
        return
    for i, t in enumerate(a[1:]):
        f = R.field(t, ents)
        ctx.ob(rule, "fails its own request", f is not None and f[1] == i, e.where,
               "the failure is delivered with %s" % [show(x) for x in a])


def fail(ctx):
    q = AC + "_do_fail_callback"
    w = ctx.where(q)
    fi = ctx.p.func(q)
    reason, msg, rcb, icb, data = [P(x) for x in fi.params[1:6]]
    for p in ctx.paths(q, raise_all=True, opaque={"core.Message.*"}, noraise=lambda e:
                       is_log(e) or e.name in R.NOISE or (e.target or "").startswith(
                           "core.Message.")):
        calls = [e for e in events(p, "call") if e.f == rcb]
        none = tested(p, lambda a: (a[0] == "is" and rcb in a[1:] and NONE in a[1:]), True) \
            or tested(p, lambda a: a == ("truth", rcb), False)
        if none:
            ctx.ob("fail", "no callback, no call", not calls, w, "")
            continue
        ctx.ob("fail", "callback called once", len(calls) == 1, w,
               "the reply callback of a failed request is called %d times (path: %s)"
               % (len(calls), path_str(p)))
        if events(p, "exc"):
            ctx.ob("fail", "callback errors contained", p.kind == "return", w,
                   "an error in a reply callback escapes")
        for e in calls:
            g = as_msg(e.args[0]) if e.args else None
            if g is None:
                ctx.ob("fail", "fail reply", None, e.where, "")
                continue
            ctx.ob("fail", "fail reply", g.kind == "reply" and g.args and g.args[0] in (
                const("fail"), const(b"fail")), e.where, "completed with %s" % g)
            ctx.ob("fail", "names the request", g.name == A(msg, "name") and mid_at(
                p, g, e.idx) == A(msg, "mid"), e.where, "completed with %s" % g)
            ctx.ob("fail", "gives the reason", len(g.args) >= 2 and uses(
                g.args[1], reason), e.where, "completed with %s" % g)
            rest = e.args[1:]
            ctx.ob("fail", "the request's own user data", all(
                x == ("star", data) for x in rest), e.where,
                "called with %s" % [show(x) for x in rest])


def fail_all(ctx):
    q = AC + "_fail_waiting_requests"
    w = ctx.where(q)
    n = 0
    for p in ctx.paths(q, loop_max=2, no_fork_raise=True,
                       opaque={AC + "_do_fail_callback"}):
        if p.kind == "raise":
            continue
        its = [e for e in events(p, "iter") if has(e.val, lambda t: t == S(
            "_async_queue"))]
        clears = [e for e in p.events if e.kind == "store" and e.attr == "_async_queue" and
                  e.base == SELF or e.kind == "call" and e.name == "clear" and
                  e.recv == S("_async_queue")]
        stk = [e for e in p.events if e.kind == "store" and e.attr == "_async_id_stack" and
               e.base == SELF or e.kind == "call" and e.name == "clear" and
               e.recv == S("_async_id_stack")]
        pops = [e for e in events(p, "call") if e.name in ("_pop_async_request", "popitem")
                or e.name == "pop" and e.recv == S("_async_queue")]
        ctx.ob("fail-all", "table is emptied", bool(clears) and bool(stk) or
               (None if pops else False), w,
               "requests stay pending after the connection was lost (path: %s)"
               % path_str(p))
        for e in clears:
            if e.kind == "store":
                ctx.ob("fail-all", "emptied", e.val[0] in ("dict",) and not e.val[1]
                       if e.val[0] == "dict" else None, e.where, "")
        fails = [e for e in events(p, "call") if e.name == "_do_fail_callback"]
        sched = [e for e in events(p, "call") if e.name in ("add_callback", "spawn_callback",
                                                            "add_callback_from_signal") and
                 e.args and (reaches(ctx, p, e.args[0], "_do_fail_callback"))]
        if clears:
            for e in fails:
                ctx.ob("fail-all", "no callback before the table is emptied",
                       e.idx > clears[0].idx, e.where,
                       "a request made by a callback is forgotten")
        for it in its:
            n += 1
        nxt = [e.idx for e in events(p, "iter")] + [len(p.events)]
        for i, it in enumerate(events(p, "iter")):
            if it not in its:
                continue
            seg = p.events[it.idx:nxt[i + 1]]
            done = [e for e in seg if e in fails or e in sched]
            ctx.ob("fail-all", "each request is completed once", len(done) == 1, w,
                   "a pending request is completed %d times when the connection is lost "
                   "(path: %s)" % (len(done), path_str(p)))
            for e in done:
                rest = e.args[2:] if e in sched else e.args[1:]
                ctx.ob("fail-all", "with its own entry", len(rest) == 1 and
                       rest[0][0] == "star" and has(rest[0], lambda t: t == S(
                           "_async_queue")) or (None if len(rest) == 5 or (
                               e in sched and e.args[0][0] in ("closure", "partial"))
                               else False), e.where,
                       "completed with %s" % [show(x) for x in rest])
            rm = [e for e in seg if e.kind == "call" and e.name == "remove_timeout"]
            nohandle = any(e.kind == "cond" and e.extra[0] == "is" and NONE in e.extra[1:]
                           and e.val for e in seg)
            ctx.ob("fail-all", "its timeout is cancelled", len(rm) == 1 or nohandle, w,
                   "a request completed by the loss keeps its timeout (path: %s)"
                   % path_str(p))
    ctx.ob("fail-all", "pending requests", n > 0 or None, w, "")
    for m, reason in (("stop", "the client stops"), ("_stream_closed_callback",
                                                     "the connection is lost")):
        q = AC + m
        w = ctx.where(q)
        for p in ctx.paths(q, opaque={DC + m, AC + "_fail_waiting_requests"},
                           noraise=lambda e: True):
            if p.kind == "raise":
                continue
            direct = [e for e in events(p, "call") if e.name == "_fail_waiting_requests"]
            sched = [e for e in events(p, "call") if e.name in (
                "add_callback", "spawn_callback") and e.args and reaches(
                    ctx, p, e.args[0], "_fail_waiting_requests")]
            sup = [e for e in events(p, "call") if (e.target or "") == DC + m]
            k = len(direct) + len(sched)
            ctx.ob("fail-all", "when %s" % reason, k >= 1, w,
                   "pending requests are not completed when %s (path: %s)" % (
                       reason, path_str(p)))
            if m == "stop" and sup:
                ctx.ob("fail-all", "stop: in the I/O loop", not direct, w,
                       "stop() completes requests in the calling thread")
                if sched:
                    ctx.ob("fail-all", "stop: before the loop ends",
                           sched[0].idx < sup[0].idx, w,
                           "the completion is scheduled after the loop was told to stop")


def tables(ctx):
    """Nothing else writes the tables."""
    ok_f = {"_push_async_request", "_pop_async_request", "_reset_async_requests",
            "_fail_waiting_requests", "__init__"}
    from .. import engine
    for q, fi in sorted(ctx.p.functions.items()):
        if not q.startswith("client."):
            continue
        for n in ast.walk(fi.node):
            hit = None
            if isinstance(n, ast.Attribute) and n.attr in ("_async_queue",
                                                           "_async_id_stack"):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    hit = n
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if any(isinstance(x, ast.Attribute) and x.attr in (
                        "_async_queue", "_async_id_stack") for x in ast.walk(n.value)):
                    hit = n
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ("pop", "popitem", "clear", "remove", "append",
                                    "insert", "update", "setdefault", "extend"):
                if any(isinstance(x, ast.Attribute) and x.attr in (
                        "_async_queue", "_async_id_stack")
                        for x in ast.walk(n.func.value)):
                    hit = n
            if hit is None:
                continue
            m = q.split(".")[2]
            ok = True if m in ok_f else (None if q not in engine.BASELINE else False)
            ctx.ob("tables", "%s writes the pending table" % m, ok, "%s:%d" % (
                fi.where.split(":")[0], hit.lineno),
                "%s() changes the table of pending requests" % m)


def futures(ctx):
    q = AC + "future_request"
    w = ctx.where(q)
    cbs = set()
    for p in ctx.paths(q, raise_all=True, opaque={AC + "callback_request"},
                       noraise=lambda e: e.name != "callback_request"):
        cr = [e for e in events(p, "call") if e.name == "callback_request"]
        ctx.ob("future", "requested once", len(cr) == 1, w, "")
        if p.kind == "raise":
            ctx.ob("future", "errors reach the future", False, w,
                   "an error making the request is raised, the future is not returned")
            continue
        f = p.val
        for e in cr:
            cb = arg(e, 1, "reply_cb")
            if cb is not None and cb[0] == "closure":
                cbs.add((p.engine.closures[cb[1]][0].qual, cb[1]))
            ctx.ob("future", "reply callback given", cb is not None and cb != NONE,
                   e.where, "the future's request has no reply callback")
            x = next((z for z in events(p, "exc") if z.extra is e), None)
            if x is not None:
                se = [z for z in events(p, "call") if z.name in (
                    "set_exc_info", "set_exception") and z.recv == f]
                ctx.ob("future", "errors reach the future", len(se) == 1, w,
                       "an error making the request leaves the future unresolved")
            else:
                other = [z for z in events(p, "call") if z.recv == f and z.name in (
                    "set_result", "set_exception", "set_exc_info")]
                ctx.ob("future", "resolved only by the reply", not other, w, "")
    for cq, _ in sorted(cbs):
        for p in returns(ctx.paths(cq, no_fork_raise=True)):
            sr = [e for e in events(p, "call") if e.name == "set_result"]
            ctx.ob("future", "reply resolves it", len(sr) == 1, ctx.where(cq),
                   "the reply resolves the future %d times (path: %s)" % (
                       len(sr), path_str(p)))
            m = P([a for a in ctx.p.func(cq).params if a != "self"][0])
            for e in sr:
                v = e.args[0]
                ctx.ob("future", "with the reply and its informs", v[0] == "tuple" and
                       len(v[1]) == 2 and v[1][0] == m, e.where,
                       "the future's result is %s" % show(v))
    ctx.ob("future", "callback found", bool(cbs) or None, w, "")
    q = AC + "blocking_request"
    w = ctx.where(q)
    bcb = set()
    for p in ctx.paths(q, noraise=lambda e: True, opaque={AC + "future_request"}):
        for e in events(p, "call"):
            if e.name == "add_callback" and e.args and callee(p, e.args[0]):
                bcb.add(callee(p, e.args[0])[0])
    for cq in sorted(bcb):
        for p in ctx.paths(cq, raise_all=True, opaque={AC + "future_request"},
                           noraise=lambda e: e.name != "future_request"):
            ch = [e for e in events(p, "call") if e.name == "chain_future" or (
                e.name == "add_done_callback")]
            ctx.ob("future", "blocking caller is released", p.kind == "return" and
                   len(ch) == 1, ctx.where(cq),
                   "a blocking request is never released (path: %s)" % path_str(p))
    ctx.ob("future", "blocking form", bool(bcb) or None, w, "")


def histories(ctx):
    clients.completions(ctx)


PARTS = [request, reply, timeout, fail, fail_all, tables, table, futures, histories]
