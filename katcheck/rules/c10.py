"""Typestate and ownership of sampling strategies: for every strategy class, every path of cancel
marks the strategy as cancelled, detaches it from its sensor if it observes it and takes back
every timer whose handle any of its methods keeps; every timer is kept in such a handle, and
nothing that can run after a cancellation (updates handed over earlier, first activation) sets a
timer, attaches or reports without looking at the mark.  In the server, every path of the two
sampling handlers, of clearing, disconnecting and sensor removal takes a strategy out of the table
and cancels it together, stores and starts a new one together, and touches nothing before the
parameters were accepted.  Beside that, the strategies and the server's request handlers are followed,
together with stand-ins for the loop, sensors and clients which are analysed and not run, through all
histories of requests, updates, waits, removed sensors and leaving clients up to a length: exactly the
strategies in force report, and no observer and no timer is left of any other."""
import ast

from .. import engine, strategies
from ..engine import NONE, TRUE, FALSE, const, is_const, show, subterms
from ..lib import (A, P, S, SELF, arg, attr_loads, attr_stores, call_name, callee, decided,
                   events, has, isnone, method_of, path_str, raised, returns, snapshot_kind,
                   truthy, uses,
                   entries, within)

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ["callbacks given to the loop run in the order given, before timers that are "
               "due in the same pass", "IOLoop.remove_timeout makes a timer harmless",
               "the server's loop is the strategies' loop"]
BASE = "sampling.SampleStrategy"
TIMERS = {"call_at": 1, "call_later": 1, "add_timeout": 1}
D = {"add_callback": 0}
DS = "server.DeviceServer."


def classes(ctx):
    return [c for c in sorted(ctx.p.classes) if c.startswith("sampling.") and c != BASE and
            ctx.p.cls(BASE) in ctx.p.mro(ctx.p.cls(c))]


def _methods(ctx, cq):
    out = {}
    for k in ctx.p.mro(ctx.p.cls(cq)):
        if hasattr(k, "methods"):
            for n, fi in k.methods.items():
                out.setdefault(n, fi)
    return out


def _observes(ctx, cq):
    return bool(ctx.cconst(ctx.p.cls(cq), "OBSERVE_UPDATES"))


def _paths(ctx, fi, cq, **kw):
    kw.setdefault("deferred", D)
    kw.setdefault("no_fork_raise", True)
    return ctx.paths(fi.qual, selfcls=cq, **kw)


def _handles(ctx, cq):
    """attribute -> name of the timer's function, over all methods of the class."""
    out, loose = {}, []
    for n, fi in sorted(_methods(ctx, cq).items()):
        if fi.qual not in engine.BASELINE or n in ("__init__", "get_strategy"):
            continue
        for p in _paths(ctx, fi, cq):
            for e in events(p, "call"):
                if e.name not in TIMERS or p.kind == "cut":
                    continue
                st = [s for s in events(p, "store") if s.base == SELF and s.val == e.res]
                c = e.allargs()[1] if len(e.allargs()) > 1 else NONE
                if st:
                    out.setdefault(st[0].attr, set()).add(_fname(p, c))
                elif p.kind == "return":
                    loose.append((fi, p, e))
    return out, loose


def _fname(p, c):
    r = callee(p, c)
    if r:
        return r[0].rsplit(".", 1)[-1]
    if c[0] == "attr":
        return c[2]
    return show(c)


def _fail_fast(p, idx):
    """Was the cancelled mark found unset, after the last hand-over before this event?"""
    start = 0
    for e in p.events[:idx]:
        if e.kind == "defer":
            start = e.idx
    for e in p.events[start:idx]:
        if e.kind == "cond" and e.extra == ("truth", S("_cancelled")) and not e.val:
            return True
    return False


def cancel(ctx):
    n = 0
    for cq in classes(ctx):
        n += 1
        m = _methods(ctx, cq)
        hs, loose = _handles(ctx, cq)
        for fi, p, e in loose:
            ctx.ob("cancel", "%s timers are kept" % cq, False, e.where,
                   "%s sets a timer without keeping its handle" % fi.qual)
        fi = m["cancel"]
        w = ctx.where(fi.qual)
        k = 0
        for p in _paths(ctx, fi, cq):
            if p.kind == "raise":
                ctx.ob("cancel", "%s cancel completes" % cq, None, w, str(p.val))
                continue
            if p.kind != "return":
                continue
            k += 1
            mark = [e for e in events(p, "store") if e.base == SELF and
                    e.attr == "_cancelled"]
            ctx.ob("cancel", "%s is marked" % cq, bool(mark) and mark[-1].val == TRUE, w,
                   "cancel leaves the strategy unmarked (path: %s)" % path_str(p))
            if _observes(ctx, cq):
                det = [e for e in events(p, "call") if e.name == "detach" and
                       e.recv == S("_sensor")]
                ctx.ob("cancel", "%s is detached" % cq, bool(det) and all(
                    tuple(e.allargs()) == (SELF,) for e in det), w,
                    "cancel leaves the strategy attached to its sensor (path: %s)"
                    % path_str(p))
                if det and mark:
                    ctx.ob("cancel", "%s marked before detaching" % cq, True, w, "")
            for h in hs:
                t = S(h)
                rem = [e for e in events(p, "call") if e.name == "remove_timeout" and
                       tuple(e.allargs())[:1] == (t,)]
                none = isnone(p, t) or truthy(p, t) is False
                ctx.ob("cancel", "%s timer %s is taken back" % (cq, h), bool(rem) or none, w,
                       "cancel leaves the timer %s of %s (path: %s)" % (h, cq, path_str(p)))
                over = [e for e in events(p, "store") if e.base == SELF and e.attr == h and
                        (not rem or e.idx < rem[0].idx)]
                ctx.ob("cancel", "%s timer %s is not lost first" % (cq, h), not over or
                       not rem, w, "the handle is overwritten before it is used")
                for e in rem:
                    ctx.ob("cancel", "%s timers are taken back in the loop" % cq,
                           _deferred(p, e.idx) or None, e.where, "")
        ctx.ob("cancel", "%s cancel analysed" % cq, k >= 1, w, "")
        # a handle must be None or live before anything reads it
        for h in hs:
            st = [(fq, x) for fq, x in attr_stores(ctx, h) if any(
                x.endswith(".__init__") for x in entries(ctx, [fq]))]
            ctx.ob("cancel", "%s handle %s exists from the start" % (cq, h), bool(st), w,
                   "cancelling before the first timer fails: %s has no %s" % (cq, h))
    ctx.ob("cancel", "strategy classes", n >= 7, BASE, "%d classes" % n)


def _deferred(p, idx):
    d = 0
    for e in p.events[:idx]:
        d += (e.kind == "defer") - (e.kind == "enddefer")
    return d > 0


def after(ctx):
    """What may run after a cancellation looks at the mark first."""
    for cq in classes(ctx):
        m = _methods(ctx, cq)
        hs, _ = _handles(ctx, cq)
        timer_fns = set().union(*hs.values()) if hs else set()
        if _observes(ctx, cq):
            fi = m["update"]
            for p in _paths(ctx, fi, cq):
                for e in events(p, "call"):
                    if e.name in TIMERS:
                        ctx.ob("after", "%s update sets no timer after cancelling" % cq,
                               _fail_fast(p, e.idx), e.where,
                               "an update handed to the loop before the cancellation sets a "
                               "timer after it (path: %s)" % path_str(p))
        for p in _paths(ctx, m["start"], cq):
            for e in events(p, "call"):
                what = "sets a timer" if e.name in TIMERS else \
                    "attaches" if e.name == "attach" and e.recv == S("_sensor") else None
                if what is None:
                    continue
                if not _deferred(p, e.idx):
                    ctx.ob("after", "%s starts in the loop" % cq, None, e.where, what)
                    continue
                ctx.ob("after", "%s start %s only if not cancelled" % (cq, what),
                       _fail_fast(p, e.idx), e.where, "the first activation %s although "
                       "the strategy may be cancelled already (path: %s)"
                       % (what, path_str(p)))
        # reports
        fi = m["inform"]
        k = 0
        for p in _paths(ctx, fi, cq):
            for e in events(p, "call"):
                if e.f == S("_inform_callback"):
                    k += 1
                    d = decided(p, lambda a: a == ("truth", S("_cancelled")), e.idx)
                    ctx.ob("after", "%s reports nothing after cancelling" % cq, d is False,
                           e.where, "a cancelled strategy still reports (path: %s)"
                           % path_str(p))
        ctx.ob("after", "%s reports found" % cq, k >= 1 or None, fi.where, "")
    for fq, x in attr_loads(ctx, "_inform_callback"):
        fo = fq.split(".<locals>.")[0]
        ctx.ob("after", "reports go through inform", fo == BASE + ".inform" or
               (None if fo not in engine.BASELINE else False), ctx.where(fq),
               "%s calls the client without looking at the mark" % fq)
    for fq, x in attr_stores(ctx, "_cancelled"):
        fo = fq.split(".<locals>.")[0]
        if not fo.startswith("sampling."):
            continue
        ok = within(ctx, fo, [q for q in engine.BASELINE if q.startswith("sampling.") and
                              q.rsplit(".", 1)[1] in ("__init__", "start", "cancel")])
        ctx.ob("after", "writers of the mark", ok, ctx.where(fq),
               "%s changes the cancelled mark" % fq)
    for nm in ("start", "__init__"):
        q = BASE + "." + nm
        for p in returns(ctx.paths(q, no_fork_raise=True)):
            st = [e for e in events(p, "store") if e.attr == "_cancelled"]
            ctx.ob("after", "%s clears the mark" % nm, bool(st) and st[-1].val == FALSE and
                   not [e for e in events(p, "call") if e.name == "add_callback" and
                        e.idx < st[-1].idx], ctx.where(q),
                   "%s does not clear the mark first" % q)


# -- the server's table ----------------------------------------------------

def _tab(t):
    """Is this term the server's table (or one client's part of it)?"""
    return t is not None and has(t, lambda x: x[0] == "attr" and x[2] == "_strategies")


def _touches(p):
    """Events which change the table or a strategy in it."""
    out = []
    for e in p.events:
        if e.kind == "call" and e.name in ("pop", "clear", "update", "setdefault", "popitem",
                                           "cancel") and _tab(e.recv):
            out.append(e)
        elif e.kind in ("setitem", "delitem") and _tab(e.base):
            out.append(e)
        elif e.kind == "call" and e.name in ("start", "cancel") and e.recv is not None and \
                _is_new(p, e.recv):
            out.append(e)
    return out


def _made(p):
    """Calls which build a strategy for the request on this path."""
    out = []
    for e in events(p, "call"):
        if e.name == "get_strategy" and e.args and not (
                is_const(e.args[0]) and "none" in str(e.args[0])):
            out.append(e)
    return out


def _is_new(p, t):
    return any(e.res == t for e in _made(p)) or _in_requested(t)


def _in_requested(t):
    return t[0] in ("item", "elem") or (t[0] == "call" and call_name(t) in (
        "get", "pop", "values", "items"))


def handlers(ctx):
    op = {BASE + ".*", "core.*", "sampling.*"}

    def quiet(e):
        return e.name in ("cancel", "start", "pop", "get", "make_reply", "keys", "items",
                          "values", "get_sampling_formatted", "get_sampling", "round", "join")
    for nm, bulk in (("_handle_sensor_sampling", False),
                     ("_handle_bulk_set_sensor_sampling", True)):
        q = DS + nm
        w = ctx.where(q)
        req = P(ctx.p.func(q).params[1])
        client = A(req, "client_connection")
        mine = ("item", S("_strategies"), client)
        seen = set()
        for p in ctx.paths(q, opaque=op, noraise=lambda e: e.kind == "yield" or quiet(e),
                           loop_max=1, max_paths=60000,
                           relevant=lambda e: e.kind in (
                               "cond", "setitem", "delitem", "raise", "handler", "iter",
                               "enditer", "yield") or
                           e.kind == "exc" or e.kind == "call" and e.name in (
                               "pop", "cancel", "start", "get_strategy", "clear", "get")):
            if p.kind == "cut":
                continue
            tch = _touches(p)
            made = _made(p)
            first = tch[0].idx if tch else len(p.events)
            if p.kind == "raise" and call_name(p.val) != "Return" and \
                    not _is_return(p):
                seen.add("refused")
                done = [e for e in tch if not raised(p, e)]
                done = [e for e in done if not (e.kind == "call" and e.name == "get")]
                late = [e for e in p.events if e.kind in ("raise",) and e.idx > first]
                ctx.ob("handlers", "%s refused requests change nothing" % nm,
                       not done or (None if not late and not _validation(p, first)
                                    else False), w,
                       "a refused request has already changed the strategies (%s; path: %s)"
                       % (done[:1], path_str(p)))
                continue
            for e in made:
                ctx.ob("handlers", "%s strategies are made before any change" % nm,
                       e.idx < first, e.where, "a strategy is made, and its parameters "
                       "checked, after the previous one was given up")
                if len(e.args) >= 3:
                    io = dict(e.kwargs).get("ioloop")
                    ctx.ob("handlers", "%s strategies use the server's loop" % nm,
                           io == S("ioloop") or (io is None or None), e.where,
                           "the strategy runs in loop %s" % (show(io) if io else "none"))
            # old
            pops = [e for e in tch if e.kind == "call" and e.name == "pop" and
                    e.recv == mine]
            sets = [e for e in tch if e.kind == "setitem"]
            starts = [e for e in events(p, "call") if e.name == "start"]
            cancels = [e for e in events(p, "call") if e.name == "cancel"]
            if made or sets or starts or pops:
                seen.add("set")
            for e in pops:
                old = e.res
                got = truthy(p, old)
                if got is None and isnone(p, old) is not None:
                    got = not isnone(p, old)
                cc = [c for c in cancels if c.recv == old]
                if got is False:
                    ctx.ob("handlers", "%s nothing to cancel" % nm, not cc, w, "")
                else:
                    seen.add("cancelled")
                    ctx.ob("handlers", "%s a replaced strategy is cancelled once" % nm,
                           len(cc) == 1, e.where, "the previous strategy is taken out of the "
                           "table and cancelled %d times (path: %s)" % (len(cc), path_str(p)))
            keys = {e.args[0] for e in pops if e.args}
            for e in sets:
                key = e.extra
                ctx.ob("handlers", "%s stored for this client and sensor" % nm,
                       e.base == mine and (key in keys or None), e.where,
                       "the new strategy is stored under %s in %s" % (show(key), show(e.base)))
                prev = [x for x in pops if x.args and x.args[0] == key and x.idx < e.idx] or \
                    [c for c in cancels if _tab(c.recv)]
                ctx.ob("handlers", "%s the previous strategy is given up first" % nm,
                       bool(prev), e.where, "a strategy is stored over the previous one, "
                       "which keeps running")
                st = [s for s in starts if s.recv == e.val]
                ctx.ob("handlers", "%s a stored strategy is started once" % nm, len(st) == 1,
                       e.where, "the stored strategy is started %d times" % len(st))
                mk = [m for m in made if m.res == e.val]
                if mk and len(mk[0].args) >= 3:
                    ctx.ob("handlers", "%s stored under its own sensor" % nm,
                           mk[0].args[2] == key, e.where,
                           "a strategy for %s is stored under %s" % (
                               show(mk[0].args[2]), show(key)))
            for s in starts:
                ctx.ob("handlers", "%s a started strategy is stored" % nm, any(
                    e.val == s.recv for e in sets), s.where,
                    "a strategy is started but not stored, so it can never be cancelled")
            # a new strategy is either none or stored
            if made and not bulk and p.kind != "cut":
                res = made[-1].res
                none = decided(p, lambda a: a[0] == "isinstance" and a[1] == res)
                if not sets:
                    ctx.ob("handlers", "%s a new strategy takes effect" % nm,
                           none is True or None, w,
                           "a new strategy is neither none nor stored (path: %s)"
                           % path_str(p))
                ctx.ob("handlers", "%s a new strategy replaces the old one" % nm,
                       bool(pops) or (None if any(
                           e.kind in ("setitem", "delitem") or e.name in (
                               "cancel",) for e in tch) else False), w,
                       "a new strategy leaves the previous one in place (path: %s)"
                       % path_str(p))
            if bulk:
                _bulk(ctx, p, nm, mine, pops, sets)
        ctx.ob("handlers", "%s cases" % nm, seen >= {"refused", "set", "cancelled"} or None,
               w, str(seen))


def _is_return(p):
    v = p.val
    if isinstance(v, tuple) and v[0] == "exc":
        return str(v[1]).rsplit(".", 1)[-1] == "Return"
    return False


def _validation(p, first):
    """Did the path fail in something that judges the request, after the first change?"""
    for e in p.events:
        if e.idx > first and e.kind == "exc":
            x = e.extra
            if getattr(x, "kind", None) == "call" and x.name in (
                    "get_strategy", "float", "int", "ensure_native_str", "strategy_allowed"):
                return True
    return False


def _bulk(ctx, p, nm, mine, pops, sets):
    """Each pass over the requested strategies replaces one of them."""
    its = [e for e in p.events if e.kind == "iter"]
    for i, it in enumerate(its):
        end = next((e.idx for e in p.events if e.idx > it.idx and e.kind in (
            "iter", "enditer")), len(p.events))
        body = p.events[it.idx:end]
        makes = [e for e in body if e.kind == "call" and e.name == "get_strategy"]
        chg = [e for e in body if e in pops or e in sets or
               (e.kind == "call" and e.name in ("start", "isinstance"))]
        if chg and not makes:
            ctx.ob("handlers", "%s every requested strategy replaces the old one" % nm,
                   bool([e for e in body if e in pops]), it.where,
                   "a requested strategy leaves the previous one in place (path: %s)"
                   % path_str(p))


def clearing(ctx):
    q = DS + "clear_strategies"
    w = ctx.where(q)
    conn, rem = [P(x) for x in ctx.p.func(q).params[1:3]]
    seen = set()
    for p in ctx.paths(q, no_fork_raise=True, loop_max=2, opaque={BASE + ".*"}):
        if p.kind != "return":
            continue
        # the client's part of the table
        part = [e for e in events(p, "call") if _tab(e.recv) or (
            e.f is not None and _tab(e.f))]
        part = [e for e in part if e.allargs() and e.allargs()[0] == conn]
        d = part[0].res if part else ("item", S("_strategies"), conn)
        r = truthy(p, rem)
        gone = any(e.name == "pop" or _bound_pop(e) for e in part) or any(
            e.kind == "delitem" and e.base == S("_strategies") for e in p.events)
        if r:
            none = isnone(p, d)
            ctx.ob("clearing", "a removed client leaves the table", gone or bool(none) or
                   None if none is None and not part else gone or bool(none), w,
                   "a disconnected client stays in the table (path: %s)" % path_str(p))
        elif r is False:
            ctx.ob("clearing", "a clearing client stays in the table", not gone, w,
                   "clearing forgets the client")
        its = [e for e in p.events if e.kind == "iter"]
        ends = [e for e in p.events if e.kind == "breakiter"]
        ctx.ob("clearing", "all strategies are cleared", not ends, w,
               "clearing can stop early (path: %s)" % path_str(p))
        if isnone(p, d) is False or truthy(p, d):
            ctx.ob("clearing", "strategies are gone through",
                   any(e.kind in ("iter", "enditer") and uses(e.val, d) for e in p.events)
                   or any(e.kind in ("while", "endwhile") for e in p.events) or False, w,
                   "the strategies of a client are not gone through (path: %s)" % path_str(p))
        for e in [e for e in p.events if e.kind in ("iter", "enditer") and uses(e.val, d)]:
            seen.add(e.kind)
        cl = [e for e in events(p, "call") if e.name == "cancel"]
        for i, it in enumerate(its):
            nxt = next((e.idx for e in p.events if e.idx > it.idx and e.kind in (
                "iter", "enditer")), len(p.events))
            body = p.events[it.idx:nxt]
            c = [e for e in body if e.kind == "call" and e.name == "cancel"]
            if not uses(it.val, d):
                continue
            ctx.ob("clearing", "each strategy is cancelled once", len(c) == 1 and
                   uses(c[0].recv, d), w, "a strategy is cancelled %d times" % len(c))
            out = [e for e in body if e.kind == "delitem" or e.kind == "call" and e.name in
                   ("pop", "popitem")]
            ca = [e for e in events(p, "call") if e.name == "clear" and uses(e.recv, d)]
            if r is not True or not gone:
                ctx.ob("clearing", "each strategy leaves the table", bool(out) or bool(ca) or
                       gone, w, "a cancelled strategy stays in the table (path: %s)"
                       % path_str(p))
            if out and not ca and it.val is not None:
                k = snapshot_kind(it.val, d)
                ctx.ob("clearing", "going over a copy", k == "copy" if k in (
                    "copy", "live") else None, it.where,
                    "the table changes while it is gone over")
    ctx.ob("clearing", "cases", "iter" in seen or None, w, str(seen))
    # disconnecting
    q = DS + "on_client_disconnect"
    w = ctx.where(q)
    conn = P(ctx.p.func(q).params[1])
    n = 0
    for p in returns(ctx.paths(q, deferred=D, opaque={DS + "clear_strategies", "core.*"},
                               noraise=lambda e: e.name not in ("inform", "flush_on_close",
                                                                "remove"))):
        if any(raised(p, e) for e in events(p, "call") if e.name == "remove" and
               not _deferred(p, e.idx)):
            continue
        n += 1
        cs = [e for e in events(p, "call") if e.name == "clear_strategies"]
        ok = len(cs) == 1 and cs[0].allargs()[:1] in ((conn,), [conn]) and _true_arg(cs[0])
        ctx.ob("clearing", "disconnecting clears the client's strategies", ok or
               (None if not cs and any(_tab(e.recv) for e in events(p, "call")) else False),
               w, "a disconnected client's strategies are not cleared and removed (path: %s)"
               % path_str(p))
    ctx.ob("clearing", "disconnecting analysed", n >= 1, w, "")
    # clearing on request
    q = DS + "request_sensor_sampling_clear"
    w = ctx.where(q)
    req = P(ctx.p.func(q).params[1])
    for p in returns(ctx.paths(q, deferred=D, opaque={DS + "clear_strategies", "core.*"},
                               no_fork_raise=True)):
        cs = [e for e in events(p, "call") if e.name == "clear_strategies"]
        ctx.ob("clearing", "?sensor-sampling-clear clears this client", len(cs) == 1 and
               cs[0].allargs()[0] == A(req, "client_connection") and not _true_arg(cs[0]), w,
               "clearing is done %d times (%s)" % (len(cs), cs[:1]))
    # connecting
    q = DS + "on_client_connect"
    w = ctx.where(q)
    conn = P(ctx.p.func(q).params[1])
    for p in returns(ctx.paths(q, no_fork_raise=True, opaque={"core.*"})):
        st = [e for e in p.events if e.kind == "setitem" and e.base == S("_strategies")]
        ctx.ob("clearing", "a new client has its own empty part", len(st) == 1 and
               st[0].extra == conn and _fresh_dict(st[0].val), w,
               "a new client starts with %s" % [show(e.val) for e in st])


def _bound_pop(e):
    return e.f is not None and e.f[0] in ("attr", "bound") and (
        e.f[2] if e.f[0] == "attr" else e.f[1]).endswith("pop")


def _true_arg(e):
    al = list(e.args[1:]) + [v for k, v in e.kwargs]
    return any(x == TRUE for x in al)


def _fresh_dict(t):
    return t[0] in ("dict", "new") or call_name(t) == "dict" and not t[2] or \
        (t[0] == "const" and t[1] == "dict")


def removal(ctx):
    q = DS + "remove_sensor"
    w = ctx.where(q)
    seen = set()
    for p in returns(ctx.paths(q, deferred=D, no_fork_raise=True, opaque={BASE + ".*"},
                               loop_max=2)):
        pop = [e for e in events(p, "call") if e.name == "pop" and
               e.recv == S("_sensors")]
        dele = [e for e in p.events if e.kind == "delitem" and e.base == S("_sensors")]
        ctx.ob("removal", "the sensor leaves the server", len(pop) + len(dele) == 1, w,
               "the sensor is not taken out of the server")
        its = [e for e in p.events if e.kind in ("iter", "enditer") and _tab(e.val)]
        ctx.ob("removal", "every client is looked at", bool(its) and not [
            e for e in p.events if e.kind == "breakiter"], w,
            "removing a sensor does not go through all clients (path: %s)" % path_str(p))
        its = [e for e in its if e.kind == "iter"]
        for it in its:
            end = next((e.idx for e in p.events if e.idx > it.idx and e.kind in (
                "iter", "enditer")), len(p.events))
            body = p.events[it.idx:end]
            ps = [e for e in body if e.kind == "call" and e.name == "pop" and _tab(e.recv)]
            if not ps:
                got = [e for e in body if e.kind == "delitem" and _tab(e.base)]
                cond = [e for e in body if e.kind == "cond"]
                ctx.ob("removal", "the strategy leaves the table", bool(got) or
                       (None if cond else False), w, "a strategy for a removed sensor stays "
                       "in the table (path: %s)" % path_str(p))
                continue
            old = ps[0].res
            got = truthy(p, old)
            if got is None and isnone(p, old) is not None:
                got = not isnone(p, old)
            c = [e for e in body if e.kind == "call" and e.name == "cancel" and
                 e.recv == old]
            seen.add(got)
            ctx.ob("removal", "its strategies are cancelled", len(c) == (
                0 if got is False else 1), w, "a strategy for a removed sensor is cancelled "
                "%d times (path: %s)" % (len(c), path_str(p)))
            key = ps[0].args[0]
            rs = [pop[0].res] if pop else []
            ctx.ob("removal", "the right strategies", key in rs or
                   (None if not pop else key[0] == "item" and key[1] == S("_sensors") or
                    None), w, "strategies are looked up by %s" % show(key))
    ctx.ob("removal", "cases", seen >= {True, False} or None, w, str(seen))
    for fq, x in attr_stores(ctx, "_strategies"):
        if fq.startswith("server."):
            ctx.ob("removal", "the table itself is never replaced", fq.endswith(".__init__")
                   or (None if fq not in engine.BASELINE else False), ctx.where(fq),
                   "%s replaces the table of strategies" % fq)


def attaching(ctx):
    for nm in ("attach", "detach"):
        q = BASE + "." + nm
        for p in returns(ctx.paths(q, no_fork_raise=True, opaque={"core.*"})):
            cs = [e for e in events(p, "call") if e.name == nm and e.recv == S("_sensor")]
            ctx.ob("attaching", "%s registers itself" % nm, len(cs) == 1 and
                   tuple(cs[0].allargs()) == (SELF,), ctx.where(q),
                   "%s gives the sensor %s" % (nm, [show(x) for e in cs
                                                    for x in e.allargs()]))
    for cq in classes(ctx):
        if _observes(ctx, cq):
            m = _methods(ctx, cq)
            for nm in ("attach", "detach", "cancel", "start"):
                ctx.ob("attaching", "%s %s known" % (cq, nm),
                       m[nm].qual in engine.BASELINE or None, m[nm].where, "")


def histories(ctx):
    """Cancelling at every point of histories of updates and waits."""
    strategies.follow(ctx, "histories", lambda what: "cancelling" in what,
                      3 if ctx.deep else 2, befores=((), [("wait", 1)], [("wait", 3), ("fail", True)]),
                      want=lambda seq: any(o == "cancel" for o, a in seq))
    strategies.follow(ctx, "histories", lambda what: "cancelling" in what, 1,
                      befores=((), [("wait", 1)], [("wait", 6)]))


def requests(ctx):
    """Requests, updates, removed sensors and leaving clients at a server."""
    auto = [("ask", "A", (b"s1", b"auto"))]
    runs = [(4, False, 1, auto), (5, False, 1, auto), (5, True, 2, ())]
    if ctx.deep:
        runs += [(4, False, 2, ()), (5, False, 2, ()), (5, True, 2, auto), (5, True, 3, ())]
    strategies.requests(ctx, "requests", lambda what: "reply" not in what, runs)


PARTS = [cancel, after, handlers, clearing, removal, attaching, histories, requests]
