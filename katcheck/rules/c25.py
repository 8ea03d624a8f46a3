"""Evaluation over all paths of the events, states and combinators: setting stores the new state and
a fresh future before it resolves the old one (exactly that one); clearing touches no future; a wait
gives a resolved future when the condition holds, the stored future itself (or a time-limited view of
it, whose deadline is evaluated) when not; invalid states raise before anything changes; the futures
and flags have no other writers; until_any attaches to every future until one is done, takes the first
result or error, and takes nothing from the callback list of a future that is done (its callbacks may
be running, and the next one would be skipped); until_some is evaluated for every number of futures,
results asked for and finishing order. Besides, an event, an event with a callback, a state and the
combinators are followed as abstract machines with stand-ins for futures and the loop: all histories of
waits (with and without a timeout, and with waiters that clear, set, move or wait again when they are
told), changes and passing time up to a length, against what the documentation says."""
import ast

from .. import waits
from ..engine import BASELINE, NONE, const, is_const, show, subterms
from ..lib import (A, P, S, SELF, attr_stores, call_name, call_recv, events, path_str, uses,
                   within)
from ..program import walk_own
from ..teval import atom, consistent, value

MIN_OBLIGATIONS = 70
AE, AC, AS = "core.AsyncEvent", "core.AsyncCallbackEvent", "core.AsyncState"
ASSUMPTIONS = ["tornado 4.5: Future.set_result runs the callbacks of the future in order over its "
               "live callback list; with_timeout resolves at the deadline with TimeoutError",
               "events and states are used in one thread, as documented",
               "a timeout of 0 is not judged (the library treats it as none)"]


def _new_future(t):
    return t[0] in ("call", "new") and (call_name(t) if t[0] == "call" else
                                        t[1].rsplit(".", 1)[-1]) in (
        "Future", "tornado_Future", "TracebackFuture") and not t[2]


def _resolved(p, t):
    """Is t a new future, already resolved, at the end of p?"""
    if not _new_future(t):
        return t[0] == "call" and call_name(t) in ("maybe_future",) or None
    return any(e.name == "set_result" and e.recv == t for e in events(p, "call"))


def _resolver(ctx, q, slot, flag, flagval, extra=()):
    """set()-like: the flag and a fresh future first, then the old future, once."""
    fi = ctx.p.func(q)
    n = 0
    inst = q.split(".", 1)[1]
    for p in ctx.paths(q, no_fork_raise=True):
        if p.kind != "return":
            continue
        n += 1
        res = [e for e in events(p, "call") if e.name in ("set_result", "set_exception",
                                                          "set_exc_info")]
        fl = [e for e in events(p, "store") if e.base == SELF and e.attr == flag]
        fresh = [e for e in p.events if _writes(e, slot)]
        mine = [e for e in res if e.recv == slot]
        ctx.ob("set", inst + " resolves the waiters", True if len(mine) == 1 and
               mine[0].name == "set_result" else None if res and not mine and any(
                   e.recv[0] not in ("attr", "item") and not _new_future(e.recv)
                   for e in res) or _open(p) else False, fi.where, "the future "
               "handed to the waiters (%s) must be resolved, once: %s" % (show(slot), path_str(p)))
        oth = [e for e in res if e.recv != slot]
        ctx.ob("set", inst + " resolves nobody else", True if not oth else None if any(
            e.recv[0] not in ("attr", "item", "elem") and not (
                e.recv[0] == "call" and call_name(e.recv) == "get") for e in oth)
            else False, fi.where, "waiters for something else are resolved too: %s" % [
                show(e.recv) for e in oth])
        if not mine:
            continue
        m = mine[0]
        ctx.ob("set", inst + " stores the new state first", bool(fl) and all(
            e.idx < m.idx for e in fl) and fl[-1].val == flagval, fi.where,
            "the waiters run while %s is not yet %s: %s" % (flag, show(flagval), path_str(p)))
        fz = [e for e in fresh if _new_future(e.val)]
        ctx.ob("set", inst + " gives later waiters a fresh future", True if fz and fz[-1].idx <
               m.idx else None if fresh and not fz else False, fi.where,
               "a waiter that waits again while it is woken gets the future that is just being "
               "resolved: %s" % path_str(p))
    ctx.ob("set", inst + " analysed", n >= 1 or None, fi.where, "")


def _open(p):
    return any(e.kind == "call" and e.target is None and e.name not in (
        "set_result", "Future") and e.extra != "pure" for e in p.events)


def _writes(e, slot):
    if slot[0] == "attr":
        return e.kind == "store" and e.base == slot[1] and e.attr == slot[2]
    return e.kind == "setitem" and e.base == slot[1] and e.extra == slot[2]


def event(ctx):
    _resolver(ctx, AE + ".set", S("_waiting_future"), "_flag", const(True))
    # clear
    q = AE + ".clear"
    w = ctx.where(q)
    for p in ctx.paths(q):
        fl = [e for e in events(p, "store") if e.base == SELF and e.attr == "_flag"]
        ctx.ob("clear", "flag", bool(fl) and fl[-1].val == const(False), w, path_str(p))
        bad = [e for e in p.events if _writes(e, S("_waiting_future")) or e.kind == "call" and
               e.recv == S("_waiting_future")]
        ctx.ob("clear", "waiters kept", not bad, w, "clearing must leave those waiting now "
               "waiting for the next set(): %s" % path_str(p))
    _wait(ctx, AE + ".until_set", S("_waiting_future"),
          [({S("_flag"): True}, True), ({S("_flag"): False}, False)])
    q = AE + ".isSet"
    for p in ctx.paths(q):
        ok = p.val == S("_flag")
        ctx.ob("event", "isSet", True if ok else None if not is_const(p.val) else False,
               ctx.where(q), show(p.val))
    al = ctx.p.cls(AE).attrs.get("is_set")
    if al is not None:
        ctx.ob("event", "is_set is isSet", isinstance(al, ast.Name) and al.id == "isSet" or None,
               ctx.where(q), "")
    q = AE + ".__init__"
    for p in ctx.paths(q):
        st = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
        ctx.ob("event", "starts cleared", st.get("_flag") == const(False), ctx.where(q),
               path_str(p))
        f = st.get("_waiting_future")
        ctx.ob("event", "starts with a pending future", f is not None and _new_future(f) and
               not _resolved(p, f), ctx.where(q), path_str(p))


def _deadline(ctx, p, t, fut, timeout, now):
    """t limits the wait for fut to `timeout` from now?"""
    if t[0] != "call" or call_name(t) != "with_timeout" or len(t[2]) < 2:
        return None
    if t[2][1] != fut:
        return False
    env = {P("timeout"): timeout}
    for e in events(p, "call"):
        if e.name == "time":
            env[e.res] = now
    known, v = value(ctx, t[2][0], env)
    return None if not known else v == now + timeout


def _wait(ctx, q, slot, cases, pre=None):
    fi = ctx.p.func(q)
    inst = q.split(".", 1)[1]
    for env0, holds in cases:
        for tmo in (None, 5.0):
            env = dict(env0)
            env[P("timeout")] = tmo
            n = 0
            for p in ctx.paths(q, no_fork_raise=True):
                ok, open_ = consistent(ctx, p, env)
                if not ok or p.kind == "cut":
                    continue
                n += 1
                i = "%s %s, timeout %s" % (inst, "holding" if holds else "not holding", tmo)
                if p.kind == "raise":
                    ctx.ob("wait", i, None if open_ else False, fi.where, path_str(p))
                    continue
                if holds:
                    r = _resolved(p, p.val)
                    if p.val == slot or p.val[0] == "call" and call_name(
                            p.val) == "with_timeout" and uses(p.val, slot):
                        r = False
                    ctx.ob("wait", i, r if r else None if open_ else r, fi.where,
                           "a wait for what already holds must be over at once: %s" % show(
                               p.val))
                elif p.val == slot:
                    ctx.ob("wait", i, True if tmo is None else None if open_ else False,
                           fi.where, "a wait with a timeout is not limited")
                else:
                    r = _deadline(ctx, p, p.val, slot, tmo, 100.0) if tmo else None
                    if r is None and _new_future(p.val):
                        ch = any(e.name in ("chain_future",) and slot in e.allargs() and
                                 p.val in e.allargs() for e in events(p, "call"))
                        r = None if ch else False
                    ctx.ob("wait", i, r if r or not open_ else None, fi.where,
                           "the wait gives %s" % show(p.val))
                bad = [e for e in p.events if e.kind in ("store", "setitem") and
                       e.base in (SELF, slot, slot[1])]
                ctx.ob("wait", i + " changes nothing", not bad, fi.where, path_str(p))
            ctx.ob("wait", "%s %s analysed" % (inst, tmo), n >= 1 or None, fi.where, "")


def writers(ctx):
    for attr, ok in (("_flag", (AE + ".__init__", AE + ".set", AE + ".clear")),
                     ("_waiting_future", (AE + ".__init__", AE + ".set")),
                     ("_waiting_futures", (AS + ".__init__", AS + ".set_state")),
                     ("_valid_states", (AS + ".__init__",))):
        for fq, node in attr_stores(ctx, attr):
            fq = getattr(fq, "qual", fq)
            if not fq.startswith("core."):
                continue
            ctx.ob("writers", "%s in %s" % (attr, fq), within(ctx, fq, ok), "katcp/core.py:%d" % getattr(node, "lineno", 0),
                   "%s is changed outside of set/clear" % attr)
    for fq, fi in sorted(ctx.p.functions.items()):
        if fi.module.name in ("testutils",):
            continue
        for n in walk_own(fi.node):
            if isinstance(n, ast.Attribute) and n.attr in ("_waiting_future",
                                                           "_waiting_futures") and not \
                    fq.startswith("core.Async"):
                ctx.ob("writers", "%s used in %s" % (n.attr, fq), None, fi.where, "")


def wait_with_loop(ctx):
    q = AE + ".wait_with_ioloop"
    fi = ctx.p.func(q)
    loop, tmo = P(fi.params[1]), P(fi.params[2])
    n = 0
    for p in ctx.paths(q, opaque={AE + ".until_set"}, deferred={"add_callback": 0},
                       noraise=lambda e: e.name not in ("result",),
                       exc_of=lambda e: "concurrent.futures.TimeoutError" if e.name == "result" else None):
        w = [e for e in events(p, "call") if e.name == "until_set"]
        de = [e for e in p.events if e.kind == "defer"]
        en = [e for e in p.events if e.kind == "enddefer"]
        inside = [e for e in w if any(d.idx < e.idx for d in de) and any(
            e.idx < x.idx for x in en)]
        if w and len(inside) != len(w):
            ctx.ob("thread", "waits in the loop's thread", False, fi.where,
                   "until_set() is called in the calling thread: %s" % path_str(p))
        if not w or not inside:
            ctx.ob("thread", "waits for the event", None, fi.where, path_str(p))
            continue
        sch = [e for e in events(p, "call") if e.name == "add_callback"]
        ctx.ob("thread", "scheduled on the loop given", bool(sch) and all(
            e.recv == loop for e in sch), fi.where, path_str(p))
        ch = [e for e in events(p, "call") if e.name == "chain_future" and
              e.allargs()[0] == inside[0].res]
        rs = [e for e in events(p, "call") if e.name == "result"]
        ctx.ob("thread", "the result is the event's", True if ch and rs and
               rs[0].recv == ch[0].allargs()[1] else None, fi.where, path_str(p))
        if rs:
            ctx.ob("thread", "bounded by the timeout", tmo in rs[0].allargs(), fi.where,
                   "the wait must use the timeout: %s" % path_str(p))
        late = any(e.kind == "handler" for e in p.events)
        if p.kind == "return":
            n += 1
            ctx.ob("thread", "returns %s" % ("the flag after a timeout" if late else "True"),
                   (p.val == S("_flag") or p.val == const(False) or None if p.val != const(
                       True) else False) if late else (True if p.val == const(True) or
                                                       p.val == S("_flag") else False
                                                       if is_const(p.val) else None),
                   fi.where, "%s (path: %s)" % (show(p.val), path_str(p)))
        elif p.kind == "raise":
            ctx.ob("thread", "a timeout is not raised", False, fi.where, path_str(p))
    ctx.ob("thread", "analysed", n >= 2 or None, fi.where, "")


def callback_event(ctx):
    for m, v in (("set", True), ("clear", False)):
        q = AC + "." + m
        fi = ctx.p.func(q)
        n = 0
        for p in ctx.paths(q, opaque={AE + ".set", AE + ".clear"}, raise_all=True,
                           noraise=lambda e: e.name not in ("_callback",)):
            sup = [e for e in events(p, "call") if (e.target or "") == AE + "." + m]
            cb = [e for e in events(p, "call") if e.f == S("_callback") or
                  e.name == "_callback"]
            n += 1
            ctx.ob("callback", "%s changes the event" % m, True if len(sup) == 1 else False if
                   not sup and not any(e.kind == "store" and e.attr == "_flag"
                                       for e in p.events) else None, fi.where, path_str(p))
            ctx.ob("callback", "%s tells the callback %s" % (m, v), len(cb) == 1 and
                   len(cb[0].allargs()) == 1 and cb[0].allargs()[0] == const(v) or (
                       None if cb and not all(is_const(x) for x in cb[0].allargs())
                       else False), fi.where, path_str(p))
            if sup and cb:
                ctx.ob("callback", "%s before telling" % m, sup[0].idx < cb[0].idx, fi.where,
                       "the callback is told before the event changes: %s" % path_str(p))
            ctx.ob("callback", "%s survives the callback" % m, p.kind != "raise", fi.where,
                   "an error of the callback leaves %s(): %s" % (m, path_str(p)))
        ctx.ob("callback", m + " analysed", n >= 1 or None, fi.where, "")
    q = AC + ".__init__"
    fi = ctx.p.func(q)
    for p in ctx.paths(q, opaque={AE + ".__init__"}):
        if p.kind != "return":
            continue
        st = [e for e in events(p, "store") if e.attr == "_callback"]
        ctx.ob("callback", "kept", bool(st) and st[-1].val == P(fi.params[1]), fi.where,
               path_str(p))
        ctx.ob("callback", "event made", True if any(e.name == "__init__" for e in events(
            p, "call")) else None, fi.where, path_str(p))


def state(ctx):
    st = P("state")
    slot = ("item", S("_waiting_futures"), st)
    valid = {S("_valid_states"): {"x", "y"}}
    q = AS + ".set_state"
    fi = ctx.p.func(q)
    # only the path of a valid state changes anything
    for q2 in (AS + ".set_state", AS + ".until_state"):
        f2 = ctx.p.func(q2)
        n = 0
        for cur in ("x", "y"):
            for p in ctx.paths(q2, no_fork_raise=True):
                env = dict(valid)
                env.update({st: "bad", S("_state"): cur, P("timeout"): None})
                ok, open_ = consistent(ctx, p, env)
                if not ok or p.kind == "cut":
                    continue
                n += 1
                i = q2.split(".")[-1] + " refuses an invalid state"
                ctx.ob("state", i, True if p.kind == "raise" and p.val[1] == "ValueError" else
                       None if open_ else False, f2.where, "an invalid state: %s" % path_str(p))
                ch = [e for e in p.events if e.kind in ("store", "setitem") and
                      e.base in (SELF, S("_waiting_futures"))]
                ctx.ob("state", i + " before changing", not ch, f2.where, path_str(p))
        ctx.ob("state", q2 + " analysed", n >= 1 or None, f2.where, "")
    _resolver(ctx, q, slot, "_state", st)
    _wait(ctx, AS + ".until_state", slot,
          [(dict(valid, **{}) | {st: "x", S("_state"): "x"}, True),
           (dict(valid) | {st: "y", S("_state"): "x"}, False),
           (dict(valid) | {st: "x", S("_state"): "y"}, False)])
    # construction
    q = AS + ".__init__"
    fi = ctx.p.func(q)
    vs, ini = P(fi.params[1]), P(fi.params[2])
    for init, want in ((None, "a"), ("b", "b"), ("bad", None)):
        env = {vs: ("a", "b", "c"), ini: init, ("elem", vs, 0): "a"}
        n = 0
        for p in ctx.paths(q, no_fork_raise=True):
            ok, open_ = consistent(ctx, p, env)
            if not ok or p.kind == "cut":
                continue
            n += 1
            s = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
            if want is None:
                ctx.ob("state", "initial state must be valid", True if p.kind == "raise" else
                       None if open_ and p.kind != "return" else False, fi.where, path_str(p))
                continue
            if p.kind == "raise":
                ctx.ob("state", "made with initial state %s" % init, None if open_ else False,
                       fi.where, path_str(p))
                continue
            known, got = value(ctx, s.get("_state", NONE), env)
            ctx.ob("state", "initial state %s" % init, got == want if known else None, fi.where,
                   "%r" % (got,))
            known, got = value(ctx, s.get("_valid_states", NONE), env)
            ctx.ob("state", "valid states kept", set(got or ()) == {"a", "b", "c"} if known
                   else None, fi.where, "%r" % (got,))
            f = s.get("_waiting_futures", NONE)
            ok = None
            if f[0] == "comp" and f[1] == "dict" and not [x for x in f[4] if x != const(
                    True)]:
                k, v = f[2][1] if f[2][0] == "tuple" else (NONE, NONE)
                ok = k[0] == "elem" and _new_future(v) and uses(f[3][0], vs)
            elif f[0] == "call" and call_name(f) == "fromkeys":
                ok = False          # one future for all states
            ctx.ob("state", "a future for each state", ok, fi.where,
                   "each state needs its own future: %s" % show(f))
        ctx.ob("state", "construction analysed", n >= 1 or None, fi.where, "")
    # any of several states
    q = AS + ".until_state_in"
    fi = ctx.p.func(q)
    n = 0
    for p in ctx.paths(q, opaque={AS + ".until_state", "core.until_any"}, no_fork_raise=True):
        if p.kind != "return":
            continue
        anyc = [e for e in events(p, "call") if e.name == "until_any"]
        ok, tm, part = None, None, False
        if len(anyc) == 1 and p.val == anyc[0].res:
            a = anyc[0].args
            kw = dict(anyc[0].kwargs)
            if len(a) == 1 and a[0][0] == "star" and a[0][1][0] == "comp":
                c = a[0][1]
                e = c[2]
                if e[0] == "call" and call_name(e) == "until_state":
                    el = e[2][0] if e[2] else dict(e[3]).get("state", NONE)
                    ok = el[0] == "elem" and not c[4] and c[3][0] == P("*" + "states")
                    part = c[3][0][0] == "slice" and c[3][0][1] == P("*states")
                    tm = dict(e[3]).get("timeout") or (e[2][1] if len(e[2]) > 1 else None) or \
                        kw.get("timeout")
                    n += 1
        ctx.ob("state", "waits for each of the states", True if ok else False if part else None, fi.where,
               path_str(p))
        if ok:
            ctx.ob("state", "with the timeout", tm is not None and (
                uses(tm, P("**kwargs")) or uses(tm, P("timeout")) or None), fi.where,
                "the timeout is not used: %s" % path_str(p))
    ctx.ob("state", "until_state_in analysed", n >= 1 or None, fi.where, "")


def combined(ctx):
    q = "core.until_any"
    fi = ctx.p.func(q)
    futs = P("*" + (fi.node.args.vararg.arg if fi.node.args.vararg else "futures"))
    n = 0
    cbname = set()
    for p in ctx.paths(q, loop_max=2, no_fork_raise=True, max_paths=4000):
        if p.kind != "return":
            continue
        att = [e for e in events(p, "call") if e.name == "add_done_callback"]
        its = [e for e in events(p, "iter") if e.extra != "comp"]
        fut = p.val
        tmo = None
        if fut[0] == "call" and call_name(fut) == "with_timeout":
            tmo = fut
            fut = fut[2][1] if len(fut[2]) > 1 else NONE
        ctx.ob("any", "gives a future of its own", True if _new_future(fut) else False if
               fut[0] in ("elem", "const") else None, fi.where, show(p.val))
        # the loop goes on unless the result is there
        for e in att:
            if e.args and e.args[0][0] == "closure":
                cbname.add(p.engine.closures[e.args[0][1]][0].qual)
        els = [e.recv for e in att]
        ctx.ob("any", "attaches to each future", True if len(els) == len(its) and all(
            x[0] == "elem" for x in els) else None if any(
                e.kind == "iter" and e.extra == "comp" for e in p.events) else False,
            fi.where, "a future is passed over: %s" % path_str(p))
        brk = [e for e in p.events if e.kind == "breakiter" and e.extra != "comp"]
        for b in brk:
            i = b.idx
            last = [e for e in events(p, "cond") if e.idx < i]
            done = [e for e in last if e.val and e.extra[0] == "truth" and e.extra[1][0] ==
                    "call" and call_name(e.extra[1]) == "done" and call_recv(
                        e.extra[1]) in [fut] + els]
            ctx.ob("any", "stops attaching only when done", True if done else None if not last
                   else False, fi.where, path_str(p))
        # timeout
        for t, bound in ((None, False), (5.0, True)):
            env = {}
            for e in p.events:
                for x in subterms(e.extra) if e.kind == "cond" and isinstance(
                        e.extra, tuple) else ():
                    if isinstance(x, tuple) and len(x) > 3 and x[0] == "call" and x[2] and \
                            is_const(x[2][0]) and call_name(x) in ("get", "pop"):
                        env[x] = t if x[2][0][2] == "timeout" else None
            for e in events(p, "call"):
                if e.name in ("get", "pop") and e.args and is_const(e.args[0]):
                    env[e.res] = t if e.args[0][2] == "timeout" else None
                if e.name == "time":
                    env[e.res] = 100.0
            ok = all(atom(ctx, e.extra, env) in (None, e.val) for e in events(p, "cond"))
            if not ok:
                continue
            n += 1
            seen = [e for e in events(p, "cond") if atom(ctx, e.extra, env) is not None and any(
                env.get(x, 1) == t and x in env for x in subterms(e.extra)
                if isinstance(x, tuple))]
            if not bound:
                ctx.ob("any", "no timeout", True if tmo is None else None if not seen else
                       False, fi.where, path_str(p))
                continue
            v = False if tmo is None else None
            if tmo is not None:
                known, d = value(ctx, tmo[2][0], env)
                v = d == 105.0 if known else None
            blind = tmo is None and not any(e.kind == "cond" and any(
                env.get(x) == t for x in subterms(e.extra) if isinstance(x, tuple)) or e.kind ==
                "call" and any(env.get(x) == t for y in e.allargs() for x in subterms(y)
                               if isinstance(x, tuple) and x in env) for e in p.events)
            ctx.ob("any", "timeout", v if seen or v or blind else None, fi.where,
                   "waiting for any future with a timeout of 5 s: %s" % show(p.val))
    ctx.ob("any", "analysed", n >= 2 or None, fi.where, "")
    for cb in sorted(cbname) or [None]:
        if cb is None or not ctx.p.has_func(cb):
            ctx.ob("any", "callback", None, fi.where, "")
            continue
        _handle_done(ctx, cb)


def _handle_done(ctx, q):
    fi = ctx.p.func(q)
    done = P(fi.params[-1])
    c = {"result": 0, "error": 0, "late": 0}
    ps = ctx.paths(q, loop_max=1, raise_all=False, max_paths=3000,
                   noraise=lambda e: not (e.name == "result" and e.recv == done or
                                          e.name == "remove"),
                   exc_of=lambda e: "ValueError" if e.name == "remove" else None)
    for p in ps:
        out = [e for e in events(p, "call") if e.name in ("set_result", "set_exc_info",
                                                          "set_exception")]
        isdone = None
        for e in events(p, "cond"):
            if e.extra[0] == "truth" and e.extra[1][0] == "call" and call_name(
                    e.extra[1]) == "done" and call_recv(e.extra[1])[0] in ("outer", "param") \
                    and call_recv(e.extra[1]) != done:
                isdone = e.val
                break
        failed = any(e.kind == "exc" and e.extra is not None or e.kind == "exc"
                     for e in p.events if e.kind == "exc" and "result" in repr(e.val))
        if p.kind == "raise":
            ctx.ob("any", "callback does not fail", None if not p.val or p.val[1] is None else
                   False, fi.where, path_str(p))
            continue
        if isdone is True:
            c["late"] += 1
            ctx.ob("any", "only the first counts", not out, fi.where,
                   "a second future to finish changes the result: %s" % path_str(p))
            continue
        if isdone is None:
            ctx.ob("any", "the result is set once", None if not out else False, fi.where,
                   "nothing asks whether there is a result already: %s" % path_str(p))
            continue
        if failed:
            c["error"] += 1
            ok = [e for e in out if e.name in ("set_exc_info", "set_exception")]
            ctx.ob("any", "the first error", True if len(ok) == 1 and uses(
                ok[0].allargs()[0], done) or ok and ok[0].allargs()[0][0] == "exc" else
                False if not out or any(e.name == "set_result" and is_const(e.allargs()[0])
                                        for e in out if e.allargs()) else None, fi.where,
                path_str(p))
        else:
            c["result"] += 1
            ok = [e for e in out if e.name == "set_result"]
            v = ok[0].allargs()[0] if ok and ok[0].allargs() else NONE
            if not out and any(e.name in ("chain_future",) for e in events(p, "call")):
                ctx.ob("any", "the first result", None, fi.where, path_str(p))
            else:
                ctx.ob("any", "the first result", len(ok) == 1 and v[0] == "call" and call_name(
                    v) == "result" and call_recv(v) == done or (None if out and not ok
                                                                else False),
                       fi.where, "resolves with %s" % show(v))
        # callbacks lists
        for e in events(p, "call"):
            if e.recv is not None and e.recv[0] == "attr" and e.recv[2] == "_callbacks" and \
                    e.name in ("remove", "pop", "clear", "append", "insert", "extend"):
                f = e.recv[1]
                pend = [x for x in events(p, "cond") if x.idx < e.idx and x.extra[0] == "truth"
                        and x.extra[1][0] == "call" and call_name(x.extra[1]) == "done" and
                        call_recv(x.extra[1]) == f and not x.val]
                oth = [x for x in events(p, "cond") if x.idx < e.idx and x.extra[0] in (
                    "is", "eq") and f in x.extra[1:] and done in x.extra[1:] and not x.val]
                ctx.ob("any", "no other waiter is skipped", True if pend else None if oth
                       else False, e.where, "the callbacks of a future that is done may be "
                       "running; taking one out of the list skips the next waiter: %s" %
                       path_str(p))
                ctx.ob("any", "only its own callback is removed", e.name == "remove" and
                       e.args[0][0] == "closure", e.where, show(e.args[0]) if e.args else "")
        for e in p.events:
            if e.kind in ("store",) and e.attr == "_callbacks" or e.kind == "delitem" and \
                    e.base[0] == "attr" and e.base[2] == "_callbacks":
                ctx.ob("any", "callback lists of futures are not replaced", False, fi.where,
                       path_str(p))
    for k, v in c.items():
        ctx.ob("any", "callback: %s analysed" % k, v >= 1 or None, fi.where, "")


def manager(ctx):
    w = ctx.where("core.future_timeout_manager")
    q = ctx.probe("core", "def probe_manager(timeout, ioloop, f, later):\n"
                  "    m = future_timeout_manager(timeout, ioloop)\n    later()\n"
                  "    return m(f)\n")
    q2 = ctx.probe("core", "def probe_remaining(timeout, ioloop, later):\n"
                   "    m = future_timeout_manager(timeout, ioloop)\n"
                   "    later()\n    return m.remaining()\n")

    def clock(p, env):
        """The clock shows 100 when the manager is made and 103 afterwards."""
        mark = [e.idx for e in events(p, "call") if e.f == P("later")]
        for e in events(p, "call"):
            if e.name == "time":
                env[e.res] = 100.0 if mark and e.idx < mark[0] else 103.0
    for tmo in (None, 5.0):
        n = 0
        for p in ctx.paths(q, no_fork_raise=True):
            env = {P("timeout"): tmo, P("ioloop"): True}
            clock(p, env)
            ok, open_ = consistent(ctx, p, env)
            if not ok or p.kind != "return":
                continue
            n += 1
            if tmo is None:
                ctx.ob("manager", "no timeout", True if p.val == P("f") else None if open_ or
                       p.val[0] != "call" else False, w, show(p.val))
                continue
            v = None
            if p.val == P("f"):
                v = False
            elif p.val[0] == "call" and call_name(p.val) == "with_timeout":
                if p.val[2][1] != P("f"):
                    v = False
                else:
                    known, d = value(ctx, p.val[2][0], env)
                    v = d == 105.0 if known else None
                    ctx.ob("manager", "one deadline for all", v, w, "3 s into a timeout of 5 s "
                           "the next wait may last until %s, not 2 s more" % (d,))
            ctx.ob("manager", "limits each wait", v if not open_ or v else None, w, show(p.val))
        ctx.ob("manager", "timeout %s analysed" % tmo, n >= 1 or None, w, "")
        for p in ctx.paths(q2, no_fork_raise=True):
            env = {P("timeout"): tmo, P("ioloop"): True}
            clock(p, env)
            ok, open_ = consistent(ctx, p, env)
            if ok and p.kind == "return":
                known, v = value(ctx, p.val, env)
                ctx.ob("manager", "remaining of %s" % tmo, v == (None if tmo is None else 2.0)
                       if known else None, w, "%r" % (v,))


def some(ctx):
    q = "core.until_some"
    fi = ctx.p.func(q)
    ps = ctx.paths(q, while_max=4, no_fork_raise=True, max_paths=6000,
                   opaque={"core.future_timeout_manager"}, loop_max=1,
                   loads={"current_index"})
    for total in range(0, 4):
        for asked in (None, 1, 2, 3):
            n = 0
            for p in ps:
                if p.kind != "return":
                    continue
                env = {}
                k = 0
                for e in events(p, "call"):
                    if e.name in ("pop", "get") and e.args and is_const(e.args[0]):
                        env[e.res] = asked if e.args[0][2] == "done_at_least" else None
                    elif e.name == "len" and e.args and e.args[0][0] == "param":
                        env[e.res] = total if e.args[0][1].startswith("*") and not \
                            e.args[0][1].startswith("**") else 0
                    elif e.name == "done":
                        env[e.res] = k >= total
                    elif e.name == "next":
                        k += 1
                ok, open_ = consistent(ctx, p, env)
                if not ok:
                    continue
                n += 1
                ys = [e for e in events(p, "yield")]
                ap = [e for e in events(p, "call") if e.name == "append"]
                want = min(total, asked if asked is not None else total)
                i = "%d futures, %s asked for" % (total, asked)
                ctx.ob("some", i, k == want if not open_ else None if k != want else True,
                       fi.where, "%d of %d results are waited for when %s are asked for" % (
                           k, total, asked))
                ctx.ob("some", i + ": results returned", True if len(ap) == k else None,
                       fi.where, path_str(p))
                made = [e for e in events(p, "call") if e.name == "future_timeout_manager"]
                ctx.ob("some", "one time limit for all waits", len(made) == 1 and not (
                    ys and made[0].idx > ys[0].idx) if made or not ys else None, fi.where,
                    "each wait gets the whole timeout: %s" % path_str(p))
                lds = [e for e in p.events if e.kind == "load"]
                for y, a in zip(ys, ap):
                    nx = [z.idx for z in ys if z.idx > y.idx] or [1 << 30]
                    rd = [e for e in lds if y.idx < e.idx < min(nx[0], a.idx)]
                    ctx.ob("some", "the index read after the wait", True if rd else False if
                           lds else None, a.where, "current_index is read before the wait, "
                           "when it still is that of an earlier result")
                    v = a.args[0]
                    good = v[0] == "tuple" and len(v[1]) == 2 and v[1][0][0] == "attr" and \
                        v[1][0][2] == "current_index" and v[1][1][0] == "yield"
                    ctx.ob("some", "each result with its index", True if good else None,
                           a.where, show(v))
                    lim = [x for x in subterms(y.val) if isinstance(x, tuple) and x and
                           x[0] == "call" and call_name(x) == "next"]
                    ctx.ob("some", "waits for the next to finish", bool(lim) or None, y.where,
                           show(y.val))
                    mt = [x for x in subterms(y.val) if isinstance(x, tuple) and x and
                          x[0] == "call" and x[1][0] == "call" and call_name(
                              x[1]) == "future_timeout_manager"]
                    ctx.ob("some", "each wait is limited", True if mt else False if lim and
                           y.val == lim[0] else None, y.where, show(y.val))
            ctx.ob("some", "%d of %s analysed" % (total, asked), n >= 1 or None, fi.where, "")
    for p in ps:
        for e in events(p, "call"):
            if e.name == "future_timeout_manager":
                a = e.allargs()
                ctx.ob("some", "the timeout is used", True if a and "timeout" in repr(a[0]) else
                       False if not a else None, e.where, "%s" % [show(x) for x in a])


PARTS = [event, writers, wait_with_loop, callback_event, state, combined, manager, some] + waits.PARTS
