"""The functions that signal the client's state are walked over every path, with every call
that can fail allowed to raise.  Connecting: connected is set only after the stream's close
callback is registered, disconnected is cleared with it, listeners are told once and after;
nothing is signalled when the attempt failed, and a stream left over from one is closed.  Loss:
the stream reference is dropped, connected cleared, disconnected set, listeners told once, on
every path.  Installing: running is cleared, a stream that may be left is closed and stopped is
set on every exit, exceptions included.  Stopping: hands the loop manager a callback that
clears running and closes the stream.  Every other place that sets or clears one of these
events is reported."""
import ast

from ..engine import NONE, const, is_const, show
from ..lib import (A, P, S, SELF, arg, call_name, callee, events, has, is_log, path_str,
                   raised, reaches, returns, tested, uses)

MIN_OBLIGATIONS = 22
CL = "client.DeviceClient."
NOISE = ("format", "add_callback", "time", "getsockname", "address_to_string", "partial",
         "get_ident", "get_thread_ident", "set", "clear", "isSet", "is_set", "running",
         "until_set", "exc_info", "set_nodelay", "TCPClient", "str", "getattr")

LATER = ("_connected", "_disconnected", "_stopped", "_received_protocol_info", "_waiting_to_retry")


def _ev(p, name, meth):
    return [e for e in events(p, "call") if e.name == meth and e.recv == S(name)]


def connecting(ctx):
    q = CL + "_connect"
    w = ctx.where(q)
    seen = set()
    for p in ctx.paths(q, raise_all=True, opaque={CL + "_disconnect", CL + "notify_connected",
                                                  CL + "bind_address_string"},
                       noraise=lambda e: is_log(e) or (e.name in NOISE and
                                                       e.name != "set_nodelay")):
        con = [e for e in events(p, "call") if e.name == "connect" and e.recv is not None]
        sets, clr = _ev(p, "_connected", "set"), _ev(p, "_disconnected", "clear")
        ntf = [e for e in events(p, "call") if e.name == "notify_connected"]
        true_ = [e for e in ntf if e.args and e.args[0] == const(True)]
        ctx.ob("connect", "connected announced as such", len(true_) == len(ntf), w,
               "_connect tells its listeners %s" % [show(e.args[0]) for e in ntf if e.args])
        failed = any(x.extra in con or getattr(x.extra, "kind", None) == "yield" and any(
            uses(x.extra.val, c.res) for c in con) for x in events(p, "exc"))
        ys = [e for e in events(p, "yield") if any(uses(e.val, c.res) for c in con)]
        if failed or con and not ys:
            seen.add("failed")
            ctx.ob("connect", "nothing signalled on failure",
                   not sets and not ntf and not clr, w,
                   "a failed connection attempt is announced as connected (path: %s)"
                   % path_str(p))
            continue
        if not con:
            continue
        cbs = [e for e in events(p, "call") if e.name == "set_close_callback"]
        early = [x for x in events(p, "exc") if not sets or x.idx < sets[0].idx]
        if early:
            seen.add("setup failed")
            ctx.ob("connect", "nothing signalled when set-up fails",
                   not sets and not ntf and not clr, w,
                   "a connection whose set-up failed is announced (path: %s)" % path_str(p))
            cl = [e for e in events(p, "call") if e.idx > early[0].idx and e.name in (
                "close", "_disconnect", "disconnect")]
            gone = tested(p, lambda a: a == ("truth", S("_stream")), False)
            ctx.ob("connect", "left-over stream closed", bool(cl) or gone, w,
                   "a connection whose set-up failed is left open (path: %s)" % path_str(p))
            continue
        if p.kind == "raise" and not sets or tested(p, lambda a: a[0] == "truth" and any(
                a[1] == y.res for y in ys), False):
            continue
        seen.add("ok")
        ctx.ob("connect", "connected is signalled", len(sets) == 1, w,
               "connected is signalled %d times for a new connection (path: %s)"
               % (len(sets), path_str(p)))
        ctx.ob("connect", "disconnected is withdrawn", len(clr) == 1, w,
               "disconnected stays signalled while connected (path: %s)" % path_str(p))
        ctx.ob("connect", "listeners told once", len(ntf) == 1, w,
               "listeners are told %d times of one connection" % len(ntf))
        st = [e for e in events(p, "store") if e.attr == "_stream" and e.base == SELF]
        ctx.ob("connect", "stream is kept", len(st) == 1 and any(
            uses(st[0].val, y.res) or st[0].val == y.res for y in ys), w,
            "the new stream is not kept")
        if sets and clr and ntf:
            first = min(sets[0].idx, clr[0].idx)
            rs = [reaches(ctx, p, a, "_stream_closed_callback") for c in cbs
                  if c.idx < first for a in c.args]
            good = True in rs
            other = None in rs
            ctx.ob("connect", "loss is watched before connected is signalled",
                   True if good else (None if other else False), w,
                   "connected is signalled before the close callback is registered")
            ctx.ob("connect", "signalled before listeners are told",
                   max(sets[0].idx, clr[0].idx) < ntf[0].idx and not any(
                       e.kind == "yield" for e in p.events[first:ntf[0].idx]), w,
                   "listeners are told before is_connected() is true")
        x = next((z for z in events(p, "exc") if z.extra in ntf), None)
        if x is not None and not any(z.kind == "exc" for z in p.events[x.idx + 1:]):
            seen.add("listener failed")
            ctx.ob("connect", "listener failure disconnects", p.kind == "return" and any(
                e.name in ("_disconnect", "close") and e.idx > x.idx
                for e in events(p, "call")), w,
                "a failing listener leaves the connection up or ends the client")
    for k in ("ok", "failed"):
        ctx.ob("connect", "%s case exists" % k, True if k in seen else None, w, "")


def loss(ctx):
    q = CL + "_stream_closed_callback"
    w = ctx.where(q)
    for p in ctx.paths(q, raise_all=True, opaque={CL + "notify_connected",
                                                  CL + "bind_address_string"},
                       noraise=lambda e: is_log(e) or e.name in NOISE):
        if any(e.kind == "cond" and e.extra[0] == "is" and not e.val and
               S("_stream") in e.extra[1:] for e in p.events):
            continue            # a stream that is not the current one
        if any(e.kind == "raise" for e in p.events):
            continue
        nxt = _ev(p, "_connected", "clear"), _ev(p, "_disconnected", "set")
        ntf = [e for e in events(p, "call") if e.name == "notify_connected"]
        st = [e for e in events(p, "store") if e.attr == "_stream" and e.base == SELF]
        for nm, l in (("connected is withdrawn", nxt[0]), ("disconnected is signalled",
                                                           nxt[1])):
            ctx.ob("loss", nm, len(l) == 1, w, "a lost connection: not \"%s\" (path: %s)"
                   % (nm, path_str(p)))
        ctx.ob("loss", "stream forgotten", len(st) == 1 and st[0].val == NONE, w,
               "the lost stream is kept (path: %s)" % path_str(p))
        ctx.ob("loss", "listeners told once", len(ntf) == 1 and ntf[0].args and
               ntf[0].args[0] == const(False), w,
               "listeners are told %s of a lost connection (path: %s)" % (
                   [show(e.args[0]) for e in ntf if e.args], path_str(p)))
        if ntf and nxt[0] and nxt[1]:
            ctx.ob("loss", "signalled before listeners are told",
                   max(nxt[0][0].idx, nxt[1][0].idx) < ntf[0].idx, w,
                   "listeners are told of the loss before the state says so")
        ctx.ob("loss", "errors contained", p.kind == "return", w,
               "an error escapes the close callback")
    q = "client.AsyncClient._stream_closed_callback"
    if ctx.p.has_func(q):
        w = ctx.where(q)
        n = 0
        for p in ctx.paths(q, raise_all=True, opaque={CL + "_stream_closed_callback",
                                                      "client.AsyncClient._fail_waiting_requests"},
                           noraise=lambda e: is_log(e) or e.name in NOISE):
            sup = [e for e in events(p, "call") if (e.target or "").endswith(
                "DeviceClient._stream_closed_callback")]
            first = next((e for e in p.events if e.kind == "exc"), None)
            if first is not None and first.extra not in sup:
                continue
            n += 1
            ctx.ob("loss", "the base signals are given", len(sup) == 1, w,
                   "AsyncClient does not signal the loss of its connection")
        ctx.ob("loss", "override", n > 0 or None, w, "")


def install(ctx):
    q = CL + "_install"
    w = ctx.where(q)
    n = 0
    opq = {CL + "_connect", CL + "_connect_loop", CL + "_disconnect", CL + "stop"}
    for p in ctx.paths(q, raise_all=True, opaque=opq, noraise=lambda e: is_log(e) or (
            e.name in NOISE)):
        n += 1
        exc = [getattr(x.extra, "name", None) for x in events(p, "exc")]
        starts = _ev(p, "_running", "set")
        con = [e for e in events(p, "call") if e.name in ("_connect", "_connect_loop")]
        if starts and con:
            ctx.ob("install", "running is signalled before connecting",
                   starts[0].idx < con[0].idx, w,
                   "the client connects before it is running")
        last = lambda name: ([None] + [e for e in events(p, "call") if e.recv == S(name) and
                                       e.name in ("set", "clear")])[-1]
        r, s = last("_running"), last("_stopped")
        how = "%s after %s" % (p.kind, exc or "normal end")
        ctx.ob("install", "running ends", r is not None and r.name == "clear" or (
            not starts and r is None), w,
            "the client stays running when its loop ends (%s)" % how)
        ctx.ob("install", "stopped is signalled", s is not None and s.name == "set", w,
               "stopped is not signalled when the client's loop ends (%s)" % how)
        cl = [e for e in events(p, "call") if e.name in ("_disconnect", "close") and
              con and e.idx > con[-1].idx]
        if con:
            ctx.ob("install", "stream closed at the end", bool(cl), w,
                   "a connection made while the client was being stopped stays open (%s)"
                   % how)
        if p.kind == "return" and not exc:
            ctx.ob("install", "connects and loops",
                   [e.name for e in con] == ["_connect", "_connect_loop"] if all(
                       e.name in ("_connect", "_connect_loop") for e in con) else None, w,
                   "running does not connect and then loop")
            for e in con:
                ctx.ob("install", "%s is waited for" % e.name, any(
                    uses(y.val, e.res) for y in events(p, "yield")), e.where,
                    "the client stops without waiting for %s" % e.name)
    ctx.ob("install", "paths", n > 0, w, "")
    gives_up = False
    for p in ctx.paths(q, opaque=opq, noraise=lambda e: True):
        nostream = tested(p, lambda a: a in (("is", S("_stream"), NONE),), True) or tested(
            p, lambda a: a == ("truth", S("_stream")), False)
        noauto = tested(p, lambda a: a == ("truth", S("_auto_reconnect")), False)
        if nostream and noauto:
            gives_up = True
    ctx.note("first attempt fails without reconnection: own branch %s" % gives_up)


def stopping(ctx):
    q = CL + "stop"
    w = ctx.where(q)
    found = set()
    for p in ctx.paths(q, no_fork_raise=True, opaque={"ioloop_manager.*"}):
        if p.kind == "raise":
            continue
        ms = [e for e in events(p, "call") if e.name == "stop" and e.recv == S(
            "_ioloop_manager")]
        ctx.ob("stop", "the loop manager is stopped", len(ms) == 1, w,
               "stop() does not stop the I/O loop manager (path: %s)" % path_str(p))
        for e in ms:
            cb = callee(p, arg(e, 1, "callback"))
            ctx.ob("stop", "shutdown work is registered", bool(cb) if arg(
                e, 1, "callback") is None or cb else None, e.where,
                "stop() gives the loop manager no shutdown work")
            if cb:
                found.add(cb[0])
    for cb in sorted(found):
        cw = ctx.where(cb)
        for p in ctx.paths(cb, no_fork_raise=True, opaque={CL + "_disconnect"}):
            if p.kind == "raise":
                continue
            r = _rel(p, "_running", "clear")
            d = [e for e in events(p, "call") if e.name in ("_disconnect", "close")]
            ctx.ob("stop", "running ends", len(r) >= 1, cw,
                   "stopping leaves the client running (path: %s)" % path_str(p))
            ctx.ob("stop", "stream closed", len(d) >= 1, cw,
                   "stopping leaves the connection open (path: %s)" % path_str(p))
            if r and d:
                seg = p.events[min(r[0].idx, d[0].idx):max(r[0].idx, d[0].idx)]
                ctx.ob("stop", "no reconnection in between", not any(
                    e.kind == "yield" for e in seg) or r[0].idx < d[0].idx, cw,
                    "the client may reconnect between closing and stopping")
            for y in events(p, "yield"):
                if has(y.val, lambda t: t[0] == "attr" and t[2] == "_stopped"):
                    if r and d:
                        ctx.ob("stop", "waits only after stopping",
                               max(r[0].idx, d[0].idx) < y.idx, cw,
                               "stop() waits for the loops to end before ending them")
        for p in ctx.paths(cb, raise_all=True, opaque={CL + "_disconnect"}):
            ys = [y for y in events(p, "yield") if has(
                y.val, lambda t: t[0] == "attr" and t[1] == SELF and t[2] in LATER)]
            if p.kind == "raise" and ys and not _rel(p, "_running", "clear") and not any(
                    e.idx > ys[-1].idx for e in events(p, "call") if not is_log(e)):
                ctx.ob("stop", "stops whatever state it was in", False, ys[-1].where,
                       "stopping gives up, with the client running, when what it waits for does "
                       "not happen in time (path: %s)" % path_str(p))
    ctx.ob("stop", "stops whatever state it was in", True, w, "")
    ctx.ob("stop", "shutdown work", bool(found) or None, w, "")
    q = CL + "_connect_loop"
    for p in ctx.paths(q, while_max=1, no_fork_raise=True, opaque={CL + "_connect", CL + "_line_read_loop"}):
        for e in events(p, "call"):
            if e.name != "_connect":
                continue
            ys = [y.idx for y in events(p, "yield") if y.idx < e.idx]
            ask = [c for c in events(p, "call") if c.idx < e.idx and c.name in (
                "isSet", "is_set", "running") and _about(c, "_running")]
            ctx.ob("stop", "no connection is made after stop", True if not ys or ask and max(
                c.idx for c in ask) > ys[-1] else False, e.where, "the client may have been stopped "
                "during the wait before this: %s" % path_str(p))
    q = CL + "_disconnect"
    for p in returns(ctx.paths(q)):
        if tested(p, lambda a: a == ("truth", S("_stream")), False):
            continue
        if tested(p, lambda a: a == ("is", S("_stream"), NONE), True):
            continue
        ctx.ob("stop", "disconnect closes the stream", any(
            e.name == "close" and e.recv == S("_stream") for e in events(p, "call")),
            ctx.where(q), "_disconnect() leaves the stream open (path: %s)" % path_str(p))


def _rel(p, name, meth):
    return [e for e in events(p, "call") if e.name == meth and e.recv is not None and
            e.recv[0] == "attr" and e.recv[2] == name]


def _about(e, name):
    return e.recv == S(name) or e.name == "running" and e.recv == SELF


def sites(ctx):
    """Where the four events are signalled."""
    allowed = {("_connected", "set"): {"_connect"}, ("_connected", "clear"): {
        "_stream_closed_callback"}, ("_disconnected", "clear"): {"_connect"},
        ("_running", "set"): {"_install"}, ("_stopped", "clear"): {"_install"},
        ("_stopped", "set"): {"_install", "_init_state_per_run"}}
    reach = {}
    for q, fi in sorted(ctx.p.functions.items()):
        if not q.startswith(("client.DeviceClient.", "client.AsyncClient.",
                             "client.CallbackClient.", "client.BlockingClient.")):
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                    n.func.value, ast.Attribute):
                k = (n.func.value.attr, n.func.attr)
                if k in allowed:
                    reach.setdefault((k, q), n)
    for (k, q), n in sorted(reach.items(), key=lambda x: str(x[0])):
        m = q.split(".")[2]
        ok = m in allowed[k]
        if not ok and q not in _baseline():
            callers = _callers(ctx, m)
            ok = True if callers and callers <= allowed[k] else None
        ctx.ob("sites", "%s.%s in %s" % (k + (m,)), ok, "%s:%d" % (
            ctx.p.func(q).where.split(":")[0], n.lineno),
            "%s() signals %s.%s()" % ((m,) + k))


def _baseline():
    from .. import engine
    return engine.BASELINE


def _callers(ctx, m):
    out = set()
    for q, fi in ctx.p.functions.items():
        if q.startswith("client."):
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and n.attr == m and isinstance(
                        n.ctx, ast.Load):
                    out.add(q.split(".")[2] if q.count(".") >= 2 else q)
    return out


PARTS = [connecting, loss, install, stopping, sites]
