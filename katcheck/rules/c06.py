"""The client's read loop is walked for one and two (thorough: three) rounds over every outcome
of the read, the parse and the handling: only a line read successfully in this round is parsed
and only the message parsed from it is handled; malformed lines and handler errors are logged
and the loop goes on; a failed read closes the stream and nothing is handled after it; every
exit of the loop goes through the disconnect.  The connect loop is walked the same way: while
running it reads exactly when connected, containing whatever the read loop raises, and
otherwise, with automatic reconnection, waits and connects again; it ends only when the client
is no longer running or is disconnected without automatic reconnection.  A failed connection
attempt is contained, and message handlers cannot raise into the loop."""
from .. import readloop
from ..engine import NONE, const, is_const, show
from ..lib import (A, P, S, SELF, arg, call_name, events, has, is_log, path_str, returns,
                   tested, uses)

MIN_OBLIGATIONS = 25
CL = "client.DeviceClient."
RUN = lambda a: a[0] == "truth" and has(a[1], lambda t: t == S("_running") or (
    t[0] == "call" and call_name(t) == "running"))
CONN = lambda a: a[0] == "truth" and has(a[1], lambda t: t == S("_connected") or t == S(
    "is_connected") or t == S("_disconnected") or t == S("_stream"))
AUTO = lambda a: a[0] == "truth" and a[1] == S("_auto_reconnect")
NOISE = readloop.NOISE + ("add_callback", "set", "clear", "time", "getsockname", "is_connected",
                          "address_to_string", "isEnabledFor", "get", "keys", "bytes",
                          "type", "isinstance")


def loop(ctx):
    q = CL + "_line_read_loop"
    opq = {CL + "handle_message", CL + "_disconnect", CL + "bind_address_string",
           "core.MessageParser.*", "core.LatencyTimer.*", "client.address_to_string"}
    readloop.check(ctx, q, ("handle_message",), opq, False)
    w = ctx.where(q)
    for p in ctx.paths(q, opaque=opq, while_max=1, noraise=lambda e: is_log(e) or
                       e.name in readloop.NOISE):
        if p.kind != "return":
            continue
        end = max([e.idx for e in events(p, "endwhile")] or [0])
        start = max([e.idx for e in events(p, "while")] or [0])
        ok = any(e.idx > start and e.name in ("_disconnect", "disconnect", "close")
                 for e in events(p, "call"))
        ctx.ob("read-failure", "leads to the disconnect", ok, w,
               "the read loop ends without closing the connection (path: %s)" % path_str(p))


def connect_loop(ctx):
    q = CL + "_connect_loop"
    w = ctx.where(q)
    seen = set()
    for wm in (1, 2, 3) if ctx.deep else (1, 2):
        for p in ctx.paths(q, while_max=wm, raise_all=True, noraise=lambda e: not (
                e.name == "_line_read_loop" or e.kind == "yield" and has(
                    e.val, lambda t: t[0] == "call" and call_name(t) == "_line_read_loop")),
                           opaque={CL + "_line_read_loop", CL + "_connect", CL + "running",
                                   "core.until_later", CL + "is_connected"}):
            starts = [e.idx for e in events(p, "while")] + [len(p.events)]
            for a, b in zip(starts, starts[1:]):
                seg = p.events[a:b]
                _round(ctx, w, p, seg, seen, last=b == len(p.events))
    for k in ("read", "reconnect", "stopped", "no-reconnect"):
        ctx.ob("connect-loop", "%s case exists" % k, True if k in seen else None, w, "")


def _last(seg, pred, upto=None):
    r = None
    for e in seg:
        if upto is not None and e.idx >= upto:
            break
        if e.kind == "cond" and pred(e.extra):
            r = e.val
    return r


def _round(ctx, w, p, seg, seen, last):
    calls = [e for e in seg if e.kind == "call"]
    reads = [e for e in calls if e.name == "_line_read_loop"]
    conns = [e for e in calls if e.name == "_connect"]
    ys = [e for e in seg if e.kind == "yield"]
    run, con, auto = _last(seg, RUN), _last(seg, CONN), _last(seg, AUTO)
    for e in reads:
        seen.add("read")
        x = next((z for z in seg if z.kind == "exc" and (
            z.extra is e or getattr(z.extra, "kind", None) == "yield" and
            uses(z.extra.val, e.res))), None)
        if x is None:
            ctx.ob("connect-loop", "reading is waited for",
                   any(uses(y.val, e.res) for y in ys), e.where,
                   "the connect loop does not wait for the read loop")
        else:
            ctx.ob("connect-loop", "read loop errors contained",
                   any(z.kind == "handler" for z in p.events if z.idx > x.idx) and
                   (not last or p.kind == "cut" or _last(seg, RUN) is False), e.where,
                   "an exception from the read loop ends the connect loop (path: %s)"
                   % path_str(p))
    for e in conns:
        seen.add("reconnect")
        lasty = max([y.idx for y in ys if y.idx < e.idx and not (
            y.val[0] == "ext")] or [-1])
        re = [z for z in seg if z.kind == "cond" and RUN(z.extra) and z.val and
              lasty < z.idx < e.idx]
        ctx.ob("connect-loop", "no reconnection after stop", bool(re), e.where,
               "the client connects again although it may have been stopped while waiting")
        if not any(z.kind == "exc" and z.extra is e for z in seg):
            ctx.ob("connect-loop", "reconnection is waited for",
                   any(uses(y.val, e.res) for y in ys), e.where,
                   "the connect loop does not wait for the connection attempt")
        ctx.ob("connect-loop", "connects only when disconnected", not reads and
               con is False if con is not None else None, e.where, "")
    if not last and not reads and not conns and run is not False:
        ctx.ob("connect-loop", "a round reads or reconnects", False
               if any(True for z in seg if z.kind == "cond" and CONN(z.extra)) and not any(
                   z.kind == "cond" and RUN(z.extra) and not z.val for z in seg) else None,
               w, "a round of the connect loop neither reads nor reconnects (path: %s)"
               % path_str(p))
    if last and p.kind == "return":
        stopped = any(z.kind == "cond" and RUN(z.extra) and not z.val for z in seg)
        given_up = auto is False
        if stopped:
            seen.add("stopped")
        if given_up:
            seen.add("no-reconnect")
            ctx.ob("connect-loop", "gives up only when disconnected", con is False
                   if con is not None else None, w, "")
        ctx.ob("connect-loop", "ends only when stopped or not reconnecting",
               stopped or given_up, w,
               "the connect loop ends while the client runs with automatic reconnection "
               "(path: %s)" % path_str(p))
    if last and p.kind == "cut" and not reads and auto is False:
        ctx.ob("connect-loop", "stops without reconnection", False, w,
               "without automatic reconnection the client does not stop")


def attempt(ctx):
    q = CL + "_connect"
    w = ctx.where(q)
    n = 0
    for p in ctx.paths(q, raise_all=True, noraise=lambda e: is_log(e) or e.name in NOISE or
                       e.name in ("until_set", "_disconnect") or e.kind == "yield" and
                       "until_set" in show(e.val),
                       opaque={CL + "_disconnect", CL + "bind_address_string",
                               CL + "notify_connected"}):
        for x in events(p, "exc"):
            nm = getattr(x.extra, "name", None)
            conn = nm == "connect" or getattr(x.extra, "kind", None) == "yield" and has(
                x.extra.val, lambda t: t[0] == "call" and call_name(t) == "connect")
            if conn or nm == "notify_connected":
                n += 1
                ctx.ob("connect", "failed attempt contained" if conn else
                       "listener errors contained", p.kind == "return", x.where,
                       "an exception from %s escapes _connect() and ends the connect loop"
                       % (nm or "connecting"))
    ctx.ob("connect", "attempt", n > 0 or None, w, "")


def handlers(ctx):
    for m in ("handle_inform", "handle_reply", "handle_request"):
        q = CL + m
        w = ctx.where(q)
        for p in ctx.paths(q, raise_all=True, noraise=lambda e: is_log(e) or
                           e.name in NOISE,
                           opaque={CL + "unhandled_*", CL + "send_message"}):
            x = events(p, "exc")
            if not x:
                continue
            ctx.ob("contain", "%s errors" % m, p.kind == "return", w,
                   "an exception from a handler escapes %s" % m)
            ctx.ob("contain", "%s errors logged" % m,
                   any(is_log(z) for z in p.events[x[-1].idx:]), w,
                   "an error in %s is not logged" % m)


PARTS = [loop, connect_loop, attempt, handlers]
