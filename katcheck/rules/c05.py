"""The read loop of a connection is walked for one and two (thorough: three) rounds over every
outcome of the read, the parse and the handling (each may raise).  Rules: only a line read
successfully in this round is parsed and only the message parsed from it is handled, once; a
failed read ends the loop and closes the stream unless it was closed already; a malformed line
is logged and reported to its sender by one log inform and the loop goes on; an exception in
message handling is contained and logged and the loop goes on; handling is waited for before
the next line is read; a blank line is ignored; the loop ends only with the connection.  Line
framing is decided from the read pattern and by folding the terminator stripping over sample
lines.  The handler thread's queue is first in, first out; handlers of informs and replies
cannot raise into the loop; input is bounded by the stream's buffer limit."""
from .. import readloop
from ..engine import NONE, const, is_const, show
from ..lib import (A, P, S, SELF, arg, call_name, events, has, is_log, path_str, returns,
                   tested, uses)
from ..program import AnalysisError

MIN_OBLIGATIONS = 25
SRV = "server.KATCPServer."
OPQ = {SRV + "send_message", SRV + "get_address", SRV + "_disconnect_client",
       "core.MessageParser.*", "server.DeviceServerBase.*", "server.DeviceServer.*"}


def loop(ctx):
    readloop.check(ctx, SRV + "_line_read_loop", ("on_message", "handle_message"), OPQ, True)


def stateless_parser(ctx):
    n = 0
    import ast
    for q, fi in sorted(ctx.p.functions.items()):
        if not q.startswith("core.MessageParser.") or q.endswith(".__init__"):
            continue
        n += 1
        st = [x for x in ast.walk(fi.node) if isinstance(x, ast.Attribute) and isinstance(
            x.ctx, (ast.Store, ast.Del))]
        ctx.ob("fresh", "%s keeps nothing" % q.split(".")[-1], not st, fi.where,
               "the parser keeps state between lines (%s)" % ", ".join(
                   ast.unparse(x) for x in st))
    ctx.ob("fresh", "parser found", n >= 1 or None, "", "")


def handlers(ctx):
    """handle_inform / handle_reply contain whatever a handler raises."""
    for m in ("handle_inform", "handle_reply"):
        q = "server.DeviceServerBase." + m
        w = ctx.where(q)
        hit = 0
        for p in ctx.paths(q, noraise=lambda e: is_log(e) or e.name in readloop.NOISE or
                           e.name in ("keys", "get")):
            for x in events(p, "exc"):
                f = getattr(x.extra, "f", None)
                if f is None:
                    continue
                if has(f, lambda t: t[0] == "attr" and t[2].endswith("_handlers")):
                    hit += 1
                    ctx.ob("contain", "%s errors" % m, p.kind == "return", w,
                           "an exception from a handler escapes %s" % m)
                    ctx.ob("contain", "%s errors logged" % m,
                           any(is_log(z) for z in p.events[x.idx:]), w, "")
            if p.kind == "raise" and not events(p, "exc"):
                ctx.ob("contain", "%s errors" % m, None, w, "")
            calls = [e for e in events(p, "call") if e.f is not None and has(
                e.f, lambda t: t[0] == "attr" and t[2].endswith("_handlers")) and
                e.name not in ("get", "keys", "items")]
            ctx.ob("contain", "%s handles once" % m, len(calls) <= 1, w,
                   "one message runs %d handlers" % len(calls))
        # without a try around the call the engine forks nothing
        for p in ctx.paths(q, raise_all=True, noraise=lambda e: is_log(e) or
                           e.name in readloop.NOISE or e.name in ("keys", "get")):
            x = next((z for z in p.events if z.kind == "exc"), None)
            f = getattr(x.extra, "f", None) if x is not None else None
            if f is not None and has(f, lambda t: t[0] == "attr" and
                                     t[2].endswith("_handlers")):
                ctx.ob("contain", "%s errors" % m, p.kind == "return", w,
                       "an exception from a handler escapes %s" % m)


def queue_order(ctx):
    """Handler thread: appended at one end, taken from the other."""
    put, got = set(), set()
    q1, q2 = "server.MessageHandlerThread.on_message", "server.MessageHandlerThread.run"
    for p in ctx.paths(q1):
        for e in events(p, "call"):
            if e.recv == S("_msg_queue"):
                put.add((e.name, e.where))
    for p in ctx.paths(q2, while_max=1):
        for e in events(p, "call"):
            if e.recv == S("_msg_queue") and e.name in ("pop", "popleft", "get",
                                                        "get_nowait"):
                got.add((e.name, tuple(e.args), e.where))
    for n, wh in put:
        for g, a, wg in got:
            if n == "append":
                ok = g == "popleft" or g == "pop" and a == (const(0),)
            elif n == "appendleft":
                ok = g == "pop" and not a
            elif n in ("put", "put_nowait"):
                ok = None
            else:
                continue
            ctx.ob("order", "queue is first in, first out", ok, wg,
                   "requests are queued with %s() and taken with %s(%s)" % (
                       n, g, ", ".join(show(x) for x in a)))
    ctx.ob("order", "queue", bool(put) and bool(got) or None, "", "")


def bounded(ctx):
    q = SRV + "start"
    w = ctx.where(q)
    n = 0
    for p in returns(ctx.paths(q, opaque={"ioloop_manager.*", SRV + "_bind_socket"},
                               no_fork_raise=True)):
        for e in events(p, "call"):
            if e.name == "TCPServer":
                n += 1
                v = arg(e, 3, "max_buffer_size")
                ok = v is not None and v != NONE
                if v is not None and is_const(v):
                    ok = isinstance(v[2], int) and v[2] > 0
                ctx.ob("bounded", "input buffer limit", ok, e.where,
                       "clients are accepted without a limit on the length of a line")
    ctx.ob("bounded", "server socket", n > 0 or None, w, "")
    try:
        v = ctx.cconst("server.KATCPServer", "MAX_MSG_SIZE")
        ctx.ob("bounded", "limit is a positive number", isinstance(v, int) and v > 0, w,
               "MAX_MSG_SIZE is %r" % (v,))
    except AnalysisError:
        pass


PARTS = [loop, stateless_parser, handlers, queue_order, bounded]
