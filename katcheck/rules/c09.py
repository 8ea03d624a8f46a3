"""The life cycle of a server connection, decided as: accepting registers the close callback and
the connection before the device is told, tells it exactly once, and then either starts the one
read loop or (the device failed) closes the stream; the close callback takes the connection out
of the table and hands it to the disconnect path; the disconnect path tells the device exactly
once per connection (the mark is checked and set without a pause in between, and nothing clears
it), contains its errors and closes the stream on every exit; the device server forgets the
connection and its strategies whatever else fails; sending never raises, writes nothing to a
closed or closing stream and closes the stream when the write is refused; the write buffer of
every accepted stream is bounded.  Nothing else announces connections or edits the table."""
import ast

from ..engine import NONE, TRUE, FALSE, const, is_const, show
from ..lib import (A, P, S, SELF, arg, attr_stores, call_name, callee, decided, events, has,
                   is_log, isnone, path_str, raised, reaches, returns, tested, truthy, uses,
                   within)

MIN_OBLIGATIONS = 40
KS = "server.KATCPServer."
DS = "server.DeviceServer."
CC = "server.ClientConnection."
NOISE = ("exc_info", "format_exception", "join", "create_log_inform", "bytes", "format",
         "partial", "get_ident", "get_thread_ident", "get_address", "closed", "pop", "str",
         "repr", "format_exc", "isEnabledFor", "get")


def quiet(e):
    return is_log(e) or e.name in NOISE


def of_exc(p, calls):
    """First raise event caused by one of these calls, or by waiting for its result."""
    for x in events(p, "exc"):
        if x.extra in calls:
            return x
        k = getattr(x.extra, "kind", None)
        if k == "yield" and any(uses(x.extra.val, c.res) for c in calls):
            return x
        if k == "call" and x.extra.name in ("maybe_future", "with_timeout",
                                            "with_relative_timeout") and any(
                uses(a, c.res) for a in x.extra.args for c in calls):
            return x
    return None


def accept(ctx):
    q = KS + "_handle_stream"
    w = ctx.where(q)
    stream = P(ctx.p.func(q).params[1])
    seen = set()
    for p in ctx.paths(q, raise_all=True, opaque={KS + "_line_read_loop"}, noraise=quiet):
        if any(e.kind == "raise" for e in p.events) or p.kind == "raise" and isinstance(
                p.val, tuple) and p.val[1] == "AssertionError":
            continue
        told = [e for e in events(p, "call") if e.name == "on_client_connect"]
        reg = [e for e in events(p, "setitem") if e.base == S("_connections")]
        watch = [e for e in events(p, "call") if e.name == "set_close_callback"]
        loop = [e for e in events(p, "call") if e.name == "_line_read_loop"]
        close = [e for e in events(p, "call") if e.name == "close" and e.recv == stream]
        ctx.ob("accept", "errors contained", p.kind == "return", w,
               "an error escapes accepting a connection (path: %s)" % path_str(p))
        if not told:
            ctx.ob("accept", "no reading unannounced", not loop, w,
                   "a connection is served without being announced")
            continue
        t = told[0]
        ctx.ob("accept", "announced once", len(told) == 1, w,
               "a new client is announced %d times" % len(told))
        r = [e for e in reg if e.idx < t.idx]
        conn = t.args[0] if t.args else None
        ctx.ob("accept", "registered before it is announced", len(r) == 1 and
               r[0].extra == stream and r[0].val == conn, t.where,
               "a client is announced before (or without) being registered")
        ctx.ob("accept", "one connection object", conn is not None and
               conn[0] in ("call", "new") and uses(conn, stream), t.where,
               "the client is announced as %s" % show(conn))
        made = [e for e in events(p, "call") if e.res == conn]
        ctx.ob("accept", "connection by the configured kind", all(
            e.name == "client_connection_factory" for e in made) if made else None, t.where,
            "the connection is made by %s" % [e.name for e in made])
        ok = [reaches(ctx, p, a, "_stream_closed_callback") for e in watch
              if e.idx < t.idx for a in e.args]
        ctx.ob("accept", "its end is watched before it is announced",
               True if True in ok else (None if None in ok else False), t.where,
               "a client is announced before the end of its stream is watched")
        for e in watch:
            for a in e.args:
                c = callee(p, a)
                if c and c[0] == KS + "_stream_closed_callback":
                    ctx.ob("accept", "its own stream is watched", tuple(c[1]) == (stream,),
                           e.where, "the close callback names %s" % [show(x) for x in c[1]])
        if r and watch:
            a, b = sorted((r[0].idx, watch[0].idx))
            ctx.ob("accept", "no pause before it is watched and registered",
                   not any(e.kind == "yield" for e in p.events[:b]), w, "")
        sz = [e for e in events(p, "store") if e.base == stream and
              e.attr == "max_write_buffer_size" and e.idx < t.idx]
        lim = sz[-1].val if sz else None
        good = lim is not None and (lim in (S("MAX_WRITE_BUFFER_SIZE"), (
            "cattr", KS[:-1], "MAX_WRITE_BUFFER_SIZE")))
        ctx.ob("accept", "output is bounded", good or (None if lim is not None and
               not is_const(lim) else False), w,
               "the write buffer of a client is limited to %s" % (
                   show(lim) if lim is not None else "nothing"))
        fl = [e for e in events(p, "store") if e.base == stream and
              e.attr == "KATCPServer_closing" and e.idx < t.idx]
        ctx.ob("accept", "starts open for sending", bool(fl) and fl[-1].val in (
            FALSE, const(False)), w, "a new stream is not marked open")
        bad = of_exc(p, told)
        others = [x for x in events(p, "exc") if x is not bad and x.idx > t.idx]
        if bad is not None:
            seen.add("refused")
            ctx.ob("accept", "a client the device refused is not served", not loop, w,
                   "a client is served though announcing it failed")
            if not others:
                ctx.ob("accept", "a client the device refused is closed", bool(close), w,
                       "a client is left connected though announcing it failed")
            continue
        if others and not loop:
            continue
        seen.add("served")
        ctx.ob("accept", "served once", len(loop) == 1, w,
               "reading starts %d times for a client (path: %s)" % (len(loop), path_str(p)))
        for e in loop:
            ctx.ob("accept", "served after it was announced", e.idx > t.idx and any(
                y.idx > t.idx and y.idx < e.idx and uses(y.val, t.res)
                for y in events(p, "yield")), e.where,
                "reading starts before the device accepted the client")
            ctx.ob("accept", "its own stream is read", tuple(e.args) == (stream, conn),
                   e.where, "reading %s" % [show(a) for a in e.args])
        ctx.ob("accept", "not closed", not close, w, "an accepted client is closed")
    ctx.ob("accept", "cases", len(seen) == 2 or None, w, "%s" % seen)
    v = ctx.cconst(KS[:-1], "MAX_WRITE_BUFFER_SIZE")
    ctx.ob("accept", "limit", isinstance(v, int) and v > 0, w, "the limit is %r" % (v,))


def ended(ctx):
    q = KS + "_stream_closed_callback"
    w = ctx.where(q)
    stream = P(ctx.p.func(q).params[1])
    seen = set()
    for p in ctx.paths(q, raise_all=True, opaque={KS + "_disconnect_client",
                                                  KS + "get_address"},
                       noraise=lambda e: quiet(e) or e.name == "_disconnect_client"):
        if p.kind == "raise" and isinstance(p.val, tuple) and p.val[1] == "AssertionError":
            continue
        known = [e for e in events(p, "call") if e.name == "get" and e.recv == S(
            "_connections") and isnone(p, e.res) is False or truthy(p, e.res)]
        if known and any(isinstance(x.extra, tuple) for x in events(p, "exc")):
            continue                    # an entry just found is there
        ctx.ob("ended", "no error before the client is let go", p.kind == "return", w,
               "handling the end of a stream can fail first (path: %s)" % path_str(p))
        pop = [e for e in events(p, "call") if e.name == "pop" and e.recv == S(
            "_connections")]
        dele = [e for e in events(p, "delitem") if e.base == S("_connections")]
        get = [e for e in events(p, "call") if e.name == "get" and e.recv == S(
            "_connections")]
        dis = [e for e in events(p, "call") if e.name == "_disconnect_client"]
        conn = pop[0].res if pop else get[0].res if get else \
            ("item", S("_connections"), stream)
        gone = truthy(p, conn) is False or tested(
            p, lambda a: a[0] == "in" and a[2] == S("_connections"), False)
        keyed = (pop and pop[0].args[0] == stream) or (dele and dele[0].val == stream)
        ctx.ob("ended", "forgotten", bool(keyed) or gone and not pop, w,
               "a connection that ended stays in the table (path: %s)" % path_str(p))
        ctx.ob("ended", "no failure when it is already gone", not pop or len(
            pop[0].args) == 2 or not gone, w, "")
        if gone:
            seen.add("gone")
            ctx.ob("ended", "nothing more when already gone", not dis, w, "")
            continue
        seen.add("known")
        ctx.ob("ended", "disconnect path entered once", len(dis) == 1 and
               tuple(dis[0].args[:2]) == (stream, conn), w,
               "the end of a connection: disconnect path entered %d times (path: %s)"
               % (len(dis), path_str(p)))
    ctx.ob("ended", "cases", "known" in seen or None, w, "")


def announce(ctx):
    q = KS + "_disconnect_client"
    w = ctx.where(q)
    stream, conn = [P(x) for x in ctx.p.func(q).params[1:3]]
    seen = set()
    opq = {KS + "get_address", CC + "*", "core.with_relative_timeout"}
    for p in ctx.paths(q, raise_all=True, opaque=opq, noraise=quiet):
        if p.kind == "raise" and isinstance(p.val, tuple) and p.val[1] == "AssertionError":
            continue
        told = [e for e in events(p, "call") if e.name == "on_client_disconnect"]
        mark = [e for e in events(p, "call") if e.name == "on_client_disconnect_was_called"]
        was = decided(p, lambda a: a[0] == "truth" and has(a[1], lambda t: t == A(
            conn, "client_disconnect_called")))
        chk = next((e for e in p.events if e.kind == "cond" and e.extra[0] == "truth" and
                    has(e.extra[1], lambda t: t == A(conn, "client_disconnect_called"))), None)
        close = [e for e in events(p, "call") if e.name == "close" and e.recv == stream]
        how = "path: %s, raised: %s" % (path_str(p), [
            getattr(x.extra, "name", None) or getattr(x.extra, "kind", None)
            for x in events(p, "exc")])
        pre = [e for e in told + mark]
        x = next((z for z in events(p, "exc") if z.extra not in close), None)
        ctx.ob("announce", "stream closed", bool(close), w,
               "a disconnected client's stream stays open (%s)" % how)
        if not any(z.extra in close for z in events(p, "exc")):
            ctx.ob("announce", "errors contained", p.kind == "return", w,
                   "an error in telling the device escapes (%s)" % how)
        if was:
            seen.add("again")
            ctx.ob("announce", "not announced twice", not told, w,
                   "a client that was announced as gone is announced again")
            continue
        if mark and raised(p, mark[0]):
            ctx.ob("announce", "not announced twice", not told, w, "")
            continue
        seen.add("first")
        ctx.ob("announce", "announced once", len(told) == 1, w,
               "the device is told %d times that a client is gone (%s)" % (len(told), how))
        if not told:
            continue
        t = told[0]
        flag = bool(mark) and mark[0].idx < t.idx
        ctx.ob("announce", "marked before it is announced", flag, t.where,
               "a second event can announce the client again while the device is told")
        if chk is not None and mark:
            ctx.ob("announce", "no pause between check and mark", not any(
                e.kind == "yield" for e in p.events[chk.idx:mark[0].idx]), w,
                "two events can both announce the client")
        ctx.ob("announce", "announced as itself", bool(t.args) and t.args[0] == conn, t.where,
               "announced as %s" % [show(a) for a in t.args])
        ctx.ob("announce", "with the reason", len(t.args) > 1 and t.args[1] == P(
            ctx.p.func(q).params[3]), t.where, "")
        v = arg(t, 2, "connection_valid")
        cl = [e for e in events(p, "call") if e.name == "closed" and e.recv == stream]
        ok = v is not None and any(_open(v, e.res) for e in cl)
        if v is not None and is_const(v) and cl:
            ok = decided(p, lambda a: a == ("truth", cl[0].res)) == (not v[2])
        ctx.ob("announce", "told whether it can still be sent to", ok or (
            None if v is not None and any(has(v, lambda t: t == e.res) for e in cl) else False),
            t.where, "the device is told the connection is valid: %s" % (
                show(v) if v else None))
        if close:
            after = [y for y in events(p, "yield") if y.idx > t.idx]
            bad = of_exc(p, told)
            last = (bad or (after[-1] if after else t)).idx
            ctx.ob("announce", "closed after the device was told", close[-1].idx > last, w,
                   "the stream is closed while the device still uses it")
    ctx.ob("announce", "cases", len(seen) == 2 or None, w, "%s" % seen)
    q = CC + "on_client_disconnect_was_called"
    for p in returns(ctx.paths(q)):
        st = [e for e in events(p, "store") if e.base == SELF]
        ctx.ob("announce", "the mark is set", any(e.attr == "_disconnect_called" and e.val in (
            TRUE, const(True)) for e in st), ctx.where(q), "")
    for q in [k for k in ctx.p.functions if k.startswith(CC + "client_disconnect_called")]:
        for p in returns(ctx.paths(q)):
            ctx.ob("announce", "the mark is what is read", p.val == S("_disconnect_called") or
                   p.val in (TRUE, FALSE) and truthy(p, S("_disconnect_called")) == (
                       p.val == TRUE), ctx.where(q), "it reads %s" % show(p.val))
    for fq, n in attr_stores(ctx, "_disconnect_called"):
        ctx.ob("announce", "writers of the mark", within(ctx, fq, (
            CC + "__init__", CC + "on_client_disconnect_was_called")), ctx.where(fq),
            "%s also changes the mark" % fq)


def _open(v, closed):
    if v == ("not", closed):
        return True
    return has(v, lambda t: t == closed) and has(v, lambda t: t[0] in ("not", "unop"))


def state(ctx):
    q = DS + "on_client_connect"
    w = ctx.where(q)
    conn = P(ctx.p.func(q).params[1])
    for p in ctx.paths(q, raise_all=True, opaque={"core.Message.*", CC + "*"},
                       noraise=lambda e: quiet(e) or e.name in ("add",)):
        if p.kind == "raise" and isinstance(p.val, tuple) and p.val[1] == "AssertionError":
            continue
        add = [e for e in events(p, "call") if e.name == "add" and e.recv == S(
            "_client_conns") and tuple(e.args) == (conn,)]
        st = [e for e in events(p, "setitem") if e.base == S("_strategies") and
              e.extra == conn]
        inf = [e for e in events(p, "call") if e.name in ("inform", "_send_message")]
        if p.kind == "return":
            ctx.ob("state", "kept while connected", len(add) == 1 and len(st) == 1, w,
                   "a connected client is not kept (path: %s)" % path_str(p))
        if inf and add and st:
            ctx.ob("state", "kept before it is sent anything",
                   max(add[0].idx, st[0].idx) < inf[0].idx, w, "")
    q = DS + "on_client_disconnect"
    w = ctx.where(q)
    prm = ctx.p.func(q).params
    conn = P(prm[1])
    n = 0
    for p in ctx.paths(q, raise_all=True, deferred={"add_callback": 0},
                       opaque={DS + "clear_strategies", "core.Message.*", CC + "*"},
                       noraise=lambda e: quiet(e) or e.name in (
                           "add_callback", "Future", "chain_future", "set_exc_info",
                           "set_exception", "remove", "discard", "set_result",
                           "clear_strategies")):
        n += 1
        rm = [e for e in events(p, "call") if e.name in ("remove", "discard") and
              e.recv == S("_client_conns") and tuple(e.args) == (conn,)]
        cs = [e for e in events(p, "call") if e.name == "clear_strategies"]
        pops = [e for e in events(p, "call") if e.name == "pop" and e.recv == S("_strategies")]
        how = "path: %s, raised: %s" % (path_str(p), [
            getattr(x.extra, "name", None) for x in events(p, "exc")])
        ctx.ob("state", "client forgotten", len(rm) >= 1, w,
               "a client that left is kept (%s)" % how)
        good = any(bool(e.args) and e.args[0] == conn and arg(
            e, 1, "remove_client") in (TRUE, const(True)) for e in cs)
        ctx.ob("state", "strategies cancelled and forgotten", good or (None if pops else
               False), w, "the strategies of a client that left are kept (%s)" % how)
        if cs:
            early = [e for e in p.events[:cs[0].idx] if e.kind in ("yield", "exc")]
            ctx.ob("state", "nothing can come before", not early, w,
                   "the strategies are kept when something else fails or waits first")
        dis = [e for e in events(p, "call") if e.name == "inform" and e.recv == conn]
        val = truthy(p, P(prm[3]))
        ctx.ob("state", "told only if it can be", not dis or val is not False, w,
               "a client that is gone is sent to")
    ctx.ob("state", "paths", n > 0 or None, w, "")
    q = DS + "clear_strategies"
    w = ctx.where(q)
    conn, rc = [P(x) for x in ctx.p.func(q).params[1:3]]
    for p in returns(ctx.paths(q)):
        pop = [e for e in events(p, "call") if e.name == "pop" and e.recv == S("_strategies")]
        dele = [e for e in events(p, "delitem") if e.base == S("_strategies")]
        r = truthy(p, rc)
        if r:
            ctx.ob("state", "entry removed", bool(pop) and pop[0].args[0] == conn or bool(
                dele) or isnone(p, conn) or tested(
                    p, lambda a: a[0] == "in" and a[2] == S("_strategies"), False), w,
                "the entry of a client that left stays (path: %s)" % path_str(p))
    for attr, ok in (("_client_conns", (DS + "__init__", DS + "on_client_connect",
                                        DS + "on_client_disconnect")),
                     ("_connections", (KS + "__init__", KS + "_handle_stream",
                                       KS + "_stream_closed_callback"))):
        pre = KS if attr == "_connections" else DS
        for fq, node in attr_stores(ctx, attr):
            if fq.startswith(pre):
                ctx.ob("state", "writers of " + attr, within(ctx, fq, ok), ctx.where(fq),
                       "%s also changes %s" % (fq, attr))


def _new(fq):
    from .. import engine
    return None if fq not in engine.BASELINE else False


def sending(ctx):
    q = KS + "send_message"
    w = ctx.where(q)
    stream, msg = [P(x) for x in ctx.p.func(q).params[1:3]]
    seen = set()
    for p in ctx.paths(q, raise_all=True, opaque={KS + "get_address"}, noraise=lambda e: (
            quiet(e) and e.name != "bytes") or e.name == "close"):
        if p.kind == "raise" and isinstance(p.val, tuple) and p.val[1] == "AssertionError" \
                and not events(p, "exc"):
            continue
        ctx.ob("sending", "never raises", p.kind == "return", w,
               "sending to a client raises (path: %s)" % path_str(p))
        wr = [e for e in events(p, "call") if e.name == "write" and e.recv == stream]
        cl = [e for e in events(p, "call") if e.name == "closed" and e.recv == stream]
        close = [e for e in events(p, "call") if e.name == "close" and e.recv == stream]
        shut = truthy(p, A(stream, "KATCPServer_closing")) or any(
            truthy(p, e.res) for e in cl)
        if shut:
            seen.add("closed")
            ctx.ob("sending", "nothing is written when closed", not wr, w,
                   "something is written to a closed or closing stream")
            continue
        x = [e for e in events(p, "exc")]
        if wr:
            ctx.ob("sending", "closing is checked", truthy(p, A(
                stream, "KATCPServer_closing")) is False, w,
                "a message is written after the last flush of a closing stream")
            b = [e for e in events(p, "call") if e.name in ("bytes", "__bytes__", "__str__")
                 and (msg in e.args or e.recv == msg)]
            v = wr[0].args[0]
            ok = v[0] == "bin" and v[1] == "Add" and bool(b) and v[2] == b[0].res and \
                v[3] == const(b"\n")
            ctx.ob("sending", "one line is written", len(wr) == 1 and (ok or None), w,
                   "what is written is %s" % show(v))
        if x:
            seen.add("failed")
            ctx.ob("sending", "a refused write closes the stream", any(
                e.idx > x[0].idx for e in close), w,
                "a client whose output cannot be written (its buffer is full) stays "
                "connected (path: %s)" % path_str(p))
        else:
            seen.add("sent")
            ctx.ob("sending", "written", len(wr) == 1, w, "a message is not written")
            ctx.ob("sending", "not closed", not close, w, "")
    ctx.ob("sending", "cases", len(seen) == 3 or None, w, "%s" % seen)
    q = KS + "flush_on_close"
    for p in returns(ctx.paths(q)):
        st = P(ctx.p.func(q).params[1])
        ctx.ob("sending", "closing is marked", any(
            e.base == st and e.attr == "KATCPServer_closing" and e.val in (TRUE, const(True))
            for e in events(p, "store")), ctx.where(q), "")
    q = KS + "mass_send_message"
    for p in ctx.paths(q, opaque={KS + "send_message"}, loop_max=2):
        its = events(p, "iter")
        if p.kind != "return" or not its:
            continue
        sent = [e for e in events(p, "call") if e.name == "send_message"]
        ctx.ob("sending", "goes over all of the table", bool(events(p, "enditer")),
               ctx.where(q), "a message to all stops before the last client")
        skip = sum(1 for e in p.events if e.kind == "cond" and e.extra[0] == "truth" and
                   call_name(e.extra[1]) == "closed" and e.val)
        ctx.ob("sending", "every open client gets it", len(sent) == len(its) - skip,
               ctx.where(q), "a message to all is sent %d times to %d open clients" % (
                   len(sent), len(its) - skip))
        ctx.ob("sending", "goes over the table", all(uses(e.val, S("_connections"))
               for e in its), ctx.where(q), "")
        for e in sent:
            ctx.ob("sending", "the message itself", len(e.args) == 2 and e.args[1] == P(
                ctx.p.func(q).params[1]), e.where, "")


def sites(ctx):
    for fq, fi in sorted(ctx.p.functions.items()):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in ("on_client_connect", "on_client_disconnect"):
                sup = isinstance(n.func.value, ast.Call) and isinstance(
                    n.func.value.func, ast.Name) and n.func.value.func.id == "super"
                own = fq.split(".<locals>")[0] == KS + (
                    "_handle_stream" if n.func.attr.endswith("_connect") and not
                    n.func.attr.endswith("disconnect") else "_disconnect_client")
                ctx.ob("sites", n.func.attr, own or sup or _new(fq), ctx.where(fq),
                       "%s also announces clients" % fq)


def functions(ctx):
    return [KS + n for n in ("_handle_stream", "_stream_closed_callback",
                             "_disconnect_client", "send_message", "flush_on_close",
                             "mass_send_message")] + [
        DS + n for n in ("on_client_connect", "on_client_disconnect", "clear_strategies")] + [
        CC + "on_client_disconnect_was_called"]


PARTS = [accept, ended, announce, state, sending, sites]
