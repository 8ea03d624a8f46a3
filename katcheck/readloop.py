"""Rules shared by the server's and the client's line read loops."""
from .engine import NONE, const, is_const, show, subterms
from .lib import (A, P, S, SELF, byte_class, call_name, events, excisa, has, is_log,
                  path_str, raised, tested, uses)
import re

LINES = [b"?help\n", b"?help\r", b"!a b\\_c ok\n", b"#log x\r", b"\n", b"\r"]
_PURE = ("replace", "split", "strip", "rstrip", "lstrip", "splitlines", "partition",
         "rpartition", "rsplit", "translate")
NOISE = ("exc_info", "format_exception", "format_exc", "join", "format", "get_address",
         "create_log_inform", "get_thread_ident", "get_ident", "check_future",
         "time_to_yield", "closed", "close", "send_message", "replace", "split", "strip",
         "rstrip", "_disconnect", "print_exc", "maybe_future", "isSet", "is_set", "str",
         "repr", "len", "printable_str", "inform", "running") + (
             "partition", "splitlines", "removesuffix", "endswith", "bool")


class Unknown(Exception):
    pass


def fold(t, base, val):
    """Value of a term built from `base` by byte string methods."""
    if t == base:
        return val
    if is_const(t):
        return t[2]
    if t[0] == "tuple":
        return tuple(fold(x, base, val) for x in t[1])
    if t[0] == "item":
        try:
            return fold(t[1], base, val)[fold(t[2], base, val)]
        except (IndexError, TypeError, KeyError):
            raise Unknown()
    if t[0] == "slice":
        lo, hi = (None if x is None or x == NONE else fold(x, base, val) for x in t[2:4])
        return fold(t[1], base, val)[lo:hi]
    if t[0] == "un" and t[1] == "USub":
        return -fold(t[2], base, val)
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in _PURE:
        r = fold(t[1][1], base, val)
        try:
            return getattr(r, t[1][2])(*[fold(x, base, val) for x in t[2]])
        except (TypeError, ValueError, AttributeError):
            raise Unknown()
    raise Unknown()


def direct(t, x):
    """Is x awaited here (possibly wrapped), not merely what t was computed from?"""
    if t == x:
        return True
    if not isinstance(t, tuple) or (t and t[0] == "yield"):
        return False
    return any(direct(z, x) for z in t if isinstance(z, tuple))


class Loop(object):
    """One path through a read loop, cut into read / parse / dispatch events."""

    def __init__(self, p, dispatch):
        self.p = p
        self.attempts = [e for e in events(p, "call") if
                         (e.name or "").startswith("read_until")]
        self.reads = []             # (call, yield event) of successful reads
        self.failed = []            # exc events of failed reads
        for e in p.events:
            if e.kind == "yield":
                for c in self.attempts:
                    if direct(e.val, c.res):
                        if not raised(p, e):
                            self.reads.append((c, e))
            if e.kind == "exc":
                x = e.extra
                if x in self.attempts or getattr(x, "kind", None) == "yield" and any(
                        direct(x.val, c.res) for c in self.attempts):
                    self.failed.append(e)
        self.parses = [e for e in events(p, "call") if e.name == "parse"]
        self.dispatches = [e for e in events(p, "call") if e.name in dispatch]

    def last_attempt(self, idx):
        r = None
        for c in self.attempts:
            if c.idx < idx:
                r = c
        return r

    def read_for(self, idx):
        """The successful read that is the latest attempt before idx, or None."""
        a = self.last_attempt(idx)
        for c, y in self.reads:
            if c is a and y.idx < idx:
                return y
        return None

    def after(self, idx):
        """Does the loop go round again after event idx?"""
        if self.p.kind == "cut":
            return True
        return any(e.kind == "while" or e in self.attempts for e in self.p.events[idx:])


def check(ctx, q, dispatch, opaque, server):
    w = ctx.where(q)
    seen = set()
    noraise = lambda e: is_log(e) or e.name in NOISE
    for wm in (1, 2, 3) if ctx.deep else (1, 2):
        paths = ctx.paths(q, opaque=opaque, noraise=noraise, while_max=wm, max_paths=60000)
        for p in paths:
            _path(ctx, p, w, dispatch, server, seen)
    for k in ("read failed", "parse failed", "dispatched", "handler failed", "blank"):
        ctx.ob("read-loop", "%s case exists" % k, True if k in seen else None, w, "")
    return seen


def _path(ctx, p, w, dispatch, server, seen):
    L = Loop(p, dispatch)
    for c in L.attempts:
        if c.name == "read_until_regex" and c.args and is_const(c.args[0]):
            rx = c.args[0][2]
            try:
                ok = byte_class(re.compile(rx)) == {b"\n", b"\r"} and not \
                    re.compile(rx).fullmatch(b"")
            except (re.error, TypeError):
                ok = None
            ctx.ob("framing", "line ends", ok, c.where,
                   "lines are read up to %r, not up to a newline or carriage return" % rx)
    if server:
        prev = 0
        for c in L.attempts:
            ok = any(e.kind == "cond" and has(
                ("x",) + tuple(z for z in e.extra[1:] if isinstance(z, tuple)),
                lambda t: t[0] == "call" and call_name(t) == "closed")
                for e in p.events[prev:c.idx])
            ctx.ob("read-loop", "closed stream ends the loop", ok, c.where,
                   "lines still buffered are handled after the connection was closed")
            prev = c.idx
    # -- parsing -----------------------------------------------------------
    for c in L.parses:
        y = L.read_for(c.idx)
        a = c.args[0] if c.args else None
        if a is None:
            continue
        used = [x for x in L.reads if uses(a, x[1].res)]
        if y is None:
            ctx.ob("fresh", "only fresh lines are parsed", False if used or not any(
                x[0] == "yield" for x in subterms(a)) else None, c.where,
                "a line is parsed after the read failed (path: %s)" % path_str(p))
            continue
        stale = [x for x in used if x[1] is not y]
        ctx.ob("fresh", "only fresh lines are parsed", not stale and bool(used)
               if used else None, c.where,
               "the line parsed was read in an earlier round (path: %s)" % path_str(p))
        if not used or stale:
            continue
        if a == y.res:
            ctx.ob("framing", "terminator stripped", False, c.where,
                   "the line ending is passed to the parser")
        else:
            for ln in LINES:
                want = ln[:-1]
                try:
                    got = fold(a, y.res, ln)
                except Unknown:
                    ctx.ob("framing", "terminator stripped", None, c.where, "")
                    break
                if want == b"" and got == b"":
                    continue
                ctx.ob("framing", "terminator stripped", got in (want, want.strip()),
                       c.where, "line %r reaches the parser as %r" % (ln, got))
        guard = tested(p, lambda x: x in (("truth", a),), True, c.idx)
        other = tested(p, lambda x: any(uses(z, a) or uses(z, y.res) for z in x[1:]
                                        if isinstance(z, tuple)), None, c.idx)
        ctx.ob("blank", "blank lines are not parsed", True if guard else
               (None if other else False), c.where,
               "an empty line is given to the parser, which refuses it as malformed")
    # -- dispatch ----------------------------------------------------------
    for d in L.dispatches:
        m = d.args[-1] if d.args else None
        y = L.read_for(d.idx)
        seen.add("dispatched")
        if y is None:
            ctx.ob("fresh", "only fresh messages are handled", False, d.where,
                   "a message is handled although the latest read failed (path: %s)"
                   % path_str(p))
            continue
        pc = [c for c in L.parses if m is not None and uses(m, c.res)]
        if not pc:
            ctx.ob("fresh", "only fresh messages are handled",
                   False if m == NONE else None, d.where, "handled: %s" % show(m))
        else:
            ok = all(L.read_for(c.idx) is y and c.idx > y.idx for c in pc)
            ctx.ob("fresh", "only fresh messages are handled", ok, d.where,
                   "a message parsed from an earlier line is handled again (path: %s)"
                   % path_str(p))
            n = sum(1 for x in L.dispatches if x is not d and x.args and
                    uses(x.args[-1], pc[0].res))
            ctx.ob("fresh", "each message is handled once", n == 0, d.where,
                   "one message is handled %d times" % (n + 1))
        exc = next((x for x in p.events if x.kind == "exc" and x.extra is d), None)
        nxt = next((x.idx for x in L.attempts if x.idx > d.idx), None)
        ys = [e for e in events(p, "yield") if e.idx > d.idx and
              (nxt is None or e.idx < nxt) and uses(e.val, d.res)]
        if exc is None:
            ended = nxt is not None or p.kind == "cut"
            if ended or ys:
                ctx.ob("order", "handling ends before the next line is read", bool(ys),
                       d.where, "the next line is read before the handling of the "
                       "previous message is over")
            exc = next((x for x in p.events if x.kind == "exc" and x.extra in ys), None)
        if exc is not None:
            seen.add("handler failed")
            hd = next((x for x in p.events[exc.idx:] if x.kind == "handler"), None)
            ok = hd is not None and L.after(exc.idx)
            if not ok and any(x.kind == "exc" for x in p.events[exc.idx + 1:]):
                ok = True if hd is not None else False
            if not server and not ok and hd is not None:
                # the loop condition may end it
                ok = tested_after(p, exc.idx)
            ctx.ob("contain", "handler errors", ok, d.where,
                   "an exception in message handling ends the read loop (path: %s)"
                   % path_str(p))
            lg = any(is_log(x) for x in p.events[exc.idx:])
            ctx.ob("contain", "handler errors are logged", lg, d.where,
                   "an exception in message handling is not logged")
    # -- parse failures ------------------------------------------------------
    for x in events(p, "exc"):
        if x.extra in L.parses:
            seen.add("parse failed")
            later = any(z.kind == "exc" for z in p.events[x.idx + 1:])
            ok = L.after(x.idx) or (not server and tested_after(p, x.idx))
            ctx.ob("contain", "malformed lines", ok or (later and None), x.where,
                   "a malformed line ends the read loop (path: %s)" % path_str(p))
            nxt = next((z.idx for z in L.attempts if z.idx > x.idx), None)
            seg = p.events[x.idx:nxt]
            if later:
                continue
            ctx.ob("contain", "malformed lines are logged",
                   any(is_log(z) for z in seg), x.where,
                   "a malformed line is not logged")
            if server:
                from .lib import as_msg
                snd = [z for z in seg if z.kind == "call" and z.name in (
                    "send_message", "inform") and any(
                    has(b, lambda t: t[0] == "call" and call_name(t) in (
                        "create_log_inform",) or t[0] in ("new", "call") and
                        as_msg(t) is not None) for b in z.allargs())]
                ctx.ob("contain", "malformed lines are reported", len(snd) == 1, x.where,
                       "a malformed line gets %d log informs to its sender" % len(snd))
                for z in snd:
                    if z.name == "send_message" and z.recv == SELF:
                        ctx.ob("contain", "reported to its sender",
                               z.args and z.args[0] == P(
                                   ctx.p.func("server.KATCPServer._line_read_loop")
                                   .params[1]), z.where, "reported to %s"
                               % show(z.args[0] if z.args else None))
    # -- blank lines ---------------------------------------------------------
    for i, (c, y) in enumerate(L.reads):
        nxt = next((z.idx for z in L.attempts if z.idx > y.idx), None)
        seg = p.events[y.idx:nxt]
        if any(z.kind == "exc" for z in seg):
            continue
        neg = [z for z in seg if z.kind == "cond" and z.extra[0] == "truth" and
               not z.val and uses(z.extra[1], y.res) and
               not any(uses(z.extra[1], pc.res) for pc in L.parses)]
        if neg:
            seen.add("blank")
            bad = [z for z in seg if z.kind == "call" and (
                z in L.dispatches or z.name in ("send_message", "inform", "close",
                                                "_disconnect"))]
            ends = not L.after(y.idx)
            if not server:
                bad = [z for z in bad if z.name not in ("close", "_disconnect")]
                ends = ends and not tested_after(p, y.idx)
            ctx.ob("blank", "blank lines are ignored", not bad and not ends, y.where,
                   "a blank line %s" % ("is answered or handled" if bad else
                                        "ends the read loop"))
    # -- failed reads --------------------------------------------------------
    for x in L.failed:
        seen.add("read failed")
        nxt = next((z.idx for z in L.attempts if z.idx > x.idx), None)
        seg = p.events[x.idx:nxt]
        closes = [z for z in seg if z.kind in ("call", "enter") and z.name in (
            "close", "_disconnect", "disconnect", "close_fd")]
        known = excisa(p, "StreamClosedError", x.val)
        if known is None:
            hd = next((z for z in seg if z.kind == "handler"), None)
            known = hd is not None and "StreamClosedError" in _clause(hd)
        gone = any(z.kind == "cond" and z.extra[0] == "truth" and
                   z.extra[1] == S("_stream") and not z.val for z in seg)
        ctx.ob("read-failure", "connection closed", bool(closes) or known or gone, x.where,
               "a failed read leaves the connection open (path: %s)" % path_str(p))
        if server and nxt is not None:
            ctx.ob("read-failure", "loop ends", None if closes else False, x.where,
                   "the loop reads on after a failed read")
        if p.kind == "raise":
            ctx.ob("read-failure", "contained", not (
                isinstance(p.val, tuple) and p.val == x.val), x.where,
                "a failed read escapes from the read loop")
    if server and p.kind == "return" and not L.failed:
        anyexc = any(z.kind == "exc" for z in p.events)
        closed = tested(p, lambda a: a[0] == "truth" and has(
            a[1], lambda t: t[0] == "call" and call_name(t) == "closed"), True)
        running = tested(p, lambda a: a[0] == "truth" and has(a[1], lambda t: (
            t[0] == "attr" and t[2] == "_running") or (
                t[0] == "call" and call_name(t) in ("running", "isSet"))), False)
        if not anyexc and not running:
            cl = any(z.kind == "call" and z.name in ("close", "_disconnect_client")
                     for z in p.events)
            ctx.ob("read-loop", "ends only with the connection", closed or cl, w,
                   "the read loop ends although the connection is open (path: %s)"
                   % path_str(p))


def tested_after(p, idx):
    """Was the loop left by its own condition after idx?"""
    for e in p.events[idx:]:
        if e.kind == "cond" and not e.val and has(
                ("x",) + tuple(z for z in e.extra[1:] if isinstance(z, tuple)),
                lambda t: t[0] == "attr" and t[2] in ("_running", "_stream")):
            return True
    return False


def _clause(h):
    import ast
    t = getattr(h.node, "type", None)
    return ast.unparse(t) if t is not None else ""
