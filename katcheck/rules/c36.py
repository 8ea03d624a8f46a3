"""The connections of a server are followed as an abstract machine with stand-ins for the loop, the TCP
server, the streams (one may be full, fail to be set up, or be closed by the peer) and the device (which
may fail when a client comes or goes): all sequences of accepting, sending, sending to all, flushing,
disconnecting, losing a stream and stopping up to a length, from the loop's thread and from another one,
with the plain and with the thread-safe kind of connection.  What is written to each stream, in which
order and in which thread, and what the device is told is compared with a reference."""
import itertools

from ..machine import Tally, Thing, Undecided, World
from ..teval import Fails, Unknown
from ..walk import Fun, Obj

MIN_OBLIGATIONS = 6
S = "server."
SRV = S + "KATCPServer"
ASSUMPTIONS = ["tornado 4.5: the close callback of a stream runs in a later turn of the loop; write() "
               "raises when the stream is closed or its buffer would exceed its maximum",
               "judged as Python 3"]
PROBE = '''
class ProbeFuture(object):
    def __init__(self):
        self.state = None
        self.value = None

    def set_running_or_notify_cancel(self):
        return True

    def set_result(self, value):
        if self.state is not None:
            raise AssertionError()
        self.state = "done"
        self.value = value

    def set_exception(self, value):
        if self.state is not None:
            raise AssertionError()
        self.state = "failed"
        self.value = value

    def set_exc_info(self, value):
        self.set_exception(value)

    def done(self):
        return self.state is not None


class ProbeStream(object):
    def __init__(self, world, number, kind):
        self.world = world
        self.number = number
        self.kind = kind
        self.is_closed = False
        self.error = None
        self.on_close = None

    def set_close_callback(self, callback):
        self.on_close = callback

    def set_nodelay(self, value):
        pass

    def closed(self):
        return self.is_closed

    def writing(self):
        return False

    def write(self, data):
        self.world.note("write", self.number, data, self.world.thread)
        if self.is_closed:
            raise IOError()
        if self.kind == "full" and data != self.world.empty:
            raise IOError()
        return self.world.sent

    def close(self, exc_info=False):
        if not self.is_closed:
            self.is_closed = True
            self.world.note("close", self.number, self.world.thread)
            if self.on_close is not None:
                self.world.todo.append((self.on_close, ()))
                self.on_close = None


class ProbeEvent(object):
    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def isSet(self):
        return self.flag

    def wait(self, timeout=None):
        return self.flag


class ProbeDevice(object):
    def on_client_connect(self, conn):
        self.world.came(conn)

    def on_client_disconnect(self, conn, msg, valid):
        self.world.went(conn, msg, valid)

    def create_log_inform(self, level_name, msg, name, timestamp=None):
        return self.world.trouble


class ProbeTCP(object):
    def __init__(self):
        self.handle_stream = None

    def add_socket(self, sock):
        pass

    def stop(self):
        pass


class ProbeWorld(object):
    def __init__(self):
        self.thread = "other"
        self.todo = []
        self.conns = []
        self.streams = []
        self.calls = 0

    def add_callback(self, callback, *args):
        if self.gone:
            raise RuntimeError()
        self.todo.append((callback, args))

    def time(self):
        return 100.0

    def turn(self):
        self.thread = "loop"
        while self.todo:
            callback, args = self.todo.pop(0)
            callback(*args)
        self.thread = "other"

    def begin(self, safe):
        self.server.client_connection_factory = self.safe if safe else self.plain
        self.server.start()
        self.turn()

    def safe(self, server, stream):
        return ThreadsafeClientConnection(server, stream)

    def plain(self, server, stream):
        return ClientConnection(server, stream)

    def came(self, conn):
        self.conns.append(conn)
        self.note("came", len(self.conns) - 1)
        if self.streams[len(self.conns) - 1].kind == "refused":
            raise ValueError()

    def went(self, conn, msg, valid):
        i = 0
        for c in self.conns:
            if c is conn:
                self.note("went", i, valid, self.thread)
                if self.streams[i].kind == "ungrateful":
                    raise ValueError()
                if valid:
                    conn.inform(self.bye)
            i += 1

    def one(self, step):
        what = step[0]
        if what == "accept":
            self.streams.append(ProbeStream(self, len(self.streams), step[1]))
            self.thread = "loop"
            self.tcp.handle_stream(self.streams[-1], ("host", 1000 + len(self.streams)))
        elif what == "send":
            self.conns[step[1]].inform(self.message(step[2]))
        elif what == "mass":
            self.conns[step[1]].mass_inform(self.message(step[2]))
        elif what == "disconnect":
            self.thread = "loop"
            self.conns[step[1]].disconnect("reason")
        elif what == "flush":
            self.thread = "loop"
            if not self.streams[step[1]].is_closed:
                self.conns[step[1]].flush_on_close()
        elif what == "lost":
            self.thread = "loop"
            self.streams[step[1]].close()
        elif what == "lost, at once mass":
            self.streams[step[1]].close()
            self.conns[0].mass_inform(self.message(step[2]))
        elif what == "stop":
            self.thread = "loop"
            self.server._uninstall()

    def drive(self, steps):
        for step in steps:
            self.thread = step[-1]
            try:
                self.one(step)
            except (ValueError, RuntimeError, AttributeError):
                self.note("raised", step[0])
            self.turn()

    def calling(self, thread, fails, gone):
        self.fails = fails
        if gone:
            self.gone = True
            self.server.ioloop = None
        self.thread = thread
        first = self.server.call_from_thread(self.called)
        self.note("returned", first.state)
        second = self.server.call_from_thread(self.called)
        self.turn()
        self.note("first", first.state, first.value if first.state == "done" else None)
        self.note("second", second.state, second.value if second.state == "done" else None)

    def called(self):
        self.calls = self.calls + 1
        self.note("called", self.calls, self.thread)
        if self.fails:
            raise ValueError()
        return self.calls
'''


def whole(cls, **kw):
    o = Obj(S + cls)
    o.__dict__.update(kw)
    o.__dict__["%whole"] = True
    return o


def msg(text, inform):
    return Thing("message " + text, mtype=inform, name="x", mid=None,
                 __bytes__=Fun("bytes", lambda t: text.encode()))


def build(ctx, safe):
    if S + "ProbeWorld" not in ctx.p.classes:
        for src in PROBE.strip().split("\n\n\n"):
            ctx.probe("server", src)
    inform = ctx.cconst("core.Message", "INFORM")

    def world(t):
        return t.env[("root", "world")]

    def future(t, e):
        return whole("ProbeFuture", state=None, value=None)

    def to_bytes(t, e):
        a, kw = t.args(e)
        if isinstance(a[0], Thing) and "__bytes__" in a[0].__dict__:
            return a[0].__dict__["__bytes__"].fn(t)
        raise Unknown("bytes")
    same = lambda t, e: t.args(e)[0][-1]
    w = World(ctx, {
        "get_thread_ident": lambda t, e: world(t).thread, "_thread.get_ident": lambda t, e: world(t).thread,
        "IOLoopManager": lambda t, e: Thing("manager", get_ioloop=Fun("get", lambda t2: world(t2)),
                                            start=Fun("start", lambda t2, *a: None)),
        "TCPServer": lambda t, e: world(t).tcp, "tornado.tcpserver.TCPServer": lambda t, e: world(t).tcp,
        "_bind_socket": lambda t, e: Thing("socket", getsockname=Fun("name", lambda t2: ("host", 1))),
        "_line_read_loop": lambda t, e: None, "Future": future, "tornado_Future": future,
        "maybe_future": same, "with_relative_timeout": same, "bytes": to_bytes,
        "threading.Event": lambda t, e: whole("ProbeEvent", flag=False),
        "MessageParser": lambda t, e: Thing("parser"), "format_exception": lambda t, e: ["trace"],
        "exc_info": lambda t, e: ("type", "value", "trace")})
    st = {}
    device = whole("ProbeDevice")
    o, st = w.new(st, "server", SRV, device, "host", 0)
    o, st = w.new(st, "world", S + "ProbeWorld")
    wd = st["world"]
    wd.server, wd.tcp = st["server"], whole("ProbeTCP", handle_stream=None)
    wd.empty = b"\n"
    wd.sent = Thing("written")
    wd.gone = False
    wd.bye = msg("bye", inform)
    wd.note = Fun("note", lambda t, *a: t.log.append(a))
    wd.message = Fun("message", lambda t, x: msg(x, inform))
    wd.trouble = msg("trouble", inform)
    st["server"]._device.world = wd
    o, st = w.call(st, "world", "begin", safe)
    return w, st


class Ref(object):
    """What is written, to whom, and what the device is told."""

    def __init__(self):
        self.kinds, self.open, self.told, self.up, self.closing, self.log = [], [], [], [], [], []
        self.n = 0

    def write(self, i, text):
        if self.open[i] and not self.closing[i]:
            self.log.append(("write", i, text, "loop"))
            if self.kinds[i] == "full":
                self.close(i)
        elif self.open[i]:
            self.close(i)       # no more can be written

    def close(self, i):
        if self.open[i]:
            self.open[i] = False
            self.log.append(("close", i, "loop"))

    def gone(self, i, valid):
        if self.up[i] and not self.told[i]:
            self.told[i] = True
            self.log.append(("went", i, valid, "loop"))
            if valid and self.kinds[i] != "ungrateful":
                self.write(i, b"bye\n")

    def turn(self):
        for i in range(len(self.kinds)):
            if not self.open[i] and self.up[i]:
                self.gone(i, False)
                self.up[i] = False

    def one(self, s):
        if s[0] == "accept":
            i = len(self.kinds)
            self.kinds.append(s[1])
            self.open.append(True)
            self.told.append(False)
            self.up.append(True)
            self.closing.append(False)
            self.log.append(("came", i))
            if s[1] == "refused":
                self.log.append(("write", i, b"trouble\n", "loop"))
                self.close(i)
        elif s[0] == "send":
            self.write(s[1], s[2].encode() + b"\n")
        elif s[0] == "mass":
            for i in range(len(self.kinds)):
                if self.up[i] and self.open[i]:
                    self.write(i, s[2].encode() + b"\n")
        elif s[0] == "disconnect":
            self.gone(s[1], self.open[s[1]])
            self.close(s[1])
        elif s[0] == "flush":
            self.closing[s[1]] = True
        elif s[0] == "lost":
            self.close(s[1])
        elif s[0] == "lost, at once mass":
            self.close(s[1])
            for i in range(len(self.kinds)):
                if self.up[i] and self.open[i]:
                    self.write(i, s[2].encode() + b"\n")
        elif s[0] == "stop":
            for i in range(len(self.kinds)):
                if self.up[i]:
                    self.gone(i, self.open[i])
                    self.close(i)
        self.turn()


def text(steps):
    return ", ".join(" ".join(str(x) for x in s) for s in steps)


def per_stream(log, k):
    """The events of each stream, in order."""
    return [[x for x in log if len(x) > 1 and x[1] == i] for i in range(k)]


def play(ctx, tally, base, steps, sit):
    w, st = base
    main = "each stream gets what was sent to it, in order"
    try:
        o, st2 = w.call(st, "world", "drive", tuple(steps))
    except Undecided as e:
        tally(main, None, "%s: %s" % (sit, e))
        return
    if o.kind == "raise":
        tally("nothing raises", False, "%s: %s" % (sit, o.val))
        return
    ref = Ref()
    for s in steps:
        ref.one(s)
    bad = [x for x in o.log if x[0] == "raised"]
    tally("a send that fails does not raise", not bad, "%s: %s" % (sit, bad))
    k = len(ref.kinds)
    log = [x for x in o.log if x[0] in ("write", "close", "came", "went") and x[2:3] != (b"\n",)]
    for what, kind in (("each stream gets what was sent to it, in order", "write"),
                       ("a stream is closed once, when it must be", "close"),
                       ("the device is told once that a client came", "came"),
                       ("the device is told once that a client went", "went")):
        got = per_stream([x for x in log if x[0] == kind], k)
        want = per_stream([x for x in ref.log if x[0] == kind], k)
        if kind == "write":         # a write to a closed stream is refused by the stream
            dead = [[x for x in log if x[1] == i and x[0] in ("write", "close")] for i in range(k)]
            got = [[x for j, x in enumerate(d) if x[0] == "write" and not any(
                y[0] == "close" for y in d[:j])] for d in dead]
        tally(what, got == want, "%s: %s, not %s" % (sit, got, want))


def sends(ctx):
    tally = Tally(ctx, "sends", ctx.where(SRV + ".send_message"))
    n = 0
    L, T = "loop", "other"
    for safe in (False, True):
        try:
            base = build(ctx, safe)
        except Undecided as e:
            tally("the server is followed", None, str(e))
            continue
        threads = (L, T) if safe else (L,)
        one = [("lost", 1, L), ("disconnect", 1, L), ("flush", 1, L), ("stop", L), ("lost, at once mass", 1, "e", L),
               ("lost, at once mass", 0, "f", L)] + [
            ("send", 1, "a", t) for t in threads] + [("mass", 0, "b", t) for t in threads]
        for kind in ("fine", "full", "refused", "ungrateful"):
            start = [("accept", "fine", L), ("accept", kind, L), ("accept", "fine", L)]
            for k in (1, 2, 3) if ctx.deep else (1, 2):
                for rest in itertools.product(one, repeat=k):
                    if k == 3 and rest[1] == rest[2]:
                        continue
                    n += 1
                    steps = start + list(rest) + [("send", 0, "c", threads[-1]), ("mass", 2, "d", L)]
                    play(ctx, tally, base, steps, "%s connections, second is %s: %s" % (
                        "thread-safe" if safe else "plain", kind, text(steps[3:])))
    tally.done(n)


def calls(ctx):
    tally = Tally(ctx, "calls", ctx.where(SRV + ".call_from_thread"))
    n = 0
    try:
        w, st = build(ctx, True)
    except Undecided as e:
        tally("the server is followed", None, str(e))
        return tally.done(0)
    for thread in ("loop", "other"):
        for fails in (False, True):
            for gone in (False, True):
                if gone and thread == "loop":
                    continue
                n += 1
                sit = "from the %s thread%s%s" % (thread, ", the function raises" if fails else "",
                                                  ", the server is stopped" if gone else "")
                try:
                    o, st2 = w.call(st, "world", "calling", thread, fails, gone)
                except Undecided as e:
                    tally("a call from a thread is made", None, "%s: %s" % (sit, e))
                    continue
                if o.kind == "raise":
                    tally("a call from a thread does not raise", False, "%s: %s" % (sit, o.val))
                    continue
                got = [x for x in o.log if x[0] == "called"]
                tally("called once, in the loop's thread", got == ([] if gone else [
                    ("called", 1, "loop"), ("called", 2, "loop")]), "%s: %s" % (sit, got))
                res = [x for x in o.log if x[0] in ("first", "second")]
                bad = fails or gone
                tally("the future has the outcome", [x[1] for x in res] == [
                    "failed" if bad else "done"] * 2 and (bad or [x[2] for x in res] == [1, 2]),
                      "%s: %s" % (sit, res))
                tally("the caller does not wait for the loop, nor does the loop for itself", (
                    "returned", None if thread == "other" and not gone else "failed" if bad else "done")
                    in o.log, "%s: %s" % (sit, o.log))
    tally.done(n)


PARTS = [sends, calls]
