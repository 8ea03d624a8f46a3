"""The asynchronous client followed through histories of requests, answers, waits and losses.

The client is driven together with stand-ins for the I/O loop (with a clock and timers), the stream and
the futures, a few lines that are analysed with the rest and not run.  What a history completes, when and
with what, is judged by a list of pending requests kept beside it."""
import itertools

from .machine import Tally, Thing, Undecided, World
from .teval import Fails, Fut, Unknown
from .walk import Fun, Obj

M = "client."
EPS = 0.0625        # a timer fires this much after it is due
PROBE = '''
class ProbeTimer(object):
    def __init__(self, when, callback, args):
        self.when = when
        self.callback = callback
        self.args = args


class ProbeLoop(object):
    def __init__(self, world):
        self.world = world
        self.now = 100
        self.todo = []
        self.timers = []

    def time(self):
        return self.now

    def add_callback(self, callback, *args):
        self.todo.append((callback, args))

    def spawn_callback(self, callback, *args):
        self.todo.append((callback, args))

    def call_at(self, when, callback, *args):
        timer = ProbeTimer(when, callback, args)
        self.timers.append(timer)
        return timer

    def add_timeout(self, when, callback, *args):
        return self.call_at(when, callback, *args)

    def call_later(self, delay, callback, *args):
        return self.call_at(self.now + delay, callback, *args)

    def remove_timeout(self, timer):
        if timer in self.timers:
            self.timers.remove(timer)

    def turn(self):
        before = self.world.thread
        self.world.thread = "loop thread"
        while self.todo:
            callback, args = self.todo.pop(0)
            try:
                callback(*args)
            except AttributeError:
                self.world.record("attribute missing")
            except Exception:
                self.world.record("error", self.now)
        self.world.thread = before

    def first(self, until):
        found = None
        for timer in self.timers:
            if timer.when + self.world.eps <= until:
                if found is None or timer.when < found.when:
                    found = timer
        return found

    def wait(self, delay):
        self.turn()
        until = self.now + delay
        timer = self.first(until)
        while timer is not None:
            self.timers.remove(timer)
            if timer.when + self.world.eps > self.now:
                self.now = timer.when + self.world.eps
            self.add_callback(timer.callback, *timer.args)
            self.turn()
            timer = self.first(until)
        if until > self.now:
            self.now = until


class ProbeStream(object):
    def __init__(self, world):
        self.world = world
        self.open = True
        self.error = None
        self.socket = self
        self.on_close = None

    def getsockname(self):
        return ("host", 12345)

    def set_close_callback(self, callback):
        self.on_close = callback

    def set_nodelay(self, value):
        self.nodelay = value

    def write(self, data):
        if self.world.broken:
            raise IOError()
        self.world.wire(data)

    def close(self, exc_info=False):
        if self.open:
            self.open = False
            if self.on_close is not None:
                self.world.loop.add_callback(self.on_close)


class ProbeConnector(object):
    def __init__(self, world):
        self.world = world

    def connect(self, *args, **kwargs):
        self.world.stream = ProbeStream(self.world)
        return self.world.stream


class ProbeFlag(object):
    def __init__(self, flag):
        self.flag = flag

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def isSet(self):
        return self.flag

    def is_set(self):
        return self.flag

    def until_set(self, timeout=None):
        return None


class ProbeManager(object):
    def __init__(self, world):
        self.world = world

    def stop(self, timeout=None, callback=None):
        self.world.loop.add_callback(callback)


class ProbeMessage(object):
    def __init__(self, name):
        self.name = name


class ProbeFuture(object):
    def __init__(self, world):
        self.world = world
        self.number = world.number
        self.state = None

    def settle(self, state):
        if self.state is not None:
            raise ValueError()
        self.state = state

    def set_result(self, result):
        self.settle(("result",))
        self.world.record("replied", self.number, self.world.loop.now, result[0], ())
        self.world.record("collected", self.number, list(result[1]))

    def set_exc_info(self, info):
        self.settle(("error",))
        self.world.record("future fails", self.number)

    def set_exception(self, error):
        self.settle(("error",))
        self.world.record("future fails", self.number)

    def done(self):
        return self.state is not None


class ProbeUser(object):
    def __init__(self, world, number, how):
        self.world = world
        self.number = number
        self.how = how

    def reply(self, msg, *data):
        self.world.record("replied", self.number, self.world.loop.now, msg, data)
        if self.how == "raises":
            raise ValueError()
        if self.how == "asks again":
            self.how = "returns"
            self.world.again(self)

    def inform(self, msg, *data):
        self.world.record("informed", self.number, msg, data)
        if self.how == "raises":
            raise ValueError()


class ProbeWorld(object):
    def __init__(self, eps):
        self.eps = eps
        self.thread = "loop thread"
        self.loop = None
        self.client = None
        self.stream = None
        self.number = 0
        self.broken = False
        self.mids = {}

    def again(self, user):
        self.number = self.number + 1
        user.number = self.number
        self.record("asks", self.number)
        self.client.callback_request(Message.request("again"), reply_cb=user.reply, timeout=7)

    def ask(self, form, how, name, mid, use, timeout, data):
        self.number = self.number + 1
        self.record("asks", self.number)
        msg = Message.request(name, "1", mid=mid)
        if form == "plain":
            self.client.request(msg, use_mid=use)
        elif form == "future":
            if timeout is None:
                self.client.future_request(msg, use_mid=use)
            else:
                self.client.future_request(msg, timeout=timeout, use_mid=use)
        else:
            user = ProbeUser(self, self.number, how)
            inform = user.inform
            if how == "no informs":
                inform = None
            reply = user.reply
            if how == "no reply":
                reply = None
            self.client.callback_request(msg, reply_cb=reply, inform_cb=inform, user_data=data, timeout=timeout, use_mid=use)

    def drive(self, ops, ids, flags):
        client = self.client
        client.ioloop = self.loop
        client._ioloop_manager = ProbeManager(self)
        client._init_state_per_run(self.loop)
        client._tcp_client = ProbeConnector(self)
        client._running.set()
        client._stopped.clear()
        self.flags = flags
        self.supports(ids)
        self.one("connect", None)
        self.loop.turn()
        for op, arg in ops:
            self.record("op", op, self.loop.now)
            try:
                self.one(op, arg)
            except AttributeError:
                self.record("attribute missing")
            except Exception:
                self.record("escapes", op)
            self.loop.turn()
        self.record("op", "end", self.loop.now)
        self.record("left", len(self.loop.timers), len(self.client._async_queue))

    def supports(self, ids):
        if ids:
            self.client.preset_protocol_flags(self.flags[1])
        else:
            self.client.preset_protocol_flags(self.flags[0])

    def one(self, op, arg):
        if op == "ask":
            self.ask(*arg)
        elif op == "reply":
            self.client.handle_message(Message.reply(arg[0], "ok", arg[2], mid=self.mids.get(arg[1])))
        elif op == "inform":
            self.client.handle_message(Message.inform(arg[0], "x", arg[2], mid=self.mids.get(arg[1])))
        elif op == "wait":
            self.loop.wait(arg)
        elif op == "lose":
            if self.stream is not None:
                self.stream.close()
                self.stream = None
        elif op == "connect":
            if self.stream is not None:
                self.stream.close()
                self.loop.turn()
            self.broken = False
            self.client._connect()
        elif op == "ids":
            self.supports(arg)
        elif op == "break":
            self.broken = True
        elif op == "stop":
            if arg:
                self.thread = "main thread"
            self.client.stop()
            self.thread = "loop thread"
            self.loop.turn()
            self.stream = None
'''


def whole(cls, **kw):
    o = Obj(M + cls)
    o.__dict__.update(kw)
    o.__dict__["%whole"] = True
    return o


def text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


def models(ctx):
    world = lambda t: t.env[("root", "world")]

    def future(t, e):
        w = world(t)
        return whole("ProbeFuture", world=w, number=w.number, state=None)

    def wire(t, e):
        m = t.args(e)[0][0]
        if not isinstance(m, Obj):
            return bytes(m)
        return ("%s %s" % (m.name, text(m.mid))).encode()

    def string(t, e):
        try:
            return str(t.args(e)[0][0])
        except Unknown:
            return "an error"

    def message(kind):
        def f(t, e):
            a, kw = t.args(e)
            a = [x for x in a if not callable(x) and not (isinstance(x, tuple) and x[:1] == ("class",))]
            return whole("ProbeMessage", mtype=ctx.cconst("core.Message", kind.upper()), name=a[0],
                         arguments=list(a[1:]), mid=kw.get("mid"), kind=kind)
        return f
    out = {"_thread.get_ident": lambda t, e: world(t).thread,
           "get_thread_ident": lambda t, e: world(t).thread,
           "tornado_Future": future, "tornado.concurrent.Future": future, "bytes": wire,
           "AsyncEvent": lambda t, e: whole("ProbeFlag", flag=False),
           "MessageParser": lambda t, e: Thing("parser"), "IOLoopManager": lambda t, e: None,
           "address_to_string": lambda t, e: "host:7147", "str": string,
           "isEnabledFor": lambda t, e: False,
           "format": lambda t, e: t.ev(e.f[1]).format(*t.args(e)[0], **t.args(e)[1])}
    for n in ("reply", "inform", "request"):
        out["core.Message." + n] = message(n)
    return out


def make(ctx, timeout):
    w = World(ctx, models(ctx), while_max=40, loop_max=40)
    st = {}
    o, st = w.new(st, "world", M + "ProbeWorld", EPS)

    def wire(t, data):
        w = t.env[("root", "world")]
        name, mid = data.decode().rstrip("\n").split(" ")
        w.mids[w.number] = None if mid == "None" else mid.encode()
        t.log.append(("wire", w.number, name, w.mids[w.number]))
    st["world"].record = Fun("record", lambda t, *a: t.log.append(a))
    st["world"].wire = Fun("wire", wire)
    st["world"].mids = {"unknown": b"999"}

    def handlers(kind):
        f = Fun("unsolicited " + kind, lambda t, c, m: t.log.append(("unsolicited " + kind, m)))
        return {n: f for n in ("a", "b", "again")}
    o, st = w.new(st, "without", "core.ProtocolFlags", 5, 0, [b"M"])
    o, st = w.new(st, "with", "core.ProtocolFlags", 5, 0, [b"M", b"I"])
    o, st = w.new(st, "client", M + "AsyncClient", "host", 7147, timeout=timeout)
    world, cl = st["world"], st["client"]
    world.loop, world.client = whole("ProbeLoop", world=world, now=100, todo=[], timers=[]), cl
    cl.__dict__.update(ioloop_thread_id="loop thread", _reply_handlers=handlers("reply"),
                       _inform_handlers=handlers("inform"), _request_handlers={})
    return w, st


def play(ctx, ops, ids=True, timeout=4):
    if M + "ProbeWorld" not in ctx.p.classes:
        for src in PROBE.strip().split("\n\n\n"):
            ctx.probe("client", src)
    made = ctx.__dict__.setdefault("clients_made", {})
    if timeout not in made:
        made[timeout] = make(ctx, timeout)
    w, st = made[timeout]
    return w.call(st, "world", "drive", list(ops), ids, [st["without"], st["with"]])


class Reference(object):
    """The requests that are pending, and what completes them."""

    def __init__(self, ids, timeout):
        self.ids, self.timeout = ids, timeout
        self.pending, self.up, self.broken, self.n, self.used = [], True, False, 0, set()
        self.now, self.all = 100, {}

    def ask(self, form, how, name, mid, use, timeout, data):
        """(number, is it sent, is an id used)"""
        self.n += 1
        with_id = mid is not None or (self.ids if use is None else use)
        sent = self.up and (self.ids or not with_id)
        t = self.timeout if timeout is None else timeout
        if form != "plain":
            self.pending.append(dict(n=self.n, name=name, mid=with_id, how=how, form=form,
                                     data=data or (), informs=[], due=None if t is None else self.now + t))
            self.all[self.n] = self.pending[-1]
        return self.n, sent, with_id

    def find(self, name, which, mids):
        if which is not None and (which == "unknown" or mids.get(which) is not None):
            found = [r for r in self.pending if r["n"] == which]
            return found[0] if found else None
        same = [r for r in self.pending if r["name"] == name]
        return same[0] if same and not same[0]["mid"] else None

    def complete(self, r, why, out, lost=False, name=None):
        """r is completed, and may ask again."""
        if r in self.pending:
            self.pending.remove(r)
        if r["how"] != "no reply":
            out.append((r["n"], self.now, why, name or r["name"]))
        if r["how"] == "asks again":
            self.ask("callback", "returns", "again", None, None, 7, None)
            if self.broken and self.up:
                self.lose(out)
            elif lost or not self.up:
                self.complete(self.pending[-1], "fail", out)

    def lose(self, out):
        self.up = self.broken = False
        for r in list(self.pending):
            self.complete(r, "fail", out, True)


def judge(ctx, tally, ops, ids=True, timeout=4):
    told = "%s%s: %s" % ("" if ids else "without ids, ", "timeout %s" % timeout, "; ".join(
        "%s %s" % (o, "" if a is None else " ".join(
            text(x) for x in a if x is not None) if isinstance(a, tuple) else a) for o, a in ops))
    try:
        o, st = play(ctx, ops, ids, timeout)
    except Undecided as e:
        tally("histories followed", None, "%s: %s" % (told, e))
        return
    if o.kind != "return" or ("attribute missing",) in o.log:
        tally("histories followed", None, "%s: %s" % (told, o.val))
        return
    tally("histories followed", True)
    ref = Reference(ids, timeout)
    parts, mids = [], {}
    for x in o.log:
        if x[0] == "op":
            parts.append((x, []))
        elif x[0] == "left":
            left = x
        elif parts:
            parts[-1][1].append(x)
        if x[0] == "wire":
            mids[x[1]] = x[3]
    done = set()
    for i, ((op, arg), (head, log)) in enumerate(zip(ops, parts)):
        ref.now = head[2]
        until = parts[i + 1][0][2]
        out, informs, loose, refused = [], [], [], False
        if op == "ask":
            n, sent, with_id = ref.ask(*arg)
            wire = [x for x in log if x[0] == "wire" and x[1] == n]
            if ref.broken and sent:
                tally("what cannot be sent is not sent", not wire, told)
                ref.lose(out)
            elif not sent:
                tally("what cannot be sent is not sent", not wire, told)
                refused = arg[0] == "plain"
                if not refused:
                    ref.complete(ref.pending[-1], "fail", out)
                    loose = None if arg[1] == "no reply" else loose
            else:
                tally("a request is sent once", len(wire) == 1, "%s: %s" % (told, wire))
                for x in wire[:1]:
                    tally("an id is sent exactly when ids are in use", (x[3] is not None) == with_id,
                          "%s: %s" % (told, x))
                    if arg[3] is not None:
                        tally("a given id is kept", x[3] == arg[3], "%s: %s" % (told, x))
                    elif x[3] is not None:
                        tally("an automatic id is new", x[3] not in ref.used, "%s: %s" % (told, x))
                    ref.used.add(x[3])
        elif op in ("reply", "inform"):
            r = ref.find(arg[0], arg[1], mids)
            if r is None or r["how"] == "no informs" and op == "inform":
                loose.append(("unsolicited " + op, arg[2]))
            elif op == "reply":
                ref.complete(r, "ok", out, name=arg[0])
                if r["how"] == "no reply":
                    loose = None
            else:
                r["informs"].append(arg[2])
                if r["form"] != "future":
                    informs.append((r["n"], arg[2], r["data"]))
        elif op == "wait":
            while True:
                first = [r for r in ref.pending if r["due"] is not None and r["due"] + EPS <= until]
                if not first:
                    break
                r = min(first, key=lambda x: x["due"])
                ref.now = max(ref.now, r["due"] + EPS)
                ref.complete(r, "fail", out)
        elif op in ("lose", "stop") or op == "connect" and ref.up:
            ref.lose(out)
            ref.up = op == "connect"
        elif op == "connect":
            ref.up = True
        elif op == "ids":
            ref.ids = arg
        elif op == "break":
            ref.broken = ref.up
        if op == "connect":
            ref.broken = False
        got = [(x[1], x[2], plain(x[3].arguments[0]), x[3].name) for x in log if x[0] == "replied"]
        again = [x for x in got if x[0] in done]
        done |= {x[0] for x in got}
        what = {"ask": "a request that is not sent fails", "reply": "a reply completes its request",
                "inform": "an inform completes nothing", "wait": "a timeout fails its request",
                "lose": "a lost connection fails what is pending", "stop": "stopping fails what is pending",
                "connect": "connecting fails what is pending", "break": "nothing completes by itself",
                "ids": "nothing completes by itself"}[op]
        tally("completed at most once", not again, "%s: %s" % (told, again))
        tally(what, sorted(got) == sorted(out), "%s: at %s %s: %s, not %s" % (told, op, arg, got, out))
        byn = {}
        for x in log:
            if x[0] == "collected":
                byn[x[1]] = [plain(m.arguments[1]) for m in x[2]]
        told_inf = [(x[1], plain(x[2].arguments[1]), tuple(x[3])) for x in log if x[0] == "informed"]
        if op == "inform":
            tally("an inform reaches its request only", told_inf == informs, "%s: %s, not %s" % (
                told, told_inf, informs))
        else:
            tally("no inform by itself", not told_inf, "%s: %s" % (told, told_inf))
        odd = [(x[0], plain(x[1].arguments[1])) for x in log if x[0].startswith("unsolicited")]
        if loose is not None:
            tally("what matches no request is unsolicited", odd == loose, "%s: %s, not %s" % (
                told, odd, loose))
        for x in log:
            if x[0] == "replied" and x[3].arguments[0] in ("ok", b"ok"):
                tally("with the reply that came", plain(x[3].arguments[1]) == arg[2], told)
            if x[0] == "replied" and x[1] in ref.all:
                tally("with its own user data", tuple(x[4]) == ref.all[x[1]]["data"], "%s: %s" % (told, x[4]))
        for n, inf in byn.items():
            tally("a future has the informs of its request", n in ref.all and inf == ref.all[n]["informs"], "%s: %s" % (told, inf))
        esc = [x for x in log if x[0] in ("escapes", "error", "future fails")]
        tally("errors go to the caller only where nothing completes", bool(esc) == refused and len(esc) < 2,
              "%s: at %s: %s" % (told, op, esc))
    timers = sum(r["due"] is not None for r in ref.pending)
    tally("the timeouts of pending requests are left", left[1] == timers, "%s: %d timers, not %d" % (
        told, left[1], timers))
    tally("what completed is forgotten", left[2] == len(ref.pending), "%s: %d pending, not %d" % (
        told, left[2], len(ref.pending)))


def plain(x):
    return x.decode() if isinstance(x, bytes) else x


def ask(form="callback", how="returns", name="a", mid=None, use=None, timeout=None, data=None):
    return ("ask", (form, how, name, mid, use, timeout, data))


LOSSES = [("lose", None), ("connect", None), ("break", None), ("stop", True), ("stop", False)]


def histories(n, ops, prefix=()):
    """Sequences of operations after a prefix; answers only to requests already made, none after a stop."""
    for seq in itertools.product(ops, repeat=n):
        out, made, ok = [], 0, True
        for i, (op, arg) in enumerate(tuple(prefix) + seq):
            made += op == "ask"
            if op in ("reply", "inform"):
                if isinstance(arg[1], int) and arg[1] > made:
                    ok = False
                arg = (arg[0], arg[1], "m%d" % i)
            if op == "stop" and i < len(prefix) + n - 1:
                ok = False
            out.append((op, arg))
        given = [a[3] for o, a in out if o == "ask" and a[3] is not None]
        if ok and len(given) == len(set(given)):
            yield out


def followed(ctx, part, runs):
    """runs: (operations, length, prefix, settings)"""
    tally = Tally(ctx, part, ctx.where(M + "AsyncClient.callback_request"))
    k = 0
    for ops, n, prefix, kw in runs:
        for h in histories(n, ops, prefix):
            k += 1
            judge(ctx, tally, h, **kw)
    tally.done(k)


ANSWERS = [("reply", ("a", 1)), ("reply", ("a", 2)), ("reply", ("a", None))]


def completions(ctx):
    """Requests completed by replies, timeouts, losses and the end of the client."""
    ops = [ask(), ask(timeout=2, data=("u", 1)), ask(how="raises", name="b", timeout=6), ask("future"),
           ask(how="asks again", name="b", timeout=2), ask(how="no reply", name="b")] + ANSWERS + [
        ("wait", 3), ("wait", 10)] + LOSSES
    two = (ask(how="raises"), ask("future", timeout=2))
    followed(ctx, "histories", [
        (ops, 2, (), {}), (ops, 2, two, {}), (ops, 2, (ask(how="asks again"),), {"ids": False}),
        (ops, 1, two, {"timeout": None})] + ([
            (ops, 3, (), {}), (ops, 2, two, {"timeout": None}), (ops, 2, two, {"ids": False})]
            if ctx.deep else []))


def matches(ctx):
    """Replies and informs with the id of a request, another id or none."""
    ops = [(op, (name, which)) for op in ("reply", "inform") for name in ("a", "b")
           for which in (1, 2, 3, None, "unknown") if which is None or name == "a"]
    some = (ask(data=("u",)), ask("future"), ask(how="no informs", name="b"))
    none = (ask("future", use=False), ask(data=("u", 2), use=False), ask("future", name="b", use=False))
    mixed = (ask(use=False), ask("future"), ask(name="a", mid=b"given", data=()))
    more = [ask(name="b"), ask("future", use=False), ("wait", 10), ("lose", None)]
    followed(ctx, "histories", [(ops, 2, some, {}), (ops, 2, none, {}), (ops, 2, mixed, {})] + (
        [(ops + more, 3, x, {}) for x in (some, none, mixed)] if ctx.deep else []))


def ids(ctx):
    """Requests with and without ids of servers with and without support, over several connections."""
    ops = [ask(), ask(use=True), ask(use=False), ask(mid=b"given"), ask(mid=b"mine", use=False),
           ask("future", use=True), ask("plain"), ask("plain", use=True), ask("plain", mid=b"own"),
           ("ids", True), ("ids", False), ("lose", None), ("connect", None), ("reply", ("a", 1))]
    followed(ctx, "histories", [(ops, 2, (), {}), (ops, 2, (), {"ids": False}),
                                (ops, 2, (ask(), ask("plain")), {})] + (
        [(ops, 3, (), {}), (ops, 3, (), {"ids": False})] if ctx.deep else []))
