"""Sampling strategies followed through histories of updates, waits and cancellation.

A strategy is driven together with stand-ins for the I/O loop (with a clock and timers) and the sensor,
a few lines that are analysed with the rest and not run.  What a history reports, and when, is judged by
what the definition of the strategy asks for."""
import itertools

from .machine import Tally, Thing, Undecided, World
from .teval import Fails, Fut
from .walk import Fun, Obj

M = "sampling."
EPS = 0.0625        # a timer fires this much after it is due
PROBE = '''
class ProbeTimer(object):
    def __init__(self, when, callback, args):
        self.when = when
        self.callback = callback
        self.args = args


class ProbeLoop(object):
    def __init__(self, world):
        self.world = world
        self.now = 100
        self.todo = []
        self.timers = []

    def time(self):
        return self.now

    def add_callback(self, callback, *args):
        self.todo.append((callback, args))

    def call_at(self, when, callback, *args):
        timer = ProbeTimer(when, callback, args)
        self.timers.append(timer)
        return timer

    def add_timeout(self, when, callback, *args):
        return self.call_at(when, callback, *args)

    def call_later(self, delay, callback, *args):
        return self.call_at(self.now + delay, callback, *args)

    def remove_timeout(self, timer):
        if timer in self.timers:
            self.timers.remove(timer)

    def turn(self):
        before = self.world.thread
        self.world.thread = "loop thread"
        while self.todo:
            callback, args = self.todo.pop(0)
            try:
                callback(*args)
            except Exception:
                self.world.record("error", self.now)
        self.world.thread = before

    def first(self, until):
        found = None
        for timer in self.timers:
            if timer.when + self.world.eps <= until:
                if found is None or timer.when < found.when:
                    found = timer
        return found

    def wait(self, delay):
        self.turn()
        until = self.now + delay
        fired = 0
        timer = self.first(until)
        while timer is not None:
            self.timers.remove(timer)
            if timer.when + self.world.eps > self.now:
                self.now = timer.when + self.world.eps
            self.add_callback(timer.callback, *timer.args)
            self.turn()
            fired = fired + 1
            if fired > 12:
                self.world.record("runs away", self.now)
                self.timers = []
            timer = self.first(until)
        if until > self.now:
            self.now = until


class ProbeSensor(object):
    def __init__(self, world, stype, number, reading):
        self.world = world
        self.name = "probe"
        self.type = stype
        self.stype = stype
        self._sensor_type = number
        self.reading = reading
        self.observers = []

    def attach(self, observer):
        if observer not in self.observers:
            self.observers.append(observer)

    def detach(self, observer):
        if observer in self.observers:
            self.observers.remove(observer)

    def read(self):
        return self.reading

    def set(self, reading):
        self.reading = reading
        for observer in list(self.observers):
            if self.world.handed_over:
                self.world.wrapped(observer, self, reading)
            else:
                observer.update(self, reading)


class ProbeWorld(object):
    def __init__(self, eps, handed_over):
        self.eps = eps
        self.handed_over = handed_over
        self.thread = "main thread"
        self.loop = None
        self.sensor = None
        self.strategy = None
        self.fails = False

    def told(self, sensor, reading):
        self.record("sent", self.loop.now, reading)
        if self.fails:
            raise ValueError()

    def refuses(self, make):
        try:
            self.strategy = make(self.told, self.sensor, *self.params, ioloop=self.loop)
        except ValueError:
            return "refused"
        return "made"

    def drive(self, ops):
        def plain(observer, sensor, reading):
            observer.update(sensor, reading)
        self.wrapped = update_in_ioloop(plain)
        for op, arg in ops:
            if op == "make":
                self.record("makes", self.refuses(arg))
            elif op == "start":
                self.strategy.start()
            elif op == "set":
                self.record("set", self.loop.now, arg)
                self.sensor.set(arg)
            elif op == "set in loop":
                self.loop.turn()
                self.record("set", self.loop.now, arg)
                self.thread = "loop thread"
                self.sensor.set(arg)
                self.thread = "main thread"
            elif op == "wait":
                self.loop.wait(arg)
                self.record("waited", self.loop.now)
            elif op == "stall":
                self.loop.now = self.loop.now + arg
            elif op == "cancel":
                self.strategy.cancel()
                self.record("cancelled", self.loop.now)
            elif op == "fail":
                self.fails = arg
        self.record("end", self.loop.now, self.sensor.observers, self.loop.timers)
'''


def whole(cls, **kw):
    o = Obj(M + cls)
    o.__dict__.update(kw)
    o.__dict__["%whole"] = True
    return o


def models(ctx):
    world = lambda t: t.env[("root", "world")]
    return {"_thread.get_ident": lambda t, e: world(t).thread,
            "get_thread_ident": lambda t, e: world(t).thread}


def play(ctx, cls, params, stype, ops, start=(1, "ok", 0), eps=EPS):
    """The log of one history."""
    if M + "ProbeWorld" not in ctx.p.classes:
        for src in PROBE.strip().split("\n\n\n"):
            ctx.probe("sampling", src)
    w = World(ctx, models(ctx), while_max=30, loop_max=30)
    st = {}
    f = ctx.p.lookup(ctx.p.cls(M + cls), "update")
    number = ctx.cconst("core.Sensor", stype.upper())
    o, st = w.new(st, "world", M + "ProbeWorld", eps, bool(f and f.has_deco("update_in_ioloop")))
    world = st["world"]
    world.record = Fun("record", lambda t, *a: t.log.append(a))
    world.loop = whole("ProbeLoop", world=world, now=100, todo=[], timers=[])
    world.sensor = whole("ProbeSensor", world=world, name="probe", type=stype, stype=stype,
                         _sensor_type=number, reading=start, observers=[])
    o, st = w.new(st, "s", M + cls, world_told(world), world.sensor, *params, ioloop=world.loop)
    if o.kind == "raise":
        return o, None
    st["world"].strategy = st["s"]
    o, st = w.call(st, "world", "drive", [("start", None)] + list(ops))
    return o, o.log


def world_told(world):
    def told(t, sensor, reading):
        t.log.append(("sent", t.env[("root", "world")].loop.now, reading))
        if t.env[("root", "world")].fails:
            raise Fails("ValueError")
    return Fun("told", told)


SHORT, LONG, STEP, PERIOD = 2, 5, 3, 3
RATES = {"SampleEventRate": (SHORT, LONG, None), "SampleEvent": (0, None, None),
         "SampleDifferentialRate": (SHORT, LONG, STEP)}
KINDS = (("SampleEventRate", (SHORT, LONG), "integer"), ("SampleEvent", (), "integer"),
         ("SampleDifferentialRate", (STEP, SHORT, LONG), "float"), ("SampleAuto", (), "integer"),
         ("SampleDifferential", (STEP,), "integer"), ("SamplePeriod", (PERIOD,), "integer"))
# a status is a place in the list of statuses a run is made with
OPS = (("set", (0, 5)), ("set", (0, 2)), ("set", (1, 5)), ("set in loop", (0, 9)),
       ("wait", 1), ("wait", 6), ("stall", 3), ("cancel", None))


def histories(n, statuses, ops=OPS):
    """Sequences of operations; each reading has its own timestamp."""
    for seq in itertools.product(ops, repeat=n):
        if sum(o[0] == "cancel" for o in seq) > 1:
            continue
        out = []
        for i, (op, arg) in enumerate(seq):
            out.append((op, (10 + i, statuses[arg[0]], arg[1]) if op.startswith("set") else arg))
        yield out


def told_of(seq):
    return " ".join("%s %s" % (o, "" if a is None else a[1:] if isinstance(a, tuple) else a)
                    for o, a in seq).strip()


class Judge(object):
    """What a log has to satisfy, whatever the strategy is made of."""

    def __init__(self, cls, start, tally, told, eps=EPS):
        self.cls, self.start, self.tally, self.told, self.eps = cls, start, tally, told, eps
        self.rate = RATES.get(cls)

    def __call__(self, log):
        sets, sent, times, since, cancelled = [self.start], [], [], [], False
        for x in log:
            if x[0] == "set":
                sets.append(x[2])
                if sent:
                    since.append(x[2])
            elif x[0] == "sent":
                t, r = x[1:]
                if cancelled:
                    self.say("nothing is sent after cancelling", False, "%s at %s" % (r, t - 100))
                self.check_sent(t, r, sets, sent, times, since)
                sent.append(r)
                times.append(t)
                since = []
            elif x[0] == "waited":
                if not cancelled:
                    self.check_waited(x[1], sets, sent, times)
            elif x[0] == "cancelled":
                cancelled = True
                self.say("nothing is sent after cancelling", True)
            elif x[0] == "error":
                self.say("no callback fails", False, "an error in the loop at %s" % (x[1] - 100))
            elif x[0] == "runs away":
                self.say("timers do not run away", False, "at %s" % (x[1] - 100))
            elif x[0] == "end":
                if cancelled:
                    self.say("nothing is left after cancelling", not x[2] and not x[3],
                             "observers %s, timers %s" % (len(x[2]), len(x[3])))

    def say(self, what, ok, msg=""):
        self.tally("%s: %s" % (self.cls, what), ok, "%s: %s" % (self.told, msg))

    def changed(self, r, last):
        step = STEP if "Differential" in self.cls else 0
        return r[1] != last[1] or abs(r[2] - last[2]) > step

    def check_sent(self, t, r, sets, sent, times, since):
        self.say("what is sent is a reading of the sensor", r in sets, str(r))
        if r not in sets:
            return
        if self.cls == "SamplePeriod":
            self.say("the present reading is sent", r == sets[-1], str(r))
            return
        if not sent:
            return
        self.say("nothing older than the last report is sent",
                 sets.index(r) >= sets.index(sent[-1]), str(r))
        if self.rate is None:
            return
        short, long, _ = self.rate
        gap = t - times[-1]
        self.say("never twice within the shortest period", gap >= short, "after %s" % gap)
        differs = self.changed(r, sent[-1]) or any(self.changed(x, sent[-1]) for x in since)
        self.say("sent only for a change or after the longest period",
                 differs or (long is not None and gap >= long), "%s after %s" % (r, gap))

    def check_waited(self, now, sets, sent, times):
        self.say("a first report is sent", bool(sent), "at %s" % (now - 100))
        if not sent:
            return
        if self.rate is not None:
            short, long, _ = self.rate
            self.say("a change is not lost", not self.changed(sets[-1], sent[-1]) or
                     now < times[-1] + short + self.eps, "%s is not reported at %s" % (sets[-1], now - 100))
            if long is not None:
                self.say("a report at least every longest period", now < times[-1] + long + self.eps,
                         "nothing from %s to %s" % (times[-1] - 100, now - 100))
        elif self.cls == "SamplePeriod":
            due = int((now - self.eps - times[0]) // PERIOD) + 1 if now - self.eps > times[0] else 1
            self.say("no more reports than periods", len(sent) <= int(
                (now - times[0]) // PERIOD) + 1, "%d reports" % len(sent))
            if "stall" not in self.told:
                self.say("a report every period", len(sent) >= due, "%d reports at %s, %d due"
                         % (len(sent), now - 100, due))
            else:
                self.say("reports go on", now < times[-1] + PERIOD + self.eps, "")
        else:
            i = sets.index(sent[0]) if sent[0] in sets else 0
            want = [sent[0]]
            for r in sets[i + 1:]:
                if self.cls == "SampleAuto" or self.changed(r, want[-1]):
                    want.append(r)
            self.say("each update it asks for is reported, in order", sent == want,
                     "%s, not %s" % (sent, want))


TAIL = (("wait", 3), ("wait", 6), ("cancel", None), ("wait", 9))


def follow(ctx, part, about, n, only=None, befores=((),), want=None,
           statuses=("UNKNOWN", "ERROR")):
    """Enumerate histories; obligations of the kinds about(kind) go to part.  want(seq): which
    histories to take."""
    statuses = [ctx.cconst("core.Sensor", x) for x in statuses]
    for cls, params, stype in KINDS:
        q = M + cls
        if only is not None and cls not in only or not ctx.p.lookup(ctx.p.cls(q), "update"):
            continue
        full = Tally(ctx, part, ctx.where(q + ".__init__") if ctx.p.has_func(
            q + ".__init__") else q)

        def tally(what, ok, msg="", full=full):
            if about(what):
                full(what, ok, msg)
        k = 0
        for seq, before in itertools.product(histories(n, statuses), befores):
            if want is not None and not want(seq):
                continue
            k += 1
            ops = list(before) + seq + [x for x in TAIL if x[0] != "cancel" or all(
                o[0] != "cancel" for o in seq)]
            start = (1, statuses[0], 0)
            told = told_of(ops)
            eps = 0.5 if cls == "SamplePeriod" else EPS
            try:
                o, log = play(ctx, cls, params, stype, ops, start, eps)
            except Undecided as e:
                tally("%s: histories followed" % cls, None, "%s: %s" % (told, e))
                continue
            if log is None:
                tally("%s: histories followed" % cls, None, "%s: %s %s" % (told, o.kind, o.val))
                continue
            tally("%s: starting, cancelling and updating do not fail" % cls, o.kind == "return",
                  "%s: %s" % (told, o.val))
            Judge(cls, start, tally, told, eps)(log)
        full.done(k)


# -- the server's side --------------------------------------------------------

SERVER = '''
class ProbeNamed(object):
    def __init__(self, world, name):
        self.world = world
        self.name = name
        self.type = "integer"
        self.stype = "integer"
        self._sensor_type = world.number
        self.reading = world.first
        self.observers = []

    def attach(self, observer):
        if observer not in self.observers:
            self.observers.append(observer)

    def detach(self, observer):
        if observer in self.observers:
            self.observers.remove(observer)

    def read(self):
        return self.reading

    def format_reading(self, reading, major):
        return reading

    def set(self, reading):
        self.reading = reading
        for observer in list(self.observers):
            if self.world.handed_over(observer):
                self.world.wrapped(observer, self, reading)
            else:
                observer.update(self, reading)


class ProbeMessage(object):
    def __init__(self, arguments):
        self.arguments = arguments


class ProbeAnswer(object):
    def __init__(self):
        self.state = None


class ProbeRequest(object):
    def __init__(self, connection):
        self.client_connection = connection

    def make_reply(self, *args):
        return ("reply",) + args


class ProbeConnection(object):
    def __init__(self, world, label):
        self.world = world
        self.label = label

    def inform(self, msg):
        self.world.record("inform", self.label, msg)

    def flush_on_close(self):
        return None


class ProbeServer(object):
    def __init__(self, eps):
        self.eps = eps
        self.thread = "main thread"
        self.loop = None
        self.server = None

    def drive(self, ops):
        def plain(observer, sensor, reading):
            observer.update(sensor, reading)
        self.wrapped = update_in_ioloop(plain)
        for op, who, arg in ops:
            self.record("op", op)
            if op == "ask":
                self.ask(self.clients[who], arg)
            elif op == "set":
                self.sensors[who].set(arg)
            elif op == "wait":
                self.loop.wait(arg)
            elif op == "remove":
                self.server.remove_sensor(who)
            elif op == "leave":
                self.server.on_client_disconnect(self.clients[who], "bye", False)
            self.loop.turn()
        self.record("end", [(s.name, len(s.observers)) for s in self.sensors.values()],
                    len(self.loop.timers))

    def ask(self, client, arguments):
        answer = self.server.request_sensor_sampling(ProbeRequest(client), ProbeMessage(list(arguments)))
        self.loop.turn()
        self.record("reply", answer.state)
'''


def serve(ctx, major, ops, bulk=True):
    """The log of requests and updates at a server with two clients and two sensors."""
    for cls, src in (("ProbeWorld", PROBE), ("ProbeServer", SERVER)):
        if M + cls not in ctx.p.classes:
            for x in src.strip().split("\n\n\n"):
                ctx.probe("sampling", x)

    def chain(t, e):
        a, b = t.args(e)[0]
        if isinstance(a, Fut) and b.state is None:
            b.state = ("error", a.exc) if a.exc else a.val
    deco = {c.qual for c in ctx.p.classes.values() if c.qual.startswith(M) and (
        lambda f: f and f.has_deco("update_in_ioloop"))(ctx.p.lookup(c, "update"))}
    w = World(ctx, dict(models(ctx), **{
        "Future": lambda t, e: whole("ProbeAnswer", state=None), "chain_future": chain,
        "format_inform_v5": lambda t, e: ("v5", t.args(e)[0][0].name) + tuple(t.args(e)[0][1:]),
        "format_inform_v4": lambda t, e: ("v4", t.args(e)[0][0].name) + tuple(t.args(e)[0][1:])}),
        while_max=30, loop_max=30)
    st = {}
    o, st = w.new(st, "pi", "core.ProtocolFlags", major, 1,
                  [b"M"] + ([b"I"] + [b"B"] * bulk if major >= 5 else []))
    o, st = w.new(st, "world", M + "ProbeServer", EPS)
    world = st["world"]
    world.record = Fun("record", lambda t, *a: t.log.append(a))
    world.number, world.first = ctx.cconst("core.Sensor", "INTEGER"), (1, 0, 0)
    world.loop = whole("ProbeLoop", world=world, now=100, todo=[], timers=[])
    world.clients = {c: whole("ProbeConnection", world=world, label=c) for c in "AB"}
    world.sensors = {n: whole("ProbeNamed", world=world, name=n, type="integer", stype="integer",
                              _sensor_type=world.number, reading=world.first, observers=[])
                     for n in ("s1", "s2")}
    world.handed_over = Fun("handed_over", lambda t, x: x.__dict__["%cls"] in deco)
    srv = Obj("server.DeviceServer")
    srv.__dict__.update(PROTOCOL_INFO=st["pi"], ioloop=world.loop, _sensors=dict(world.sensors),
                        _strategies={c: {} for c in world.clients.values()},
                        _client_conns=set(world.clients.values()),
                        _server=Thing("socket server", ioloop_thread_id="loop thread"))
    world.server = srv
    return w.call(st, "world", "drive", list(ops))


def text(x):
    return x.decode() if isinstance(x, bytes) else str(x)


class Reference(object):
    """What clients, sensors and strategies in force come to."""

    OBSERVING = ("auto", "event", "differential", "event-rate", "differential-rate")
    COUNT = {"none": 0, "auto": 0, "event": 0, "period": 1, "differential": 1, "event-rate": 2,
             "differential-rate": 3}

    def __init__(self, major, bulk, first, statuses):
        self.major, self.bulk = major, bulk and major >= 5
        self.sensors = {"s1": first, "s2": first}
        self.known = {"s1", "s2"}
        self.force, self.last = {}, {}
        self.statuses = statuses

    def ask(self, c, args):
        """(expected reply or None for a refusal, expected informs)"""
        args = [text(a) for a in args]
        names = args[0].split(",")
        if len(args) == 1:
            if len(names) > 1 or names[0] not in self.known:
                return None, []
            got = self.force.get((c, names[0]), ("none",))
            return (args[0],) + got, []
        if len(names) > 1 and not self.bulk or any(n not in self.known for n in names):
            return None, []
        strategy, params = args[1], args[2:]
        if self.COUNT.get(strategy) != len(params) or self.major < 5 and "rate" in strategy:
            return None, []
        try:
            v = [float(p) for p in params]
        except ValueError:
            return None, []
        if strategy in ("period", "differential") and v[0] <= 0 or \
                strategy == "event-rate" and not 0 <= v[0] <= v[1] or \
                strategy == "differential-rate" and (v[0] <= 0 or not 0 <= v[1] <= v[2]):
            return None, []
        out = []
        for n in dict.fromkeys(names):
            if strategy == "none":
                self.force.pop((c, n), None)
            else:
                self.force[c, n] = (strategy,) + tuple(params)
                self.last[c, n] = self.sensors[n]
                out.append((c, n, self.sensors[n]))
        return (args[0], strategy) + tuple(params), out

    def set(self, n, reading):
        self.sensors[n] = reading
        out = []
        for (c, s), f in self.force.items():
            if s == n and n in self.known:
                was = self.last[c, s]
                if f[0] == "auto" or f[0] == "event" and reading[1:] != was[1:] or \
                        f[0] == "differential" and (reading[1] != was[1] or abs(
                            reading[2] - was[2]) > float(f[1])):
                    out.append((c, n, reading))
                    self.last[c, s] = reading
        return out

    def remove(self, n):
        self.known.discard(n)
        for k in [k for k in self.force if k[1] == n]:
            del self.force[k]

    def leave(self, c):
        for k in [k for k in self.force if k[0] == c]:
            del self.force[k]


def judge_served(ctx, tally, major, ops, bulk=True):
    told = "v%d%s: %s" % (major, "" if bulk else " without bulk", "; ".join("%s %s %s" % (
        o, w or "", " ".join(text(x) for x in a) if isinstance(a, tuple) else a or "")
        for o, w, a in ops))
    try:
        o, st = serve(ctx, major, ops, bulk)
    except Undecided as e:
        tally("requests followed", None, "%s: %s" % (told, e))
        return None
    if o.kind != "return":
        tally("requests followed", False, "%s: %s" % (told, o.val))
        return None
    ref = Reference(major, bulk, (1, 0, 0), ())
    parts, cur = [], None
    for x in o.log:
        if x[0] == "op":
            cur = []
            parts.append(cur)
        elif x[0] == "end":
            end = x
        else:
            cur.append(x)
    last = None
    for (op, who, arg), log in zip(ops, parts):
        inf = [(x[1], x[2][1], tuple(x[2][2:])) for x in log if x[0] == "inform"]
        tags = {x[2][0] for x in log if x[0] == "inform"}
        tally("informs are of the protocol in force", tags <= {"v%d" % major}, told)
        periodic = []
        if op == "ask":
            want, out = ref.ask(who, arg)
            rep = [x[1] for x in log if x[0] == "reply"]
            got = rep[0] if rep else None
            refused = isinstance(got, tuple) and (got[0] == "error" or got[:2] == ("reply", "fail"))
            if not (isinstance(got, tuple) and got):
                tally("a request is answered", False, "%s: %s" % (told, got))
            elif want is None:
                tally("what cannot be set is refused", refused, "%s: %s" % (told, got))
            else:
                ok = got[:2] == ("reply", "ok")
                tally("what can be set is accepted", ok, "%s: %s" % (told, got))
                if ok:
                    back = tuple(text(x) for x in got[2:])
                    tally("the reply names what is in force", back == want, "%s: %s, not %s" % (
                        told, back, want))
                    last = back
        elif op == "set":
            out = ref.set(who, arg)
        elif op == "remove":
            out = []
            ref.remove(who)
        elif op == "leave":
            out = []
            ref.leave(who)
        else:
            out = []
            periodic = [k for k, f in ref.force.items() if f[0] not in ("auto", "event", "differential")]
        extra = [x for x in inf if x[:2] not in periodic]
        tally("exactly the strategies in force report", sorted(extra) == sorted(out),
              "%s: at %s %s: %s, not %s" % (told, op, who, extra, out))
        if op == "wait":
            for k in periodic:
                tally("timed reports go on", any(x[:2] == k for x in inf), told)
    obs = {n: sum(1 for (c, s), f in ref.force.items() if s == n and f[0] in ref.OBSERVING)
           for n in ref.sensors}
    tally("no observer is left", dict(end[1]) == obs, "%s: observers %s, not %s" % (told, end[1], obs))
    if not any("rate" in f[0] for f in ref.force.values()):
        n = sum(1 for f in ref.force.values() if f[0] == "period")
        tally("no timer is left", end[2] == n, "%s: %d timers, not %d" % (told, end[2], n))
    return last


ASKS = [("ask", "A", x) for x in (
    (b"s1", b"auto"), (b"s1", b"event"), (b"s1", b"none"), (b"s1", b"bogus"),
    (b"s1", b"differential", b"3"), (b"s1", b"differential", b"-1"), (b"s1",), (b"s1,s2", b"event"),
    (b"s2,s1", b"period", b"3"), (b"s1,zz", b"auto"), (b"s1,s2", b"none"))] + [
        ("ask", "B", (b"s1", b"auto"))]
MOVES = [("set", "s1", 1), ("set", "s1", 5), ("wait", None, 4), ("remove", "s1", None),
         ("leave", "A", None)]


def sessions(n, prefix=()):
    for seq in itertools.product(ASKS + MOVES, repeat=n):
        out, value, gone, removed = [], 0, False, False
        for i, (op, who, arg) in enumerate(tuple(prefix) + seq + (("set", "s1", 5), ("wait", None, 4),
                                                                  ("set", "s2", 5))):
            if gone and op in ("ask", "leave") and who == "A" or removed and op == "remove":
                break
            gone, removed = gone or op == "leave", removed or op == "remove"
            if op == "set":
                value += arg
                arg = (10 + i, 0, value)
            out.append((op, who, arg))
        else:
            yield out


def requests(ctx, part, about, runs):
    """runs: (protocol version, bulk, length, prefix)"""
    full = Tally(ctx, part, ctx.where("server.DeviceServer.request_sensor_sampling"))
    k = 0

    def tally(what, ok, msg=""):
        if about(what):
            full(what, ok, msg)
    for major, bulk, n, prefix in runs:
        for ops in sessions(n, prefix):
            k += 1
            judge_served(ctx, tally, major, ops, bulk)
    full.done(k)


def reports(ctx, part):
    """What is reported as being in force can be used to set it again."""
    tally = Tally(ctx, part, ctx.where("server.DeviceServer.request_sensor_sampling"))
    k = 0
    odd = [n for n in range(1, 10000) if int(n * 0.001 * 1000) != n]
    ms = [b"1", b"10", b"250", b"1000", b"3000"] + [b"%d" % n for n in odd[:3] + odd[-2:]]
    v5 = [(b"none",), (b"auto",), (b"event",), (b"period", b"3"), (b"period", b"0.1"),
          (b"differential", b"3"), (b"event-rate", b"2", b"5"), (b"event-rate", b"0.5", b"1.25"),
          (b"differential-rate", b"3", b"2", b"5")]
    bad = [(b"none", b"1"), (b"auto", b"1"), (b"event", b"1"), (b"period",), (b"period", b"0"),
           (b"period", b"x"), (b"differential",), (b"differential", b"0"), (b"event-rate", b"2"),
           (b"event-rate", b"5", b"2"), (b"differential-rate", b"2", b"5"), (b"unknown",),
           (b"differential-rate", b"0", b"2", b"5"), (b"differential-rate", b"1", b"5", b"2")]
    for major, bulk, args in itertools.chain(
            ((5, b, a) for b in (True, False) for a in v5 + bad),
            ((4, False, a) for a in v5 + bad if a[0] != b"period" or a in bad),
            ((4, False, (b"period", n)) for n in ms)):
        ops = [("ask", "A", (b"s1", b"auto")), ("ask", "A", (b"s1",) + args), ("ask", "A", (b"s1",))]
        back = judge_served(ctx, tally, major, ops, bulk)
        k += 1
        if back is None or args in bad or back[1:2] != (text(args[0]),):
            continue
        again = tuple(x.encode() for x in back)
        twice = judge_served(ctx, tally, major, [("ask", "A", again), ("ask", "A", (b"s1",))], bulk)
        tally("what is reported can be set again", twice == back, "v%d %s: %s" % (
            major, [text(x) for x in again], twice))
    tally.done(k)
