"""Group requests, group waits and sensor waits are followed as abstract machines over stand-ins for the
clients, futures and the I/O loop (a few lines that are analysed with the rest, not run).  Three
generic clients cover every kind of client a request meets (it has the request, lacks it, raises,
fails later); waits are followed for every quorum form, every outcome of each client in both rounds and
every order of completion; a sensor wait for every order of updates, timeout and failing condition."""
import itertools
import math

from ..machine import Tally, Thing, Undecided, World
from ..teval import Fails, Fut, Record, Sentinel, Unknown
from ..walk import DictOf, Fun, Obj

MIN_OBLIGATIONS = 14
R = "resource_client."
GROUP = R + "ClientGroup"
SENSOR = "resource.KATCPSensor"
ASSUMPTIONS = ["until_some gives the first results in order of completion (C25)",
               "tornado 4.5: a coroutine runs without interruption between two yields"]
PENDING = Sentinel("pending")


def _future(t, e):
    return Fut(PENDING)


def _set_result(t, e):
    f, (v,) = t.ev(e.recv), t.args(e)[0]
    f.val = v


def _set_exc(t, e):
    f = t.ev(e.recv)
    f.exc = getattr(t, "caught", None) or "Exception"


def _value(t, e):
    v = t.ev(e.val)
    for x in (v.values() if isinstance(v, dict) else v if isinstance(v, list) else [v]):
        if isinstance(x, Fut) and x.val is PENDING and not x.exc:
            raise Fails("never completes")
    return v


NAMES = ("x", "y", "z")
KINDS = ("has", "lacks", "raises", "fails", "refuses")


def members(kinds):
    out = []
    for n, k in zip(NAMES, kinds):
        out.append(Record(name=n, req={}, dummy_unknown_requests=False))
        if k != "lacks":
            out[-1].req["go"] = sender(n, k)
    return out


def sender(n, k):
    def send(t, *a, **kw):
        t.log.append(("sent", n, a, tuple(sorted(kw.items()))))
        if k == "raises":
            raise Fails("RuntimeError")
        return Fut(exc="RuntimeError") if k == "fails" else Fut(REPLY[n, k == "has"])
    f = Fun("%s.go" % n, send)
    f.description = "text"
    return f


class Reply(Thing):
    def __bool__(self):
        return self.ok


REPLY = {(n, ok): Reply("%s reply of %s" % ("good" if ok else "bad", n), ok=ok, succeeded=ok)
         for n in NAMES for ok in (True, False)}
MODELS = {"Future": _future, "set_result": _set_result, "set_exc_info": _set_exc,
          "set_exception": _set_exc, "core.AttrDict": lambda t, e: {},
          "core.DefaultAttrDict": lambda t, e: {}, "exc_info": lambda t, e: ()}


def desc(t, e):
    return "text"


def requests(ctx):
    """A request on a group, for every kind of client."""
    w = World(ctx, dict(MODELS, join=desc), yields=_value)
    tally = Tally(ctx, "requests", ctx.where(R + "GroupRequest.__call__"))
    for kinds in itertools.product(KINDS, repeat=3):
        sit = ", ".join("%s %s it" % x for x in zip(NAMES, kinds))
        st = {"members": members(kinds)}
        try:
            o, st = w.new(st, "g", GROUP, "group", st["members"])
            o, st = w.call(st, "g", "req")
            have = [n for n, k in zip(NAMES, kinds) if k != "lacks"]
            if not isinstance(o.val, dict):
                raise Undecided("req gives %r" % (o.val,))
            tally("a group offers the requests of its clients", sorted(o.val) == ["go"] * bool(have),
                  "%s: offers %s" % (sit, sorted(o.val)))
            if not o.val.get("go"):
                continue
            o, st = w.call(st, st["g"]._req["go"], "__call__", 7, key=8)
        except Undecided as e:
            tally("a group request reaches every client that has it", None, "%s: %s" % (sit, e))
            continue
        log = [x for x in o.log if x[0] == "sent"]
        tally("a group request reaches every client that has it",
              sorted(x[1] for x in log) == have, "%s: sent to %s" % (sit, [x[1] for x in log]))
        tally("a group request passes its arguments",
              all(x[2:] == ((7,), (("key", 8),)) for x in log), "%s: %s" % (sit, log))
        if "raises" in kinds or "fails" in kinds:
            continue
        want = {n: REPLY[n, k == "has"] if k != "lacks" else None for n, k in zip(NAMES, kinds)}
        ok = None if o.val is Unknown else o.kind == "return" and isinstance(o.val, dict) and \
            dict(o.val) == want
        tally("the result maps each client to its own reply", ok,
              "%s: %s %s" % (sit, o.kind, o.val))
        if ok:
            results(ctx, tally, o.val, sit, all(k == "has" for k in kinds))
    tally.done(len(KINDS) ** 3)


def results(ctx, tally, val, sit, want):
    what = "a result is true when every client succeeded"
    if not isinstance(val, DictOf):
        tally(what, False, "%s: a plain dictionary is the result" % sit)
        return
    try:
        tally(what, bool(val) == want, "%s: its truth is %s" % (sit, not want))
        o, st = World(ctx, MODELS).call({}, val, "succeeded")
        tally("a result tells whether it succeeded",
              None if o.val is Unknown else o.val is want, "%s: succeeded is %s" % (sit, o.val))
    except Unknown as e:
        tally(what, None, str(e))
    except Undecided as e:
        tally(what, None, str(e))
    except Fails as e:
        tally(what, False, "raises %s" % e)


# -- group waits -------------------------------------------------------------

QUORUMS = (None, 0, 1, 2, 3, 0.0, 0.34, 0.5, 1.0)
TIMES = ((5.0, 1.0), (1.0, 2.0), (5.0, 0), (5.0, None), (None, 1.0), (None, None), (None, 0))


def required(q, n):
    return n if q is None else int(math.ceil(q * n)) if isinstance(q, float) else q


def _until_some(order):
    def m(t, e):
        a, kw = t.args(e)
        least = kw.pop("done_at_least", None)
        kw.pop("timeout", None)
        fs = list(kw.items()) + list(enumerate(a))
        if least is None:
            least = len(fs)
        fs.sort(key=lambda x: order.index(x[0]) if x[0] in order else 9)
        out = []
        for k, f in fs:
            if f.exc:
                return Fut(exc=f.exc)
            out.append((k, f.val))
            if len(out) >= least:
                break
        return Fut(out)
    return m


def waiter(n, outcome):
    def wait(t, *a, **kw):
        names = ("sensor_name", "condition_or_value", "timeout")
        kw.update(zip(names, a))
        i = len([x for x in t.log if x[1] == n])
        to = kw.get("timeout", 5)
        t.log.append(("wait", n, to, kw.get("sensor_name"), kw.get("condition_or_value")))
        return Fut(outcome[min(i, 1)])
    return Fun("%s.wait" % n, wait)


def waits(ctx):
    """A group wait, for every quorum, outcome and order of completion."""
    tally = Tally(ctx, "waits", ctx.where(GROUP + ".wait"))
    pairs = ((True, True), (True, False), (False, True), (False, False))
    n = 0
    cond = Thing("condition")
    orders = list(itertools.permutations(NAMES)) if ctx.deep else [NAMES, ("z", "y", "x")]
    for q, times in [(q, TIMES[0]) for q in QUORUMS] + [(q, t) for t in TIMES[1:] for q in (None, 2)]:
        for outcomes in itertools.product(pairs, repeat=3):
            if times != TIMES[0] and len(set(outcomes)) == 3 and not ctx.deep:
                continue
            for order in orders if times == TIMES[0] and (ctx.deep or q in (1, 2, 0.5)) else [NAMES]:
                n += 1
                wait_once(ctx, tally, q, times, outcomes, order, cond)
    w, st, kw = wait_world(ctx, pairs[:3], NAMES)
    for q in (1.5, 2.0):
        try:
            o, _ = w.call(st, "g", "wait", "s", cond, quorum=q)
            tally("a quorum that makes no sense is refused", o.kind == "raise" and
                  o.val == "TypeError", "a quorum of %s: %s %s" % (q, o.kind, o.val))
        except Undecided as e:
            tally("a quorum that makes no sense is refused", None, str(e))
    tally.done(n)


def wait_world(ctx, outcomes, order):
    w = World(ctx, dict(MODELS, until_some=_until_some(order)), yields=_value)
    st = {"members": [Record(name=n, wait=waiter(n, x)) for n, x in zip(NAMES, outcomes)]}
    o, st = w.new(st, "g", GROUP, "group", st["members"])
    return w, st, {}


def wait_once(ctx, tally, q, times, outcomes, order, cond):
    sit = "quorum %s, timeout %s, grace %s, clients give %s, done in order %s" % (
        q, times[0], times[1], outcomes, "".join(order))
    main = "a group wait is true when enough clients met the condition"
    w, st, kw = wait_world(ctx, outcomes, order)
    try:
        o, st = w.call(st, "g", "wait", "s", cond, timeout=times[0], quorum=q, max_grace_period=times[1])
    except Undecided as e:
        tally(main, None, "%s: %s" % (sit, e))
        return
    if o.kind == "raise":
        tally("a group wait gives a result", False, "%s: raises %s" % (sit, o.val))
        return
    r = o.val
    if not isinstance(r, dict):
        tally("a group wait gives a result", None if r is Unknown else False, "%s: %r" % (sit, r))
        return
    rounds = {n: [x for x in o.log if x[1] == n] for n in NAMES}
    tally("a group wait asks every client", all(rounds.values()) and
          all(x[3:] == ("s", cond) for x in o.log), "%s: asks %s" % (sit, o.log))
    tally("the result of a group wait has every client", set(r) == set(NAMES),
          "%s: %s" % (sit, dict(r)))
    for n, x in zip(NAMES, outcomes):
        asked = len(rounds[n])
        met = any(x[min(i, 1)] for i in range(asked))
        tally("a client is reported to have met the condition only if it did",
              met or not r.get(n), "%s: %s is reported as %s" % (sit, n, r.get(n)))
        if asked > 1:
            tally("a client is asked again only for the grace period", asked == 2 and not (times[1] == 0 or times[0] and times[1] is None),
                  "%s: %s is asked %d times" % (sit, n, asked))
            tally("a client that met the condition in the second round counts",
                  not x[1] or r.get(n) is True, "%s: %s" % (sit, dict(r)))
        elif times[1]:
            tally("a client is given up only after its grace period", r.get(n) is True,
                  "%s: %s is asked only once" % (sit, n))
    if times[0]:
        lim = [[x[2] for x in rounds[n]] for n in NAMES]
        tally("a group wait keeps to its timeout",
              all(all(v and v > 0 for v in x) and sum(x) <= times[0] + 1e-9 for x in lim if all(x))
              and all(all(x) for x in lim), "%s: waits %s" % (sit, lim))
        if times[1]:
            tally("the grace period is at most the one asked for",
                  all(len(x) < 2 or x[1] <= times[1] for x in lim), "%s: waits %s" % (sit, lim))
    try:
        got = bool(r)
    except Unknown as e:
        tally(main, None, "%s: %s" % (sit, e))
        return
    want = sum(1 for v in r.values() if v) >= required(q, 3)
    tally(main, isinstance(r, DictOf) and got == want, "%s: %s counts as %s" % (sit, dict(r), got))


# -- sensor waits ------------------------------------------------------------

PROBE = '''
class ProbeFuture(object):
    def __init__(self):
        self.state = None
        self.callbacks = []
        self.timers = []

    def done(self):
        return self.state is not None

    def add_done_callback(self, callback):
        if self.state is not None:
            callback(self)
        else:
            self.callbacks.append(callback)

    def complete(self, state):
        self.state = state
        callbacks = self.callbacks
        self.callbacks = []
        for callback in callbacks:
            callback(self)
        for timer in self.timers:
            if timer.state is None:
                timer.complete(state)

    def set_result(self, value):
        if self.state is None:
            self.complete("result")

    def set_exc_info(self, info):
        if self.state is None:
            self.complete("error")

    def set_exception(self, error):
        if self.state is None:
            self.complete("error")


class ProbeLoop(object):
    def __init__(self):
        self.todo = []
        self.timers = []

    def time(self):
        return 100

    def add_callback(self, callback, *args):
        self.todo.append((callback, args))

    def turn(self):
        todo = self.todo
        self.todo = []
        for callback, args in todo:
            callback(*args)

    def late(self):
        for timer in self.timers:
            if timer.state is None:
                timer.complete("timeout")


class ProbeDriver(object):
    def __init__(self, loop, world):
        self.loop = loop
        self.world = world

    def drive(self, sensor, condition, timeout, steps):
        result = sensor.wait(condition, timeout)
        for step in steps:
            if step == "turn":
                self.loop.turn()
            elif step == "late":
                self.loop.late()
            else:
                sensor._reading = step
                sensor.call_listeners(step)
            self.world.seen(step, result.state, len(sensor._listeners))
'''


def sensor_waits(ctx):
    """A sensor's wait, for every order of what may happen to it."""
    tally = Tally(ctx, "sensor waits", ctx.where(SENSOR + ".wait"))
    if "resource.ProbeDriver" not in ctx.p.classes:
        for src in PROBE.strip().split("\n\n\n"):
            ctx.probe("resource", src)
    rs = {k: Thing(k, value=k, status=1, timestamp=2, received_timestamp=3)
          for k in ("match", "other", "bad")}
    n = 0
    steps = [rs["match"], rs["other"], rs["bad"], "turn", "late"]
    for kind, timeout, first in itertools.product(("callable", "value"), (None, 3),
                                                  ("match", "other", "bad")):
        if kind == "value" and first == "bad":
            continue
        for seq in itertools.product(steps, repeat=4 if ctx.deep else 3):
            if timeout is None and "late" in seq or kind == "value" and rs["bad"] in seq:
                continue
            n += 1
            sensor_once(ctx, tally, kind, timeout, rs, first, seq)
    tally.done(n)


def sensor_once(ctx, tally, kind, timeout, rs, first, seq):
    sit = "waiting for a %s, timeout %s, reading %s, then %s" % (
        kind, timeout, first, ", ".join(map(str, seq)))
    main = "a sensor wait leaves no listener behind"

    def cond(t, r):
        if r is rs["bad"]:
            raise Fails("RuntimeError")
        return r is rs["match"]

    def timer(t, e):
        a, kw = t.args(e)
        o, f = future(t, e), (a[1:] or [kw.get("future")])[0]
        t.log.append(("timer", a[0], f.state))
        if f.state is not None:
            o.state = f.state
        else:
            f.timers.append(o)
        t.env[("root", "loop")].timers.append(o)
        return o
    w = World(ctx, {"Future": future, "current": lambda t, e: t.env[("root", "loop")],
                    "with_timeout": timer,
                    "callable": lambda t, e: isinstance(t.args(e)[0][0], Fun),
                    "hashable_identity": lambda t, e: repr(t.args(e)[0][0]),
                    "exc_info": lambda t, e: ()})
    try:
        o, st = w.new({}, "loop", "resource.ProbeLoop")
        world = Record(seen=Fun("seen", lambda t, *a: t.log.append(("seen",) + a)))
        o, st = w.new(st, "driver", "resource.ProbeDriver", st["loop"], world)
        s = st["sensor"] = Obj(SENSOR)
        s._listeners, s._reading, s._name = {}, rs[first], "s"
        s._manager = Record(get_sampling_strategy=Fun("get", lambda t, n: ("event",)))
        o, st = w.call(st, "driver", "drive", s, Fun("condition", cond) if kind == "callable" else
                       "match", timeout, seq + ("turn", "turn"))
    except Undecided as e:
        tally(main, None, "%s: %s" % (sit, e))
        return
    if o.kind == "raise":
        tally("a sensor wait gives its future", False, "%s: raises %s" % (sit, o.val))
        return
    judge(tally, sit, main, [x for x in o.log if x[0] == "seen"], rs[first], rs, timeout)


def judge(tally, sit, main, seen, first, rs, timeout):
    """What the wait should have come to, and when."""
    state, left = seen[-1][2:]
    x = {rs["match"]: "result", rs["bad"]: "error"}
    may, fixed, started = [], 0, False      # what comes within two turns of the loop may win or lose
    for _, step, got, n in seen:
        now = x.get(first) if step == "turn" and not started else x.get(step)
        now = "timeout" if step == "late" else now
        if now and fixed < 2:
            may.append(now)
        if step == "turn":
            if not started and x.get(first) and fixed < 2:
                may.append(x[first])
            started = True
            fixed += bool(may)
        if got is not None and n:
            tally(main, False, "%s: done with %s, yet it listens" % (sit, got))
    tally(main, not (state and left), "%s: done with %s, yet it listens" % (sit, state))
    tally("a sensor wait keeps listening until it is done", bool(state) or bool(left),
          "%s: not done, yet nothing listens" % sit)
    tally("a sensor wait ends as it should", state in may if may else state is None,
          "%s: ends with %s, not %s" % (sit, state, " or ".join(may) or "nothing"))


def future(t, e):
    o = Obj("resource.ProbeFuture")
    o.__dict__.update({"state": None, "callbacks": [], "timers": [], "%whole": True})
    return o


def resource_waits(ctx):
    """A resource's wait tells whether the condition was met in time."""
    q = "resource.KATCPResource.wait"
    where = ctx.where(q)
    cond = Thing("condition")
    for what, fut, kind, val in (
            ("the condition is met", Fut(True), "return", True),
            ("the time is up", Fut(exc="tornado.gen.TimeoutError"), "return", False),
            ("the condition fails", Fut(exc="RuntimeError"), "raise", "RuntimeError"),
            ("there is no such sensor", None, "raise", "KATCPSensorError"),
            ("the sensor has no strategy", "none", "raise", "KATCPSensorError")):
        def sensor_wait(t, c, timeout=None):
            t.log.append(("wait", c, timeout))
            if fut == "none":
                raise Fails("resource.KATCPSensorError")
            return fut
        w = World(ctx, {})
        o = Obj("resource.KATCPResource")
        o._sensor = {}
        if fut is not None:
            o._sensor["a_b"] = Record(wait=Fun("wait", sensor_wait))
        o.sensor = o._sensor
        try:
            r, st = w.call({"r": o}, "r", "wait", "a.b", cond, 7)
        except Undecided as e:
            ctx.ob("resource waits", what, None, where, str(e))
            continue
        got = r.val if r.kind == "return" else str(r.val).rsplit(".", 1)[-1]
        ctx.ob("resource waits", what, None if got is Unknown else
               r.kind == kind and got is val or r.kind == "raise" == kind and got == val, where,
               "gives %s %s" % (r.kind, got))
        if fut is not None:
            ctx.ob("resource waits", what + ": the sensor is waited for", r.log == [("wait", cond, 7)],
                   where, "waits with %s" % r.log)
    w = World(ctx, {"callable": lambda t, e: True, "Future": future, "current": future,
                    "hashable_identity": lambda t, e: repr(t.args(e)[0][0])})
    s = Obj(SENSOR)
    s._listeners, s._reading, s._name = {}, Thing("reading"), "s"
    s._manager = Record(get_sampling_strategy=Fun("get", lambda t, n: ("none",)))
    what = "a sensor without strategy is not waited for"
    try:
        o, st = w.call({"s": s}, "s", "wait", Fun("condition", lambda t, r: True))
        ctx.ob("resource waits", what, o.kind == "raise" and str(o.val).endswith("KATCPSensorError")
               and not st["s"]._listeners, ctx.where(SENSOR + ".wait"),
               "%s %s, listeners %s" % (o.kind, o.val, st["s"]._listeners))
    except Undecided as e:
        ctx.ob("resource waits", what, None, ctx.where(SENSOR + ".wait"), str(e))


PARTS = [requests, waits, sensor_waits, resource_waits]
