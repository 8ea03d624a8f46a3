"""Sensors are followed as abstract objects, with stand-ins for the value type (a codec that notes the
protocol version and refuses one value), the observers and the manager: for every sensor type, default,
initial status, range and protocol version a sensor is made, set (with and without a timestamp, zero
included, and with a refused value), formatted and parsed back; what it reads afterwards and what its
observers were told is compared with what it was given.  A client's sensor is followed through all
sequences of registering and unregistering two listeners (one that raises, one that unregisters itself
or the other from inside its update) and updates of each kind up to a length."""
import itertools

from ..consteval import Sym
from ..machine import Tally, Thing, Undecided, World
from ..program import AnalysisError
from ..teval import Fails, Record, Sentinel, Unknown
from ..walk import Fun, Obj

MIN_OBLIGATIONS = 12
SEN = "core.Sensor"
KS = "resource.KATCPSensor"
NOW = 1500000000.25
BAD = "refused value"
ASSUMPTIONS = ["the value types are as C16 says", "judged as Python 3"]


class Row(tuple, Sentinel, Record):
    """A named tuple."""

    def __new__(cls, values, names=()):
        r = tuple.__new__(cls, values)
        r.__dict__.update(zip(names, values))
        return r

    def __init__(self, *a):
        self.__dict__["name"] = self.__dict__["label"] = "reading"

    __repr__ = tuple.__repr__


def row(*names):
    def make(t, e):
        a, kw = t.args(e)
        if len(a) + len(kw) != len(names) or any(n not in kw for n in names[len(a):]):
            raise Fails("TypeError")
        return Row(tuple(a) + tuple(kw[n] for n in names[len(a):]), names)
    return make


def codec(label, vals=None):
    """A value type: encoding notes the value and the version."""
    vals = {} if vals is None else vals

    def check(t, v, major=5):
        if v == BAD:
            raise Fails("ValueError")

    def pack(t, v, nocheck=False, major=5):
        if not nocheck:
            check(t, v, major)
        text = ("%s v%d %r" % (label, major, v)).encode()
        vals[text] = (major, v)
        return text

    def unpack(t, text, major=5):
        if vals.get(text, (None,))[0] != major:
            raise Fails("ValueError")
        check(t, vals[text][1], major)
        return vals[text][1]

    return Thing(label, name=label, check=Fun("check", check), pack=Fun("pack", pack),
                 unpack=Fun("unpack", unpack),
                 encode=Fun("encode", lambda t, v, major=5: pack(t, v, True, major)),
                 decode=Fun("decode", lambda t, x, major=5: unpack(t, x, major)))


def _types(ctx):
    """The table of types, with stand-ins for the value types; and the defaults."""
    table, out, made = ctx.cconst(SEN, "SENSOR_TYPES"), {}, {}
    for k, (c, d) in table.items():
        n = c.name if isinstance(c, Sym) else repr(c)
        if not isinstance(d, (int, float, str, bytes, type(None), tuple)):
            d = Thing("default of " + n)
        out[k] = (Fun(n, lambda t, *a, n=n, **k2: codec(n, made.setdefault(n, {}))), d)
    return out


PROBE = '''
class ProbeUser(object):
    def read(self, sensor):
        return sensor.read()

    def fields(self, sensor):
        return sensor.read().timestamp, sensor.status(), sensor.value()

    def set(self, sensor, timestamp, status, value):
        sensor.set(timestamp, status, value)

    def set_value(self, sensor, value):
        sensor.set_value(value)

    def set_value_t(self, sensor, value, timestamp):
        sensor.set_value(value, timestamp=timestamp)

    def set_value_s(self, sensor, value, status):
        sensor.set_value(value, status=status)

    def set_value_st(self, sensor, value, status, timestamp):
        sensor.set_value(value, status, timestamp)

    def transfer(self, sensor, other, major):
        other.set_formatted(*sensor.read_formatted(major), major=major)

    def params(self, sensor, kind, texts, major):
        return sensor.parse_params(kind, texts, major)

    def attach(self, sensor, observer):
        sensor.attach(observer)
'''


def _observer(name):
    def update(t, sensor, reading):
        t.log.append((name, tuple(reading), tuple(sensor._current_reading)))
    return Thing(name, update=Fun("update", update))


def sensors(ctx):
    ctx.probe("core", PROBE)
    types = _types(ctx)
    w = World(ctx, {"time.time": lambda t, e: NOW, "core.Reading": row("timestamp", "status", "value"),
                    "Reading": row("timestamp", "status", "value")},
              given={("cattr", SEN, "SENSOR_TYPES"): types})
    tally = Tally(ctx, "sensors", ctx.where(SEN + ".__init__"))
    number = {n: ctx.cconst(SEN, n) for n in ("INTEGER", "FLOAT", "DISCRETE", "TIMESTAMP", "UNKNOWN",
                                              "NOMINAL", "ERROR")}
    numeric = (number["INTEGER"], number["FLOAT"])
    n = 0
    for kind, default, status, params in itertools.product(
            sorted(types), (None, "given", 0, False, ""), (None, number["UNKNOWN"], number["ERROR"]),
            (None, (3, 8), (-2, 8), (-2, 0), (0,), ("b", "a"))):
        if kind == number["DISCRETE"] and params != ("b", "a") or params and kind not in numeric + (
                number["DISCRETE"],) or params == ("b", "a") and kind in numeric:
            continue
        if not ctx.deep and default is not None and status is not None and params in ((-2, 8), (0,)):
            continue
        n += 1
        sit = "a sensor of type %s, default %r, initial status %r, params %r" % (
            kind, default, status, params)
        want = types[kind][1]
        if kind in numeric and params and len(params) == 2 and not params[0] <= want <= params[1]:
            want = params[0]
        if kind == number["DISCRETE"]:
            want = params[0]
        if default is not None:
            want = default
        try:
            st = _made(ctx, w, types, kind, params, default, status)
            if isinstance(st, str):
                tally("a sensor can be made", False, "%s: %s" % (sit, st))
                continue
            got = _read(w, st)
            tally("a new sensor reads what it was given", got == (
                NOW, number["UNKNOWN"] if status is None else status, want) and
                [type(x) for x in got[2:]] == [type(want)], "%s: reads %s, not %s"
                % (sit, got, want))
            fp = st["sensor"].formatted_params
            if fp is Unknown:
                raise Undecided("formatted params unknown")
            _params(w, tally, st, types, kind, params, sit)
            _updates(ctx, w, tally, st, number, sit)
            for major in (4, 5):
                _transfer(ctx, w, tally, st, types, kind, params, major, number, sit)
        except Undecided as e:
            tally("sensors are followed", None, "%s: %s" % (sit, e))
    tally.done(n)


def _made(ctx, w, types, kind, params, default, status):
    s = Obj(SEN)
    s.SENSOR_TYPES = types
    s.TIMESTAMP_TYPE = codec("time")
    kw = {}
    if default is not None:
        kw["default"] = default
    if status is not None:
        kw["initial_status"] = status
    o, st = w.call({"sensor": s, "user": Obj("core.ProbeUser")}, "sensor", "__init__", kind, "name",
                   "about", "", params and list(params), **kw)
    if o.kind == "raise":
        return "raises %s" % (o.val,)
    st["sensor"].__dict__["%whole"] = True
    st["user"].__dict__["%whole"] = True
    return st


def _read(w, st, name="sensor"):
    o, _ = w.call(st, "user", "fields", st[name])
    if o.kind == "raise" or not isinstance(o.val, tuple) or any(x is Unknown for x in o.val):
        raise Undecided("reading the sensor: %s %s" % (o.kind, o.val))
    return tuple(o.val)


def _params(w, tally, st, types, kind, params, sit):
    texts = st["sensor"].formatted_params
    make = types[kind][0].fn(None)
    for major in (4, 5):
        mine = [make.pack.fn(None, p, True, major) for p in params or ()]
        o, _ = w.call(st, "user", "params", st["sensor"], kind, mine, major)
        if o.val is Unknown or o.kind == "return" and any(x is Unknown for x in o.val):
            raise Undecided("parsing params: %s %s" % (o.kind, o.val))
        tally("parameters are parsed for the version", o.kind == "return" and tuple(o.val) == tuple(
            params or ()), "%s: for version %d, %s are parsed as %s" % (sit, major, mine, o.val))
    o, _ = w.call(st, "user", "params", st["sensor"], kind, list(texts), 5)
    tally("parameters are parsed back", o.kind == "return" and tuple(o.val) == tuple(params or ()),
          "%s: %s are parsed as %s" % (sit, texts, o.val))
    tally("the parameters are formatted one by one", len(texts) == len(params or ()) and all(
        repr(p).encode() in x for p, x in zip(params or (), texts)), "%s: formatted as %s"
        % (sit, texts))


def _updates(ctx, w, tally, st, number, sit):
    obs = [_observer("one"), _observer("two")]
    for o in obs:
        _, st = w.call(st, "user", "attach", st["sensor"], o)
    before = _read(w, st)
    for kw in ({}, {"timestamp": 0}, {"timestamp": 12.5, "status": number["ERROR"]},
               {"status": number["UNKNOWN"]}):
        for v in ("new", 0, None, BAD):
            o, s2 = w.call(st, "user", "set_value" + "_" * bool(kw) + "".join(
                sorted(k[0] for k in kw)), st["sensor"], v, **kw)
            what = "%s: set_value(%r, %s)" % (sit, v, kw)
            got = _read(w, s2)
            if v == BAD:
                tally("a refused value changes nothing", o.kind == "raise" and got == before and
                      not o.log, "%s leaves %s (was %s) and tells %s" % (what, got, before, o.log))
                continue
            want = (kw.get("timestamp", NOW), kw.get("status", number["NOMINAL"]), v)
            tally("a value that is set is kept", o.kind == "return" and got == want,
                  "%s leaves %s %s" % (what, got, o.val if o.kind == "raise" else ""))
            tally("every observer is told of a value once", sorted(o.log) == sorted(
                [("one", want, want), ("two", want, want)], key=repr) or sorted(
                    map(repr, o.log)) == sorted(map(repr, [(x, want, want) for x in ("one", "two")])),
                "%s tells %s" % (what, o.log)) if o.kind == "return" else None
    want = (0, number["ERROR"], "same")
    _, s2 = w.call(st, "user", "set", st["sensor"], *want)
    o, s2 = w.call(s2, "user", "set", s2["sensor"], *want)
    tally("an equal update is told too", o.kind == "return" and sorted(map(repr, o.log)) == sorted(
        map(repr, [(x, want, want) for x in ("one", "two")])), "%s: the second of two equal updates "
        "tells %s" % (sit, o.log))


def _transfer(ctx, w, tally, st, types, kind, params, major, number, sit):
    """What one sensor formats sets an equal one to the same reading."""
    for ts, status in ((0, number["UNKNOWN"]), (12.5, number["ERROR"])):
        _, s = w.call(st, "user", "set", st["sensor"], ts, status, "moved")
        other = Obj(SEN)
        other.__dict__.update(st["sensor"].__dict__)
        other._current_reading = Row((1, number["NOMINAL"], "old"), ("timestamp", "status", "value"))
        other._observers = set()
        s["other"] = other
        o, s = w.call(s, "user", "transfer", s["sensor"], s["other"], major)
        got = _read(w, s, "other")
        tally("what a sensor formats sets another to the same reading", o.kind == "return" and
              got == (ts, status, "moved"), "%s: for version %d, %s becomes %s %s" % (
                  sit, major, (ts, status, "moved"), got, o.val if o.kind == "raise" else ""))


KPROBE = '''
class ProbeWatcher(object):
    def update(self, sensor, kind, value, kw):
        if kind == "set" or kind == "same":
            sensor.set(7, 2, value)
        elif kind == "value" and kw:
            sensor.set_value(value, kw["status"], kw["timestamp"])
        elif kind == "value":
            sensor.set_value(value)
        else:
            sensor.set_formatted(b"7", b"warn", value, 5)

    def register(self, sensor, listener, reading):
        sensor.register_listener(listener, reading=reading)

    def unregister(self, sensor, listener):
        sensor.unregister_listener(listener)

    def clear(self, sensor):
        sensor.clear_listeners()

    def heard(self, sensor, listener):
        return sensor.is_listener(listener)

    def fields(self, sensor):
        return sensor.reading.timestamp, sensor.status, sensor.value
'''
OPS = [("register", "a", True), ("register", "a", False), ("register", "b", False), ("unregister", "a"), ("unregister", "b"),
       ("clear",), ("update", "set"), ("update", "value"), ("update", "formatted"),
       ("update", "same")]


def client_sensors(ctx):
    ctx.probe("resource", KPROBE)
    tally = Tally(ctx, "client sensors", ctx.where(KS + ".set"))
    names = ("received_timestamp", "timestamp", "istatus", "value")
    raising = [None]

    def reading(t, e):
        r = row(*names)(t, e)
        r.__dict__["status"] = ("status", r[2])
        return r

    def core_sensor(t, e):
        s = Obj(SEN)
        s.__dict__.update({"%whole": True, "name": "name", "_kattype": codec("value"),
                           "description": "about", "units": "", "type": "integer",
                           "TIMESTAMP_TYPE": Thing("time", decode=Fun("decode", lambda t, x, m=5:
                                                                      float(x))),
                           "_parser": Fun("parse", lambda t, x, m=5: x)})
        return s

    w = World(ctx, {"KATCPSensorReading": reading, "resource.KATCPSensorReading": reading,
                    "Sensor": core_sensor, "core.Sensor": core_sensor,
                    "hashable_identity": lambda t, e: t.args(e)[0][0],
                    "core.hashable_identity": lambda t, e: t.args(e)[0][0],
                    "is_bytes": lambda t, e: True})

    def listener(name, fail):
        def hear(t, *a):
            now = getattr(t.env.get(("root", "sensor")), "_reading", None)
            if now is not None:
                t.log.append(("reads", now[3]) if isinstance(now, Row) else ("reads", None))
            t.log.append((name,) + tuple(a))
            if fail == name:
                raise Fails("Exception")
        return Fun(name, hear)

    n = 0
    for fail in (None, "a", "b"):
        ls = {x: listener(x, fail) for x in "ab"}
        manager = Thing("manager", time=Fun("time", lambda t: NOW), resource_name="dev")
        st = {"sensor": Obj(KS), "user": Obj("resource.ProbeWatcher")}
        try:
            o, st = w.call(st, "sensor", "__init__", {}, manager)
            if o.kind == "raise":
                raise Undecided("a client sensor cannot be made: %s" % (o.val,))
        except Undecided as e:
            tally("client sensors are followed", None, str(e))
            continue
        st["sensor"].__dict__["%whole"] = st["user"].__dict__["%whole"] = True
        seen, todo = {}, [(st, {}, ())]
        while todo:
            st, ref, hist = todo.pop()
            if len(hist) >= (4 if ctx.deep else 3):
                continue
            for op in OPS:
                n += 1
                sit = "%s%s" % (" ".join(map(str, hist + (op,))), "; %s raises" % fail if fail else "")
                try:
                    r = _step(w, tally, st, dict(ref), op, ls, sit, len(hist))
                except Undecided as e:
                    tally("client sensors are followed", None, "%s: %s" % (sit, e))
                    continue
                if r is not None:
                    todo.append(r + (hist + (op,),))
    tally.done(n)


def _step(w, tally, st, ref, op, ls, sit, n):
    if op[0] == "update":
        value = "value %d" % n if op[1] != "same" else "same"
        kw = {} if n % 2 else {"timestamp": 0, "status": 3}
        o, s = w.call(st, "user", "update", st["sensor"], op[1], value, dict(kw))
        want = {"set": (7, 2, value), "same": (7, 2, value), "formatted": (7.0, 2, value),
                "value": (kw.get("timestamp", NOW), kw.get("status", 1), value)}[op[1]]
        tally("an update of a client's sensor completes", o.kind == "return", "%s: raises %s"
              % (sit, o.val))
        if o.kind != "return":
            return None
        want = (want[0], ("status", want[1]), want[2])
        f, _ = w.call(s, "user", "fields", s["sensor"])
        if f.kind == "return" and (not isinstance(f.val, tuple) or any(
                x is Unknown for x in f.val)):
            raise Undecided("reads %s" % (f.val,))
        tally("a client's sensor reads the update", f.kind == "return" and tuple(f.val) == want,
              "%s: reads %s" % (sit, f.val))
        got = [x for x in o.log if isinstance(x, tuple) and x and x[0] in ls]
        tally("each registered listener is told once", sorted(x[0] for x in got) == sorted(ref),
              "%s: tells %s, registered are %s" % (sit, [x[0] for x in got], sorted(ref)))
        reads = [x[1] for x in o.log if x[0] == "reads" and x[1] is not None]
        tally("listeners find the sensor updated", all(x == value for x in reads),
              "%s: a listener of %r reads %s" % (sit, value, reads))
        for g in got:
            if ref.get(g[0]):
                ok = len(g) == 3 and isinstance(g[2], Row) and g[2][1] == want[0] and g[2][3] == \
                    want[2] and g[2][0] == NOW
            else:
                ok = g[1:] == (NOW,) + want
            tally("a listener is told the whole update", ok, "%s: tells %s" % (sit, g))
        return s, ref
    if op[0] == "clear":
        o, s = w.call(st, "user", "clear", st["sensor"])
        ref.clear()
    elif op[0] == "register":
        o, s = w.call(st, "user", "register", st["sensor"], ls[op[1]], op[2])
        ref[op[1]] = op[2]
    else:
        o, s = w.call(st, "user", "unregister", st["sensor"], ls[op[1]])
        ref.pop(op[1], None)
    tally("listeners can be registered and unregistered at any time", o.kind == "return",
          "%s: raises %s" % (sit, o.val))
    if o.kind != "return":
        return None
    for x in ls:
        h, _ = w.call(s, "user", "heard", s["sensor"], ls[x])
        if h.val is Unknown:
            raise Undecided("is_listener is unknown")
        tally("is_listener tells the truth", h.kind == "return" and bool(h.val) == (x in ref),
              "%s: is_listener(%s) is %s" % (sit, x, h.val))
    return s, ref


def strategies(ctx):
    """The strategy a client's sensor is given reaches the manager as one text."""
    tally = Tally(ctx, "strategies", ctx.where(KS + ".set_strategy"))
    w = World(ctx)
    n = 0
    for strategy, params, want in (
            ("none", None, "none"), ("event", "", "event"), ("auto", [], "auto"),
            ("period", 5, "period 5"), ("period", 0.5, "period 0.5"), ("period", "2.5", "period 2.5"),
            ("event-rate", [1, 2.5], "event-rate 1 2.5"), ("event-rate", (3, 4), "event-rate 3 4"),
            ("event-rate", [0, 5], "event-rate 0 5"), ("event-rate", "1 2", "event-rate 1 2"), ("differential-rate", ["1", 2, 3.5],
                                                      "differential-rate 1 2 3.5")):
        n += 1
        given = []
        manager = Thing("manager", set_sampling_strategy=Fun(
            "set_sampling_strategy", lambda t, *a: t.log.append(tuple(a)) or Thing("answer")))
        s = Obj(KS)
        s.__dict__.update({"_manager": manager, "_name": "name", "%whole": True})
        sit = "set_strategy(%r, %r)" % (strategy, params)
        try:
            o, _ = w.call({"sensor": s}, "sensor", "set_strategy", strategy, params)
        except Undecided as e:
            tally("strategies are followed", None, "%s: %s" % (sit, e))
            continue
        given = list(o.log)
        if len(given) == 1 and len(given[0]) == 2 and not isinstance(given[0][1], str):
            tally("strategies are followed", None, "%s gives %s" % (sit, given))
            continue
        tally("the manager is given the strategy with its parameters", o.kind == "return" and
              given == [("name", want)], "%s: gives %s %s" % (sit, given, o.val))
    tally.done(n)


PARTS = [sensors, client_sensors, strategies]
