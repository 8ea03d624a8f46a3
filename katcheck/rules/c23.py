"""A client resource, its sensor manager and its sensor objects are followed together as abstract
machines against a stand-in for the inspecting client (a few lines that are analysed with the rest,
not run).  Every state reachable over two generic sensors by setting and dropping strategies, sensors
appearing and vanishing, and reconnecting is enumerated; each operation is evaluated from the source on
the abstract state, without and with a failure of one sensor, and the strategies the device is asked
for are compared with what was last set."""
from ..machine import Tally, Thing, Undecided, World
from ..teval import Fut, Record, Unknown
from ..walk import Fun, Obj

MIN_OBLIGATIONS = 15
R = "resource_client."
RES = R + "KATCPClientResource"
ASSUMPTIONS = ["tornado 4.5: a coroutine runs without interruption between two yields",
               "the inspecting client reports state and model as C20 and C21 say"]

CLIENT = '''
class ProbeClient(object):
    def __init__(self, world):
        self.world = world
        self.ioloop = world.ioloop
        self.katcp_client = world
        self.objects = {}
        self.present = set()
        self.fault = {}
        self.data_synced = False

    def connect(self):
        pass

    def set_state_callback(self, callback):
        self.callback = callback

    def preset_protocol_flags(self, flags):
        pass

    def handle_sensor_value(self):
        pass

    @tornado.gen.coroutine
    def future_check_sensor(self, name, update=None):
        if not self.data_synced:
            self.world.blocked(name)
        f = self.fault.get(name)
        if f == "check":
            raise RuntimeError()
        if f == "dropped":
            self.resource.drop_sampling_strategy(name)
        if f == "replaced":
            self.resource.set_sampling_strategy(name, "late")
        return name in self.present

    @tornado.gen.coroutine
    def future_get_sensor(self, name, update=None):
        if not self.data_synced:
            self.world.blocked(name)
        if self.fault.get(name) == "get":
            raise RuntimeError()
        if name not in self.objects:
            self.objects[name] = self.sensor_factory(
                name=name, sensor_type=0, description="", units="", params=[])
        return self.objects[name]

    @tornado.gen.coroutine
    def wrapped_request(self, request, *args):
        self.world.sent(request, *args)
        f = self.fault.get(args[0])
        if f == "raises":
            raise RuntimeError()
        if f == "refused":
            return self.world.bad
        return self.world.good
'''
FAULTS = ("check", "get", "raises", "refused")


def _normal(t, e):
    (p,), _ = t.args(e)
    return tuple(p.split(" ") if isinstance(p, str) else p)


def _sensor(t, e):
    a, k = t.args(e)
    return Record(name=k["name"], set_formatted=Thing("set_formatted"))


def _rec(t, e):
    return Record()


def _none(t, e):
    return None


def world(ctx):
    if R + "ProbeClient" not in ctx.p.classes:
        ctx.probe("resource_client", CLIENT)
    w = World(ctx, {
        "resource.normalize_strategy_parameters": _normal,
        "inspecting_client_factory": lambda t, e: t.env[("root", "ic")],
        "core.AsyncState": _rec, "core.AsyncCallbackEvent": _rec, "core.LatencyTimer": _rec,
        "core.AttrDict": lambda t, e: {}, "core.DefaultAttrDict": lambda t, e: {},
        "core.Sensor": _sensor, "set_state": _none, "check_future": _none,
        "time_to_yield": lambda t, e: False, "log_future_exceptions": _none,
        "hashable_identity": lambda t, e: t.args(e)[0][0]})
    env = Record(ioloop=Record(time=Thing("time")), good=Record(succeeded=True),
                 bad=Record(succeeded=False),
                 sent=Fun("sent", lambda t, *a: t.log.append(("sent",) + a)),
                 blocked=Fun("blocked", lambda t, *a: t.log.append(("blocked",) + a)))
    o, st = w.new({}, "ic", R + "ProbeClient", env)
    o, st = w.new(st, "r", RES, {"address": ("h", 1), "name": "dev"})
    st["ic"].resource = st["r"]
    return w, st


def esc(n):
    return n.replace(".", "_").replace("-", "_")


def asked(log, name):
    return [x[3:] for x in log if x[0] == "sent" and x[1] == "sensor-sampling" and
            esc(x[2]) == esc(name)]


class Want(object):
    def __init__(self, started=False, want=(), known=(), heard=()):
        self.started, self.want, self.known = started, dict(want), set(known)
        self.heard = set(heard)

    def copy(self):
        return Want(self.started, self.want, self.known, self.heard)

    def key(self):
        return (self.started, frozenset(self.want.items()), frozenset(self.known),
                frozenset(self.heard))

    def __str__(self):
        return "%s, wanted %s, present %s" % ("started" if self.started else "not started",
                                              self.want, sorted(self.known))


def state(connected, synced, data_synced):
    return Record(connected=connected, synced=synced, data_synced=data_synced)


def changes(added=(), removed=()):
    return {"sensors": {"added": set(added), "removed": set(removed)}}


def run(w, st, ref, op, names, faults):
    """(outcome, state, log, reference afterwards); None for the outcome when all went well."""
    k, n = op[0], op[1] if len(op) > 1 else None
    r2 = ref.copy()
    log = []

    def call(obj, method, *a):
        if method == "_inspecting_client_state_callback":
            st["ic"].data_synced = a[0].data_synced
        o, s2 = w.call(st, obj, method, *a)
        log.extend(o.log)
        if o.kind == "raise":
            raise Bad("%s raises %s" % (method, o.val))
        return o, s2
    st["ic"].fault = dict(faults)
    if k == "start":
        o, st = call("r", "start")
        r2.started = True
    elif k == "set":
        o, st = call("r", "set_sampling_strategy", n, op[2])
        r2.want[esc(n)] = tuple(op[2].split(" "))
    elif k == "set by sensor":
        s = st["r"]._sensor[esc(n)]
        how = op[3]
        o, st = call(s, how, op[2])
        r2.want[esc(n)] = tuple(op[2].split(" "))
    elif k == "drop":
        o, st = call("r", "drop_sampling_strategy", n)
        r2.want.pop(esc(n), None)
    elif k == "drop by sensor":
        o, st = call(st["r"]._sensor[esc(n)], "drop_sampling_strategy")
        r2.want.pop(esc(n), None)
    elif k == "listen":
        o, st = call("r", "set_sensor_listener", n, op[2])
        r2.heard.add(esc(n))
    elif k in ("appear", "vanish"):
        ns = names if n == "both" else [n]
        for x in ns:
            (st["ic"].present.add if k == "appear" else st["ic"].present.discard)(x)
            if faults.get(x) != "get":
                (r2.known.add if k == "appear" else r2.known.discard)(esc(x))
        o, st = call("r", "_inspecting_client_state_callback", state(True, False, True),
                     changes(ns) if k == "appear" else changes((), ns))
        mid, st = call("r", "_inspecting_client_state_callback", state(True, True, True), None)
    elif k == "reconnect":
        o, st = call("r", "_inspecting_client_state_callback", state(False, False, False), None)
        o, st = call("r", "_inspecting_client_state_callback", state(True, False, False), None)
        o, st = call("r", "_inspecting_client_state_callback", state(True, False, True), None)
        o, st = call("r", "_inspecting_client_state_callback", state(True, True, True), None)
    st["ic"].fault = {}
    return st, log, r2


class Bad(Exception):
    pass


def one(ctx):
    """One sensor, every history."""
    heard = Thing("listener")
    n = "a.b"
    explore(ctx, "one sensor", [n], [("start",), ("set", n, "event"), ("drop", n),
                                     ("listen", n, heard)],
            [("set", n, "event"), ("set", n, "period 2"), ("drop", n), ("listen", n, heard),
             ("set by sensor", n, "auto", "set_strategy"),
             ("set by sensor", n, "rate 3 4", "set_sampling_strategy"),
             ("drop by sensor", n), ("appear", n), ("vanish", n), ("reconnect",)],
            FAULTS, 400 if ctx.deep else 150, heard)


def two(ctx):
    """Two sensors, one of which may fail."""
    a, c = "a.b", "c"
    explore(ctx, "two sensors", [a, c], [("start",), ("set", a, "event"), ("set", c, "event")],
            [("set", a, "event"), ("set", c, "event"), ("appear", a), ("appear", c),
             ("appear", "both"), ("vanish", a), ("vanish", c), ("reconnect",)],
            FAULTS, 3000 if ctx.deep else 110, None)


def explore(ctx, rule, names, before, after, kinds, limit, heard):
    """What the device is asked for after each operation."""
    w, st = world(ctx)
    tally = Tally(ctx, rule, ctx.where(RES + ".set_sampling_strategy"))
    todo, seen, i = [(st, Want())], {}, 0
    while i < len(todo) and len(seen) < limit:
        st, ref = todo[i]
        todo[i] = None
        i += 1
        key = (w.key(st, True), ref.key())
        if key in seen:
            continue
        seen[key] = 1
        for op in after if ref.started else before:
            k, n = op[0], op[1] if len(op) > 1 else None
            ns = names if n == "both" else [n]
            if k.endswith("by sensor") and esc(n) not in ref.known:
                continue
            if k == "appear" and any(esc(x) in ref.known for x in ns):
                continue
            if k == "vanish" and any(esc(x) not in ref.known for x in ns):
                continue
            cases = [{}]
            if k == "reconnect":
                cases += [{x: f} for x in names if esc(x) in ref.known
                          for f in ("check", "raises", "refused", "dropped", "replaced")]
            elif k == "appear" and n == "both":
                cases += [{x: f} for x in names for f in ("get", "raises", "refused")]
            elif k.startswith("set") and esc(n) in ref.known:
                cases += [{n: f} for f in ("raises", "refused")]
            for faults in cases:
                sit = "%s %s%s" % (", ".join(map(str, op)), "(%s)" % ref, "".join(
                    "; %s: %s" % x for x in faults.items()))
                try:
                    st2, log, r2 = run(w, copy_of(st), ref, op, names, faults)
                    judge(tally, k, sit, w, st2, ref, r2, op, names, faults, log, heard)
                    if not set(faults.values()) & {"get", "dropped", "replaced"}:
                        todo.append((st2, r2))
                except Undecided as e:
                    tally(k, None, "%s: %s" % (sit, e))
                except Bad as e:
                    tally(k, False, "%s: %s" % (sit, e))
    tally.done(len(seen))


def copy_of(st):
    import copy
    memo = {}
    return {k: copy.deepcopy(v, memo) for k, v in st.items()}


def judge(tally, k, sit, w, st, ref, r2, op, names, faults, log, heard):
    with_fault = " while one fails" if faults else ""
    tally("nothing is looked up before the client has synced its data",
          not [x for x in log if x[0] == "blocked"], "%s waits for %s" % (sit, log))
    for n in names:
        e = esc(n)
        got, want = asked(log, n), r2.want.get(e)
        f = faults.get(n)
        if k in ("set", "set by sensor") and e == esc(op[1]) and e in ref.known:
            tally(k + ": the device is asked at once", got == [want], "%s asks %s" % (sit, got))
        elif k == "reconnect" and e in ref.known:
            if f == "dropped":
                tally("reconnect: a strategy dropped meanwhile is not restored", not got,
                      "%s asks %s" % (sit, got))
            elif f == "replaced":
                if want is None or not ref.want.get(e):
                    continue
                tally("reconnect: a strategy set meanwhile is the one that stays",
                      got and got[-1] == ("late",), "%s asks %s" % (sit, got))
            elif f is not None:
                continue
            elif want is None:
                tally("reconnect: nothing is asked for a sensor without strategy", not got,
                      "%s asks %s" % (sit, got))
            else:
                tally("reconnect: the strategy is asked for again" + with_fault,
                      bool(got) and set(got) == {want}, "%s asks %s" % (sit, got))
        elif k == "appear" and e in r2.known and e not in ref.known:
            if f in ("get",):
                continue
            if want is None:
                tally("appear: nothing is asked for a sensor without strategy", not got,
                      "%s asks %s" % (sit, got))
            else:
                tally("appear: the strategy is asked for" + with_fault,
                      bool(got) and set(got) == {want}, "%s asks %s" % (sit, got))
        elif k in ("drop", "drop by sensor", "listen") or k == "vanish" and e not in r2.known:
            tally(k + ": nothing is asked for", not got, "%s asks %s" % (sit, got))
        elif k in ("set", "drop") and e not in ref.known:
            tally(k + ": nothing is asked for a sensor that is not there", not got,
                  "%s asks %s" % (sit, got))
    for n in names:
        e = esc(n)
        here = e in st["r"]._sensor
        tally("the resource offers exactly the sensors that are there" + with_fault,
              here == (e in r2.known), "%s leaves %s" % (sit, sorted(st["r"]._sensor)))
        if not here or faults.get(n):
            continue
        s = st["r"]._sensor[e]
        if e in r2.heard:
            o, _ = w.call(st, s, "is_listener", heard)
            tally("listeners stay registered" + with_fault, o.val is True,
                  "%s leaves no listener on %s" % (sit, n))
        m = st["r"]._sensor_manager
        o, _ = w.call(st, m, "get_sampling_strategy", n)
        want = r2.want.get(e) or ("none",)
        if e in ref.known or k == "appear" and r2.want.get(e):
            tally("a sensor tells its strategy" + with_fault,
                  None if o.val is Unknown else o.val == want,
                  "%s leaves %s with %s" % (sit, n, o.val))


SETTER = '''
class ProbeSetter(object):
    def __init__(self, world, name, error):
        self.world = world
        self.name = name
        self.normalised_name = name
        self.parent_name = name
        self.error = error
        self.object = self

    @tornado.gen.coroutine
    def set_sampling_strategy(self, *args):
        self.world.sent(self.name, *args)
        if self.error:
            raise RuntimeError()
        return self.name

    @tornado.gen.coroutine
    def set_sensor_listener(self, *args):
        self.world.sent(self.name, *args)
        if self.error:
            raise RuntimeError()
        return self.name

    @tornado.gen.coroutine
    def set_sampling_strategies(self, *args):
        self.world.sent(self.name, *args)
        return self.name
'''


def _via(t, n, args, errors):
    t.log.append((n,) + args)
    return Fut(exc="RuntimeError") if errors["xyz".index(n)] else Fut(n)


def many(ctx):
    """Setting several at once reaches each of them, whichever fails."""
    if R + "ProbeSetter" not in ctx.p.classes:
        ctx.probe("resource_client", SETTER)
    w = World(ctx, {"list_sensors": lambda t, e: t.env[("root", "found")], "str": lambda t, e: "x"})
    env = Record(sent=Fun("sent", lambda t, *a: t.log.append(a)))

    def setters(errors):
        st = {}
        for n, e in zip("xyz", errors):
            o, st = w.new(st, n, R + "ProbeSetter", env, n, e)
        st["found"] = [st[n] for n in "xyz"]
        return st
    wish = Thing("wish")
    cases = []
    for bad in (None, 0, 1, 2):
        errors = [i == bad for i in range(3)]
        for cls, method, args in (
                (RES, "set_sampling_strategies", ("f", wish)),
                (R + "KATCPClientResourceContainer", "set_sampling_strategies", ("f", wish)),
                (R + "KATCPClientResourceContainer", "set_sampling_strategy", ("n", wish)),
                (R + "KATCPClientResourceContainer", "set_sensor_listener", ("n", wish))):
            cases.append((cls, method, args, errors))
    for method in ("set_sampling_strategies", "set_sampling_strategy"):
        cases.append((R + "ClientGroup", method, ("f", wish), [False] * 3))
    for cls, method, args, errors in cases:
        i = "%s.%s, %s" % (cls[len(R):], method, "one fails" if any(errors) else "none fails")
        where = ctx.where("%s.%s" % (cls, method))
        try:
            st = setters(errors)
            if cls == RES:
                st["o"] = Obj(cls)
                st["o"].set_sampling_strategy = Fun("set", lambda t, n, *a: _via(t, n, a, errors))
            elif cls.endswith("Container"):
                st["o"] = Obj(cls)
                st["o"]._children = {n: st[n] for n in "xyz"}
            else:
                o, st = w.new(st, "o", cls, "g", [st[n] for n in "xyz"])
            o, st2 = w.call(st, "o", method, *args)
            got = {x[0]: x[1:] for x in o.log}
            if o.kind == "raise":
                ctx.ob("many", i, False, where, "raises %s" % o.val)
                continue
            ctx.ob("many", i, set(got) == set("xyz") and all(wish in x for x in got.values()),
                   where, "reaches %s" % sorted(got))
        except Undecided as e:
            ctx.ob("many", i, None, where, str(e))


PARTS = [one, two, many]
