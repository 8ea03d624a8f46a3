"""A container with its children and groups is followed as one abstract machine: every state reachable
by requests and sensors appearing at and vanishing from the children, children and groups being added,
and somebody reading in between is enumerated over two children and one generic request and two
sensors each; what the container and its groups offer is compared with the union of what the children
have.  list_sensors is evaluated for every combination of its conditions over generic sensors."""
import copy
import itertools
import re

from ..machine import Tally, Thing, Undecided, World
from ..teval import Fails, Fut, Record, Unknown
from ..walk import Fun, Obj

MIN_OBLIGATIONS = 6
R = "resource_client."
CON = R + "KATCPClientResourceContainer"
RES = R + "KATCPClientResource"
ASSUMPTIONS = ["children report their model as C20, C21 and C23 say",
               "names do not collide once escaped and prefixed with the name of their child"]


def _rec(t, e):
    return Record()


def _none(t, e):
    return None


LOOP = Thing("loop")
MODELS = {"current": lambda t, e: LOOP, "core.AsyncState": _rec, "core.AsyncCallbackEvent": _rec,
          "core.LatencyTimer": _rec, "check_future": _none, "time_to_yield": lambda t, e: False,
          "core.AttrDict": lambda t, e: {}, "core.DefaultAttrDict": lambda t, e: {},
          RES + ".set_ioloop": _none, RES + ".start": _none, "join": lambda t, e: "text"}
ITEMS = {}


def item(child, kind, name):
    k = (child, kind, name)
    if k not in ITEMS:
        ITEMS[k] = Thing("%s %s of %s" % (kind, name, child), description="text", name=name)
    return ITEMS[k]


def client(child):
    def get(kind):
        return Fun("get " + kind, lambda t, n, *a: Fut(item(child, kind, n)))
    return Record(future_get_request=get("request"), future_get_sensor=get("sensor"))


def spec():
    return {"address": ("h", 1), "controlled": True}


NAMES = {"request": ("go-on",), "sensor": ("s.t", "agg_s")}


def esc(n):
    return n.replace(".", "_").replace("-", "_")


class Want(object):
    """What the children have."""

    def __init__(self, children, groups, has=()):
        self.children, self.groups, self.has = list(children), dict(groups), set(has)

    def copy(self):
        return Want(self.children, self.groups, self.has)

    def key(self):
        return (tuple(self.children), tuple(sorted(self.groups.items())), frozenset(self.has))

    def offers(self, kind):
        return {n if n.startswith("agg_") else "%s_%s" % (esc(c), esc(n)): item(c, k, n)
                for c, k, n in self.has if k == kind}

    def group(self, g):
        return {esc(n) for c, k, n in self.has if k == "request" and c in self.groups[g]}

    def __str__(self):
        return ", ".join("%s has %s %s" % x for x in sorted(self.has)) or "nothing there"


def container(ctx):
    w = World(ctx, MODELS)
    s = {"name": "con", "clients": {"a.b": spec(), "c": spec()}, "groups": {"g": ("a.b", "c")}}
    o, st = w.new({}, "con", CON, s)
    if o.kind == "raise":
        raise Undecided("making a container raises %s" % o.val)
    for n, c in st["con"]._children.items():
        c._inspecting_client = client({"a_b": "a.b"}.get(n, n))
    st["g"] = st["con"]._groups["g"]
    return w, st, Want(["a.b", "c"], {"g": ("a.b", "c")})


def run(w, st, ref, op):
    k, r2 = op[0], ref.copy()

    def call(obj, method, *a):
        o, s2 = w.call(st, obj, method, *a)
        if o.kind == "raise":
            raise Bad("%s raises %s" % (method, o.val))
        return o, s2
    con = st["con"]
    if k in ("add", "remove"):
        c, kind, ns = op[1:]
        o, st = call(con._children[esc(c)], "_%s_%ss" % (k, kind), list(ns))
        for n in ns:
            (r2.has.add if k == "add" else r2.has.discard)((c, kind, n))
    elif k == "read":
        o, st = call("con", op[1])
    elif k == "read group":
        o, st = call(st["con"]._groups[op[1]], "req")
    elif k == "new child":
        o, st = call("con", "add_child_resource_client", op[1], spec())
        st["con"]._children[esc(op[1])]._inspecting_client = client(op[1])
        r2.children.append(op[1])
    elif k == "new group":
        o, st = call("con", "add_group", op[1], op[2])
        st[op[1]] = st["con"]._groups[op[1]]
        r2.groups[op[1]] = op[2]
    return st, r2


class Bad(Exception):
    pass


def operations(st, ref):
    out = [("read", "req"), ("read", "sensor")]
    out += [("read group", g) for g in ref.groups]
    for c in ref.children:
        for kind in NAMES:
            have = [n for n in NAMES[kind] if (c, kind, n) in ref.has]
            new = [n for n in NAMES[kind] if n not in have and (
                not n.startswith("agg_") or c == ref.children[0])]
            if c != "d":
                out += [("add", c, kind, (n,)) for n in new] + [("remove", c, kind, (n,)) for n in have]
            elif kind == "sensor" and new:
                out.append(("add", c, kind, (new[0],)))
    if "d" not in ref.children:
        out.append(("new child", "d"))
    if "h" not in ref.groups:
        out.append(("new group", "h", ("c",)))
    return out


def containers(ctx):
    """What a container and its groups offer, in every state."""
    w, st, ref = container(ctx)
    where = ctx.where(CON + "._sync_with_children")
    tally = Tally(ctx, "containers", where)
    todo, seen, i = [(st, ref)], {}, 0
    limit = 600 if ctx.deep else 90
    while i < len(todo) and len(seen) < limit:
        st, ref = todo[i]
        todo[i] = None
        i += 1
        key = (w.key(st), ref.key())
        if key in seen:
            continue
        seen[key] = 1
        for op in operations(st, ref):
            sit = "%s (%s)" % (" ".join(str(x) for x in op), ref)
            memo = {}
            try:
                st2, r2 = run(w, {k: copy.deepcopy(v, memo) for k, v in st.items()}, ref, op)
                judge(tally, sit, w, st2, r2)
                todo.append((st2, r2))
            except Undecided as e:
                tally("what a container offers", None, "%s: %s" % (sit, e))
            except Bad as e:
                tally("changes are taken without an error", False, "%s: %s" % (sit, e))
    tally.done(len(seen))


def judge(tally, sit, w, st, ref):
    for attr, kind in (("req", "request"), ("sensor", "sensor")):
        what = "a container offers the %ss of its children" % kind
        o, _ = w.call(st, "con", attr)
        if o.val is Unknown or o.kind == "return" and not isinstance(o.val, dict):
            tally(what, None, "%s: %r" % (sit, o.val))
            continue
        tally(what, o.kind == "return" and dict(o.val) == ref.offers(kind), "%s: offers %s" % (
            sit, sorted(o.val) if o.kind == "return" else o.val))
    for g in ref.groups:
        for what, obj in (("a group offers the requests of its clients", st["con"]._groups.get(g)),
                          ("a group somebody holds stays up to date", st[g])):
            if obj is None:
                tally(what, False, "%s: group %s is gone" % (sit, g))
                continue
            o, _ = w.call(st, obj, "req")
            if o.val is Unknown:
                tally(what, None, sit)
                continue
            tally(what, o.kind == "return" and set(o.val) == ref.group(g),
                  "%s: %s offers %s" % (sit, g, sorted(o.val) if o.kind == "return" else o.val))
    tally("a container lists all its children", set(st["con"]._children) == set(map(esc, ref.children)),
          "%s: %s" % (sit, sorted(st["con"]._children)))


def _compile(t, e):
    p = re.compile(t.args(e)[0][0])
    return Record(search=Fun("search", lambda t, s: Thing("match") if p.search(s) else None),
                  match=Fun("match", lambda t, s: Thing("match") if p.match(s) else None))


def _refresh(t, s):
    t.log.append(("refresh", s.name))
    s.reading = s.fresh
    return Fut(s.reading)


def sensor(name, parent, strategy, status, fresh):
    def reading(st):
        return Record(value=Thing("value"), timestamp=Thing("timestamp"), status=st,
                      received_timestamp=Thing("received"))
    r = Record(name=name, parent_name=parent, sampling_strategy=strategy, reading=reading(status),
               fresh=reading(fresh), units=Thing("units"), description=Thing("description"),
               type=Thing("type"))
    r.get_value = Fun("get_value", lambda t: _refresh(t, r_of(t, name)))
    return r


def r_of(t, name):
    """The sensor as it is on this path."""
    return [s for s in t.env[("root", "sensors")].values() if s.name == name][0]


def listings(ctx):
    """list_sensors over every combination of its conditions."""
    tally = Tally(ctx, "listings", ctx.where(R + "list_sensors"))
    what = "exactly the matching sensors are listed"
    w = World(ctx, {"re.compile": _compile, "SensorResultTuple": lambda t, e: Record(**t.args(e)[1])})
    n = 0
    for strategies, statuses, refresh, cls in itertools.product(
            itertools.product((("none",), ("event",)), repeat=2),
            itertools.product(("nominal", "error"), repeat=2), (False, True), (RES, CON)):
        for filt, py, strategy, status in itertools.product(
                ("", "a.b", "b_i|x-", "nothing"), (True, False), (False, True),
                ("", ("nominal",), ("error", "nominal"))):
            if not ctx.deep and refresh and filt in ("", "nothing"):
                continue
            if not ctx.deep and cls == CON and statuses[0] == statuses[1] and status:
                continue
            n += 1
            flip = {"nominal": "error", "error": "nominal"}
            items = {"a_b_i": ("a.b", "dev", strategies[0], statuses[0]),
                     "x_b": ("x-b", "dev", strategies[1], statuses[1]),
                     "agg_a_b": ("agg_a.b", "dev", ("event",), "nominal")}
            sensors = {k: sensor(*v, fresh=flip[v[3]]) for k, v in items.items()}
            sit = "filter %r%s, strategy %s, status %s%s; %s" % (
                filt, " on identifiers" if py else "", strategy, status,
                ", refreshed" if refresh else "",
                ", ".join("%s %s %s" % (v[0], v[2][0], v[3]) for v in items.values()))
            want = []
            for k in sorted(items):
                name, parent, st, status_of = items[k]
                if refresh:
                    status_of = flip[status_of]
                if re.search(filt, k if py else name) and (not strategy or st != ("none",)) and (
                        not status or status_of in status):
                    want.append(k)
            try:
                o = listing(w, cls, sensors, filt, strategy, status, py, refresh)
            except Undecided as e:
                tally(what, None, "%s: %s" % (sit, e))
                continue
            if o.kind == "raise" or not isinstance(o.val, list):
                tally(what, None if o.val is Unknown else False, "%s: %s %s" % (sit, o.kind, o.val))
                continue
            got = [r.python_identifier for r in o.val]
            tally(what, got == want, "%s: lists %s" % (sit, got))
            for r in o.val:
                k = r.python_identifier
                name = items[k][0] if k in items else None
                full = name if cls == RES or name.startswith("agg_") else "dev." + name
                tally("a listed sensor is described as it is", r.object.name == name and
                      r.name == full and r.reading is r.object.reading and
                      r.units is sensors[k].units and r.type is sensors[k].type and
                      r.description is sensors[k].description, "%s: %s is %s" % (sit, k, r))
    tally.done(n)


def listing(w, cls, sensors, filt, strategy, status, py, refresh):
    parent = Obj(cls)
    st = {"parent": parent, "sensors": sensors}
    parent._sensor = st["sensors"]
    parent._children_dirty = False
    parent.name = "dev"
    o, st = w.call(st, "parent", "list_sensors", filter=filt, strategy=strategy, status=status,
                   use_python_identifiers=py, refresh=refresh)
    if isinstance(o.val, Fut):
        if o.val.exc:
            o.kind = "raise"
        o.val = o.val.exc or o.val.val
    return o


PARTS = [containers, listings]
