"""Effect and ordering analysis of sensor updates: every path of Sensor.set and
KATCPSensor.set publishes exactly one new immutable reading object built from the three
given values, publishes it before any observer is called, and then calls each element of a
copy of the observer collection exactly once with that same reading (paths where an
observer raises included where the code contains the error).  Readers are checked to take
one snapshot per result; attach and detach must tolerate repeats; no other code stores the
reading or the observer collection."""
import ast

from ..engine import NONE, show, subterms
from ..lib import (A, P, S, SELF, arg, attr_loads, attr_stores, call_name, events, has, is_log,
                   path_str, returns, snapshot_kind, tested, uses)

MIN_OBLIGATIONS = 30
ASSUMPTIONS = ["observers given to core.Sensor do not raise (KATCPSensor listeners may)",
               "attribute stores and loads are atomic in the interpreter",
               "loops are judged by zero, one and two passes"]


def _fields(t):
    return list(t[2]) + [v for _, v in t[3]]


def updates(ctx):
    for q, attr, obs, make, nargs in (
            ("core.Sensor.set", "_current_reading", "_observers", "Reading", 3),
            ("resource.KATCPSensor.set", "_reading", "_listeners",
             "KATCPSensorReading", 4)):
        w = ctx.where(q)
        n = 0
        observers = S(obs)
        op = {"resource.KATCPSensorReading.*", "core.Reading.*"}
        for p in ctx.paths(q, loop_max=2, opaque=op, loads={attr} if nargs == 3 else ()):
            if p.kind == "raise":
                ctx.ob("update", "%s completes" % q, None, w, str(p.val))
                continue
            if p.kind != "return":
                continue
            n += 1
            st = [e for e in events(p, "store") if e.base == SELF and e.attr == attr]
            ctx.ob("update", "%s publishes one reading" % q, len(st) == 1, w,
                   "%d stores of %s on a path of %s" % (len(st), attr, q))
            if not st:
                continue
            rd = st[0].val
            isnew = call_name(rd) == make and rd[0] in ("new", "call")
            ctx.ob("update", "%s publishes a new reading" % q, isnew or None, w,
                   "publishes %s" % show(rd))
            if isnew:
                fl = _fields(rd)
                want = [P(x) for x in ("timestamp", "status", "value")]
                if rd[3]:
                    kw = dict(rd[3])
                    for nm, alt in (("timestamp", "timestamp"), ("status", "istatus"),
                                    ("value", "value")):
                        v = kw.get(nm, kw.get(alt))
                        if v is not None and v in want:
                            ctx.ob("update", "%s reading fields" % q, v == P(nm), w,
                                   "reading field %s is %s" % (nm, show(v)))
                ctx.ob("update", "%s reading has the given values" % q,
                       fl[-3:] == want if not rd[3] else all(x in fl for x in want), w,
                       "the reading is made of %s" % [show(x) for x in fl])
            if nargs == 3:
                # another thread may have stored its own reading in the meantime
                logged = {e.where for e in p.events if e.kind == "call" and is_log(e)}
                again = [e for e in p.events if e.kind == "load" and e.base == SELF and
                         e.attr == attr and e.idx > st[-1].idx and e.where not in logged]
                ctx.ob("notify", "%s does not read the reading back" % q, not again, w,
                       "the reading told to observers is read back after it was published: "
                       "another thread's update may be told twice and this one never")
            # observers
            its = [e for e in p.events if e.kind in ("iter", "enditer") and
                   uses(e.val, observers)]
            ctx.ob("notify", "%s tells observers" % q, bool(its), w,
                   "a path of %s does not go through the observers (%s)"
                   % (q, path_str(p)))
            for e in its:
                ctx.ob("notify", "%s publishes before telling" % q, e.idx > st[-1].idx,
                       e.where, "observers are told before the reading is published")
                k = snapshot_kind(e.val, observers)
                ctx.ob("notify", "%s goes over a copy" % q,
                       k == "copy" if k in ("copy", "live") else None, e.where,
                       "observers are called while going over the live collection")
            passes = [e for e in its if e.kind == "iter"]
            ends = [e for e in p.events if e.kind == "breakiter" and e.val is not None and
                    uses(e.val, observers)]
            ctx.ob("notify", "%s tells every observer" % q, not ends, w,
                   "the notification loop can stop early (%s)" % path_str(p))
            # one call per pass
            marks = [e.idx for e in passes]
            endi = [e.idx for e in its if e.kind == "enditer"]
            for i, m in enumerate(marks):
                stop = marks[i + 1] if i + 1 < len(marks) else \
                    (endi[-1] if endi else len(p.events))
                calls = [e for e in p.events[m:stop] if e.kind == "call" and
                         e.name not in ("debug", "exception", "format", "warn", "error",
                                        "warning", "info") and
                         _is_observer(e, observers)]
                ctx.ob("notify", "%s tells each observer once" % q, len(calls) == 1, w,
                       "an observer is told %d times (%s)" % (len(calls), path_str(p)))
                for c in calls:
                    al = c.allargs()
                    if len(al) == 2:
                        ok = al[0] == SELF and al[1] in (rd, S(attr))
                    else:
                        ok = len(al) == 4 and all(
                            x in (A(rd, f), A(S(attr), f)) or uses(x, rd) or
                            uses(x, S(attr)) for x, f in zip(
                                al, ("received_timestamp", "timestamp", "status",
                                     "value")))
                        ok = ok and _listener_order(al, rd)
                    ctx.ob("notify", "%s tells the published reading" % q, ok, c.where,
                           "an observer is given %s" % [show(x) for x in al])
        ctx.ob("update", "%s analysed" % q, n >= 2, w, "")


def _listener_order(al, rd):
    want = ("received_timestamp", "timestamp", "status", "value")
    for x, f in zip(al, want):
        if x[0] == "attr" and x[1] == rd and x[2] != f:
            return False
    return True


def _is_observer(e, observers):
    """Is this call made on / of an element of the observer collection?"""
    t = e.recv if e.name == "update" else e.f
    if t is None:
        return False
    return any(x[0] in ("elem", "item") and uses(x, observers) for x in subterms(t))


def single_snapshot(ctx):
    """A result handed out is made of one snapshot."""
    for q in ("core.Sensor.read_formatted", "core.Sensor.value", "core.Sensor.status",
              "core.Sensor.read"):
        w = ctx.where(q)
        loads = [n for f, n in attr_loads(ctx, "_current_reading") if f == q]
        for p in returns(ctx.paths(q, opaque={"core.Sensor.read", "core.Sensor.value",
                                              "core.Sensor.status"})):
            reads = [e for e in events(p, "call") if e.recv == SELF and
                     e.name in ("read", "value", "status")]
            n = len(reads) + len(loads)
            ctx.ob("snapshot", "%s takes one snapshot" % q, n <= 1, w,
                   "%s reads the sensor %d times, so it can mix two updates" % (q, n))
            ctx.ob("snapshot", "%s reads the sensor" % q, n >= 1 or None, w, "")
    for q in ("core.Sensor.format_reading",):
        r = P("reading")
        for p in returns(ctx.paths(q)):
            own = [x for x in subterms(p.val) if x == S("_current_reading")]
            ctx.ob("snapshot", "format_reading uses the given reading", not own and
                   uses(p.val, r), ctx.where(q), "format_reading returns %s"
                   % show(p.val))
    for q, attr in (("resource.KATCPSensor.reading", "_reading"),):
        for p in returns(ctx.paths(q)):
            ctx.ob("snapshot", "KATCPSensor.reading", p.val == S("_reading"),
                   ctx.where(q), "returns %s" % show(p.val))
    # reporting code reads a sensor at most once per report
    for q, fi in sorted(ctx.p.functions.items()):
        mod = q.split(".")[0]
        if mod not in ("server", "sampling") or "<locals>" in q:
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr in
                   ("read", "read_formatted", "format_reading")
                   for n in ast.walk(fi.node)):
            continue
        for p in ctx.paths(q, loop_max=1, opaque={"core.*", "kattypes.*",
                                                  "server.construct_name_filter"}):
            for e in events(p, "call"):
                if e.name not in ("inform", "reply", "reply_inform", "update") and \
                        e.f[0] != "param":
                    continue
                srcs = set()
                for a in e.allargs():
                    for x in subterms(a):
                        if x[0] == "call" and call_name(x) in \
                                ("read", "read_formatted", "value", "status") and \
                                x[1][0] in ("attr", "bound"):
                            srcs.add(x)
                ctx.ob("snapshot", "%s reports one snapshot" % q, len(srcs) <= 1, e.where,
                       "one report is put together from %d readings" % len(srcs))


def observers(ctx):
    for m, good, bad in (("attach", ("add",), ()), ("detach", ("discard",), ())):
        q = "core.Sensor." + m
        w = ctx.where(q)
        o = P(ctx.p.func(q).params[1])
        ps = ctx.paths(q, raise_all=False)
        for p in ps:
            if p.kind == "raise":
                ctx.ob("observers", m + " total", False, w, "%s() raises %s" % (m, p.val))
            if p.kind != "return":
                continue
            done = [e for e in events(p, "call") if e.recv == S("_observers")]
            ok = False
            for e in done:
                if m == "attach" and e.name in ("add", "append", "update") and \
                        any(uses(a, o) for a in e.args):
                    ok = True
                if m == "detach" and e.name in ("discard", "difference_update") and \
                        any(uses(a, o) for a in e.args):
                    ok = True
                if m == "detach" and e.name == "remove" and e.args[:1] == (o,):
                    ok = tested(p, lambda a: a == ("in", o, S("_observers")), True, e.idx) or \
                        any(h.kind == "handler" for h in p.events) or e.extra == "try"
                    ok = ok or any(x.kind == "exc" and x.extra is e
                                   for q2 in ps for x in q2.events)
            rebinds = [e for e in events(p, "store") if e.attr == "_observers"]
            if rebinds and not ok:
                ok = any(uses(e.val, o) for e in rebinds)
            known = p.facts.get(("in", o, S("_observers")))
            if not ok and known is (m == "attach"):
                ok = True
            ctx.ob("observers", m, ok, w, "%s() does not %s the observer (%s)"
                   % (m, "add" if m == "attach" else "remove", path_str(p)))
    allowed = ("core.Sensor.",)
    for attr in ("_current_reading", "_observers"):
        for q, n in attr_stores(ctx, attr):
            ctx.ob("ownership", "%s stored by Sensor only" % attr,
                   q.startswith(allowed), "%s:%d" % (
                       ctx.p.func(q).module.path, n.lineno),
                   "%s stores %s" % (q, attr))
    for q in ("resource.KATCPSensor.register_listener",
              "resource.KATCPSensor.unregister_listener"):
        w = ctx.where(q)
        for p in ctx.paths(q):
            if p.kind == "raise":
                ctx.ob("observers", q + " total", False, w, "raises %s" % (p.val,))
                continue
            lst = P(ctx.p.func(q).params[1])
            if q.endswith(".register_listener"):
                st = [e for e in events(p, "setitem") if e.base == S("_listeners")]
                ok = len(st) == 1 and uses(st[0].extra, lst) and uses(st[0].val, lst)
                ctx.ob("observers", "register_listener", ok or (None if not st else False),
                       w, "listener not stored under its identity")
            else:
                rm = [e for e in p.events if
                      (e.kind == "call" and e.name == "pop" and
                       e.recv == S("_listeners")) or
                      (e.kind == "delitem" and e.base == S("_listeners"))]
                safe = any(e.kind == "call" and len(e.args) == 2 or
                           e.kind == "delitem" for e in rm)
                absent = any(a[0] == "in" and a[2] == S("_listeners") and v is False
                             for a, v in p.facts.items())
                ctx.ob("observers", "unregister_listener", (bool(rm) and safe) or absent
                       or any(e.kind == "handler" for e in p.events), w,
                       "a listener is not removed, or removing it twice raises")
    # identity: the same listener registers once, distinct bound methods stay distinct
    q = "core.hashable_identity"
    if ctx.p.has_func(q):
        o = P(ctx.p.func(q).params[0])
        for p in returns(ctx.paths(q)):
            if p.val[0] == "tuple":
                ok = len(p.val[1]) == 2 and len(set(p.val[1])) == 2 and \
                    all(uses(x, o) for x in p.val[1])
                names = {x[2] for x in subterms(p.val) if x[0] == "attr"}
                ok = ok and bool(names & {"__self__", "im_self"}) and \
                    bool(names & {"__func__", "im_func"})
                ctx.ob("observers", "bound methods identified by object and function", ok,
                       ctx.where(q), "identity is %s" % show(p.val))


def entry_points(ctx):
    """Every way of setting a sensor goes through set() once."""
    for q in ("core.Sensor.set_value", "core.Sensor.set_formatted"):
        w = ctx.where(q)
        for p in returns(ctx.paths(q, opaque={"core.Sensor.set", "kattypes.*"})):
            c = [e for e in events(p, "call") if e.name == "set" and e.recv == SELF]
            st = [e for e in events(p, "store") if e.attr == "_current_reading"]
            ctx.ob("entry", "%s sets the reading once" % q, len(c) == 1 and not st, w,
                   "%d updates on a path of %s" % (len(c) + len(st), q))
            for e in c:
                fi = ctx.p.func(q)
                al = [arg(e, i, n) for i, n in enumerate(("timestamp", "status",
                                                          "value"))]
                if q.endswith("set_value"):
                    ok = al[1] == P("status") and al[2] == P("value") and \
                        (al[0] == P("timestamp") or call_name(al[0]) == "time")
                else:
                    names = fi.params[1:4]
                    ok = all(a is not None and uses(a, P(n))
                             for a, n in zip(al, names))
                ctx.ob("entry", "%s passes its values" % q, ok, e.where,
                       "set(%s)" % ", ".join(show(a) if a else "?" for a in al))
    q = "resource.KATCPSensor.__init__"
    ok = False
    for p in returns(ctx.paths(q, opaque={"core.*"})):
        for e in events(p, "store"):
            if e.attr == "set" and e.val[0] in ("bound", "attr") and \
                    "set" in (e.val[1] if e.val[0] == "bound" else e.val[2]):
                ok = True
    ctx.ob("entry", "KATCPSensor sees updates of its sensor", ok, ctx.where(q),
           "updates of the inner sensor do not reach the KATCPSensor")


PARTS = [updates, single_snapshot, observers, entry_points]
