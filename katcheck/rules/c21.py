"""Scenario evaluation over the paths of the inspections: a device description is abstracted to a
generic subject, a bystander and a new item; for every combination of what was known before, what the
device reports now (each reported field equal or different), which name was asked for and how the
device replied, the one path taken is followed with its bindings and must give exactly the difference,
leave exactly the reported items in the index without marks or stale objects, and drop the cached
sensor objects of what is gone or changed.  inspect() is evaluated for every outcome of its two steps
(which may have changed entries in place before they failed): a failure is raised and leaves both
indexes as they were.  Lookups are evaluated for known, unknown and stale items."""
import ast
import copy

from ..engine import BASELINE, NONE, const, is_const, show
from ..lib import (A, P, S, SELF, arg, attr_stores, call_name, events, has, path_str, uses,
                   within)
from ..teval import Fails, Record, Sentinel, Unknown
from ..walk import walk

MIN_OBLIGATIONS = 150
C = "inspecting_client.InspectingClientAsync"
ASSUMPTIONS = ["a device reports each name once in one inspection",
               "informs are well-formed (a malformed one makes the inspection fail)"]
SI, RI, OC = S("_sensors_index"), S("_requests_index"), S("_sensor_object_cache")
FLAGS = A(SELF, "katcp_client", "protocol_flags")
EXC = {"fails": "inspecting_client.SyncError", "times out": "tornado.gen.TimeoutError"}
SFIELDS = ("description", "units", "sensor_type", "params")


def _sensor(n=0, field=None):
    d = {"description": "d", "units": "u", "sensor_type": "integer", "params": ["1", "2"]}
    if field == "params":
        d["params"] = ["1", "3"]
    elif field:
        d[field] = "other"
    return d


def _request(name, field=None):
    d = {"name": name, "description": "d", "timeout_hint": 5.0}
    if field == "timeout_hint":
        d[field] = 7.0
    elif field == "no hint":
        d["timeout_hint"] = None
    elif field:
        d[field] = "other"
    return d


def _binform(name, info, sensors):
    a = [name.encode(), info["description"].encode()]
    if sensors:
        a += [info["units"].encode(), info["sensor_type"].encode()]
        a += [x.encode() for x in info["params"]]
    return Record(arguments=a, name="x")


def _run(ctx, sensors, name, before, reported, ok=True, error=b"oops", flag=True):
    """Outcome of inspect_sensors / inspect_requests."""
    index = {k: dict(v) for k, v in before.items()}
    reply = Record(arguments=[b"ok"] if ok else [b"fail", error], name="r")
    informs = [_binform(k, v, sensors) for k, v in reported.items()]
    hints = {k: v["timeout_hint"] for k, v in reported.items()
             if not sensors and v["timeout_hint"] is not None}

    def yields(t, e):
        n = call_name(e.val) if e.val[0] in ("call", "new") else None
        for x in (e.val,) + (tuple(e.val[2]) if e.val[0] == "call" else ()):
            if x[0] == "call" and call_name(x) == "future_request":
                t.log.append(x)
                return (reply, informs)
            if x[0] == "call" and call_name(x) == "_get_request_timeout_hints":
                return dict(hints)
        return Unknown

    env = {P("name"): name, P("timeout"): None, SI if sensors else RI: index,
           RI if sensors else SI: {},
           OC: {k: v["obj"] for k, v in before.items() if "obj" in v} if sensors else {},
           A(FLAGS, "request_timeout_hints"): flag}
    q = C + (".inspect_sensors" if sensors else ".inspect_requests")
    o, why = walk(ctx, q, env, {"reply_ok": lambda t, e: ok,
                                "remaining": lambda t, e: None}, yields, unroll=True,
                  opaque={"*._get_request_timeout_hints", "*.future_request",
                          "*.future_timeout_manager"})
    return o, why, o.log if o is not None else []


def _plain(info):
    return {k: v for k, v in info.items() if k != "obj"}


def _expect(name, before, reported):
    diff = {k for k in reported if k in before and _plain(before[k]) != _plain(reported[k])}
    new = {k for k in reported if k not in before}
    gone = {k for k in before if k not in reported} if name is None else (
        {name} if name in before and name not in reported else set())
    return new | diff, gone | diff, diff, gone


def _cases(sensors):
    o = Sentinel("cached object")
    mk = (lambda k, f=None: _sensor(field=f)) if sensors else _request
    fields = SFIELDS if sensors else ("description", "timeout_hint", "no hint")
    olds = [("unknown", None), ("known", mk("k")), ("known and used", dict(mk("k"), obj=o))]
    for f in fields:
        olds.append(("known with another %s" % f, mk("k", f)))
        olds.append(("used with another %s" % f, dict(mk("k", f), obj=o)))
    for name in (None, "k", "/re/"):
        for what, old in olds:
            for rep in (True, False):
                if name == "/re/" and not rep:
                    continue
                for by in ("absent", "same", "gone"):
                    before, now = {}, {}
                    if by != "absent":
                        before["z"] = dict(mk("z"), obj=Sentinel("object of z"))
                        if by == "same":
                            now["z"] = mk("z")
                    if old is not None:
                        before["k"] = old
                    if rep:
                        now["k"] = mk("k")
                    if name == "k":
                        now.pop("z", None)
                        if by == "gone":
                            continue
                    yield ("asked %s, %s, %s, bystander %s" % (
                        name or "all", what, "reported" if rep else "not reported", by),
                        name, before, now)


def difference(ctx):
    for sensors in (True, False):
        q = C + (".inspect_sensors" if sensors else ".inspect_requests")
        w = ctx.where(q)
        kind = "sensors: " if sensors else "requests: "
        for inst, name, before, now in _cases(sensors):
            i = kind + inst
            if sensors or True:
                o, why, asked = _run(ctx, sensors, name, before, now)
            _judge(ctx, i, o, why, name, before, now, sensors, w)
            if o is not None:
                _asked(ctx, kind, name, asked, w)


def _asked(ctx, kind, name, asked, w):
    from ..lib import as_msg
    for a in asked[:1]:
        m = as_msg(a[2][0]) if a[2] else None
        if m is None or m.args is None:
            ctx.ob("asked", kind + "request recognised", None, w, "")
            return
        want = "sensor-list" if kind.startswith("sensors") else "help"
        nm = m.name
        ctx.ob("asked", kind + "the right request", nm == const(want) or (
            None if nm is None or not is_const(nm) else False), w, show(nm or NONE))
        if name is None:
            ctx.ob("asked", kind + "everything", len(m.args) == 0, w,
                   "asks for %s" % [show(x) for x in m.args])
        else:
            ctx.ob("asked", kind + "the name given", any(uses(x, P("name")) for x in m.args), w,
                   "asks for %s" % [show(x) for x in m.args])


def _judge(ctx, i, o, why, name, before, now, sensors, w):
    if o is None:
        ctx.ob("difference", i, None, w, why)
        return
    if o.kind != "return":
        ctx.ob("difference", i, False if o.kind == "raise" else None, w,
               "the inspection raises %s" % o.val)
        return
    added, removed, diff, gone = _expect(name, before, now)
    v = o.val
    if v is Unknown:
        ctx.ob("difference", i, None, w, "result not evaluated")
        return
    if not added and not removed:
        ctx.ob("difference", i + ": nothing", not v or not any(v.values()), w,
               "reports %r although nothing differs" % (v,))
    elif not isinstance(v, dict) or not isinstance(v.get("added"), (set, frozenset, list)) or \
            not isinstance(v.get("removed"), (set, frozenset, list)):
        ctx.ob("difference", i, False if v is None or isinstance(v, dict) else None, w,
               "reports %r, expected added %s, removed %s" % (v, sorted(added), sorted(removed)))
    else:
        ctx.ob("difference", i + ": added", set(v["added"]) == added, w, "reports %s, expected "
               "%s" % (sorted(v["added"]), sorted(added)))
        ctx.ob("difference", i + ": removed", set(v["removed"]) == removed, w,
               "reports %s, expected %s" % (sorted(v["removed"]), sorted(removed)))
    ix = o.get(SI if sensors else RI)
    if ix is Unknown:
        ctx.ob("index", i, None, w, "index not evaluated")
        return
    want = {k: _plain(x) for k, x in before.items() if k not in gone}
    want.update({k: _plain(x) for k, x in now.items()})
    got = {k: _plain(x) for k, x in ix.items()}
    ctx.ob("index", i, got == want, w, "the index holds %r, the device has %r" % (got, want))
    stale = [k for k in ix if k in diff and "obj" in ix[k]]
    ctx.ob("objects", i + ": stale", not stale, w,
           "the object made from the old description of %s is kept" % stale)
    lost = [k for k in ix if k in before and k not in diff and "obj" in before[k] and
            ix[k].get("obj") is not before[k]["obj"]]
    ctx.ob("objects", i + ": kept", not lost, w, "the object of %s, which did not change, is "
           "lost" % lost)
    if sensors:
        oc = o.get(OC)
        if oc is Unknown:
            ctx.ob("objects", i + ": cache", None, w, "cache not evaluated")
            return
        bad = [k for k in oc if k in removed]
        ctx.ob("objects", i + ": cache", not bad, w,
               "updates still go to the old object of %s" % bad)


def errors(ctx):
    for sensors in (True, False):
        q = C + (".inspect_sensors" if sensors else ".inspect_requests")
        w = ctx.where(q)
        kind = "sensors: " if sensors else "requests: "
        unk = b"Unknown sensor name." if sensors else b"Unknown request method."
        k = _sensor() if sensors else _request("k")
        z = _sensor() if sensors else _request("z")
        for name, err in ((None, b"oops"), (None, unk), ("k", b"oops"), ("/re/", b"oops")):
            before = {"k": k, "z": z}
            o, why, _ = _run(ctx, sensors, name, before, {}, ok=False, error=err)
            i = kind + "asked %s, reply fail %s" % (name or "all", err.decode())
            if o is None:
                ctx.ob("error", i, None, w, why)
                continue
            ctx.ob("error", i, o.kind == "raise", w, "a failed inspection counts as done")
            ix = o.get(SI if sensors else RI)
            if ix is not Unknown:
                ctx.ob("error", i + ": unchanged", ix == before, w, "the index is changed to %r" % (
                    ix,))
        before = {"k": k, "z": z}
        o, why, _ = _run(ctx, sensors, "k", before, {}, ok=False, error=unk)
        _judge(ctx, kind + "asked k, reply unknown", o, why, "k", before, {}, sensors, w)
    # hints
    for flag in (True, False):
        before = {"k": _request("k")}
        o, why, _ = _run(ctx, False, None, before, {"k": _request("k")}, flag=flag)
        w = ctx.where(C + ".inspect_requests")
        i = "timeout hints %s" % ("offered" if flag else "not offered")
        if o is None or o.kind != "return" or o.get(RI) is Unknown:
            ctx.ob("hints", i, None, w, why)
        else:
            ctx.ob("hints", i, o.get(RI).get("k", {}).get("timeout_hint") == (
                5.0 if flag else None), w, "%r" % (o.get(RI),))
    q = C + "._get_request_timeout_hints"
    if not ctx.p.has_func(q):
        return
    w = ctx.where(q)
    informs = [Record(arguments=[b"a", b"2.5"]), Record(arguments=[b"b", b"0"]),
               Record(arguments=[b"c", b"10"])]
    for ok in (True, False):
        o, why = walk(ctx, q, {P("name"): None, P("timeout"): None},
                      {"reply_ok": lambda t, e: ok},
                      lambda t, e: (Record(arguments=[]), informs), unroll=True,
                      opaque={"*.future_request"})
        if o is None:
            ctx.ob("hints", "reply ok=%s" % ok, None, w, why)
        elif ok:
            ctx.ob("hints", "as reported, without the zeros", o.kind == "return" and
                   (None if o.val is Unknown else {k: v for k, v in o.val.items() if v is not None} == {
                       "a": 2.5, "c": 10.0}), w, "%r" % (o.val,))
        else:
            ctx.ob("hints", "an error reply is an error", o.kind == "raise", w, "")


def whole(ctx):
    """inspect(): every outcome of its two steps, which work in place."""
    q = C + ".inspect"
    w = ctx.where(q)
    o1, o2 = Sentinel("sensor object"), Sentinel("request object")
    sens = {"k": dict(_sensor(), obj=o1), "z": _sensor()}
    reqs = {"k": dict(_request("k"), obj=o2), "z": _request("z")}
    changes = {"added": {"n"}, "removed": {"z"}}
    for r in ("changes", "nothing", "fails", "times out"):
        for s in ("changes", "nothing", "fails", "times out", None):
            if (s is None) != (r in ("fails", "times out")):
                continue
            _whole(ctx, q, w, r, s, sens, reqs, changes)


def _mutate(ix, fresh):
    ix["k"]["description"] = "changed"
    ix["k"].pop("obj", None)
    ix["k"]["_changed"] = True
    del ix["z"]
    ix["n"] = fresh


def _whole(ctx, q, w, r, s, sens, reqs, changes):
    def step(what, slot, fresh):
        def f(t, e):
            a, kw = t.args(e)
            t.log.append((a + [kw.get("name")])[0])
            how = r if slot == RI else s
            ix = t.ev(slot)
            if how != "nothing":
                _mutate(ix, fresh)
            if how in EXC:
                raise Fails(EXC[how])
            return Sentinel(what)
        return f

    def yields(t, e):
        n = call_name(e.val) if e.val[0] == "call" else None
        if n == "inspect_requests":
            return copy.deepcopy(changes) if r == "changes" else None
        if n == "inspect_sensors":
            return copy.deepcopy(changes) if s == "changes" else None
        return Unknown

    i = "requests: %s, sensors: %s" % (r, s or "not reached")
    env = {SI: sens, RI: reqs, OC: {"k": sens["k"]["obj"]}, P("timeout"): None}
    o, why = walk(ctx, q, env, {"inspect_requests": step("r", RI, _request("n")),
                                "inspect_sensors": step("s", SI, _sensor()),
                                "remaining": lambda t, e: None}, yields, raise_all=True,
                  noraise=lambda e: e.name not in ("inspect_requests", "inspect_sensors"),
                  unroll=True, no_fork_raise=False, exc_of=lambda e: EXC.get(
                      r if e.name == "inspect_requests" else s) if e.name in (
                          "inspect_requests", "inspect_sensors") else None,
                  opaque={"*.inspect_requests", "*.inspect_sensors", "*.future_timeout_manager"})
    if o is None:
        ctx.ob("whole", i, None, w, why)
        return
    names = o.log
    if any(x is not None for x in names):
        ctx.ob("whole", i + ": everything is inspected", None, w, "names %r" % (names,))
    bad = r in ("fails", "times out") or s in ("fails", "times out")
    if bad:
        ctx.ob("whole", i + ": raised", o.kind == "raise", w, "inspect() gives %r although the "
               "inspection failed" % (o.val,))
        for slot, was, n in ((SI, sens, "sensors"), (RI, reqs, "requests")):
            ix = o.get(slot)
            ctx.ob("whole", i + ": %s as before" % n, None if ix is Unknown else ix == was, w,
                   "the %s index is left as %r, it was %r" % (n, ix, was))
        return
    ctx.ob("whole", i + ": done", o.kind == "return" and len(names) == 2, w,
           "inspect() gives %s %r after inspecting %d of 2" % (o.kind, o.val, len(names)))
    v = o.val
    if o.kind != "return" or v is Unknown:
        if v is Unknown:
            ctx.ob("whole", i + ": result", None, w, "")
        return
    want = {k: changes for k, x in (("requests", r), ("sensors", s)) if x == "changes"}
    ctx.ob("whole", i + ": result", (dict(v) if v else {}) == want, w, "gives %r" % (v,))


def lookups(ctx):
    """future_check_* and future_get_*: what is known is used, what is not is asked for, and an
    object is made once from the present description."""
    for what, slot, other in (("sensor", SI, RI), ("request", RI, SI)):
        obj = Sentinel("the old object")
        info = _sensor() if what == "sensor" else _request("k")
        q = C + ".future_check_" + what
        w = ctx.where(q)
        for known in (True, False):
            for upd in (None, True, False):
                for on in (True, False):
                    for found in ((True, False) if not known else (True,)):
                        _check(ctx, q, w, what, slot, info, known, upd, on, found)
        q = C + ".future_get_" + what
        w = ctx.where(q)
        for known, used in ((True, True), (True, False), (False, False)):
            ix = {"k": dict(info, **({"obj": obj} if used else {}))} if known else {}

            def factory(t, e):
                a, kw = ([], {})
                try:
                    a, kw = t.args(e)
                except Unknown:
                    pass
                m = Sentinel("a new object")
                t.log.append((m, a, kw))
                return m

            def yields(t, e):
                n = call_name(e.val) if e.val[0] == "call" else None
                return known if n == "future_check_" + what else Unknown

            o, why = walk(ctx, q, {P("name"): "k", P("update"): None, slot: ix, OC: {}},
                          {what + "_factory": factory, "parse_type": lambda t, e: 0,
                           "parse_params": lambda t, e: [],
                           "native_str_to_bytes": lambda t, e: b"x"}, yields, unroll=True,
                          opaque={"*.future_check_" + what, "*.parse_type", "*.parse_params"})
            i = "get %s, %s" % (what, "used before" if used else "known" if known else "unknown")
            if o is None or o.kind == "return" and o.val is Unknown:
                ctx.ob("lookup", i, None, w, why)
                continue
            made = o.log
            if o.kind != "return":
                ctx.ob("lookup", i, False, w, "raises %s" % o.val)
                continue
            if not known:
                ctx.ob("lookup", i, o.val is None and not made, w, "gives %r" % (o.val,))
                continue
            if used:
                ctx.ob("lookup", i, o.val is obj and not made, w, "a second object is made while "
                       "the first one is in use")
                continue
            ctx.ob("lookup", i + ": made", len(made) == 1 and o.val is made[0][0], w,
                   "gives %r" % (o.val,))
            if len(made) != 1:
                continue
            ix2 = o.get(slot)
            ctx.ob("lookup", i + ": kept for the next use", None if ix2 is Unknown else
                   ix2.get("k", {}).get("obj") is made[0][0], w, "%r" % (ix2,))
            if what == "sensor":
                oc = o.get(OC)
                ctx.ob("lookup", i + ": gets the updates", None if oc is Unknown else
                       oc.get("k") is made[0][0], w, "%r" % (oc,))
            for f in ("description", "name"):
                kw = made[0][2]
                if kw:
                    ctx.ob("lookup", i + ": made from the index: " + f, kw.get(f) == (
                        "k" if f == "name" else "d"), w, "%r" % (kw,))


def _check(ctx, q, w, what, slot, info, known, upd, on, found):
    def inspect(t, e):
        a, kw = t.args(e)
        t.log.append((a + [kw.get("name")])[0])
        if found:
            t.ev(slot)["k"] = dict(info)
        return Sentinel("inspection")

    def yields(t, e):
        n = call_name(e.val) if e.val[0] == "call" else None
        if n == "inspect_%ss" % what:
            return None
        return Unknown

    o, why = walk(ctx, q, {P("name"): "k", P("update"): upd, S("_update_on_lookup"): on,
                           slot: {"k": dict(info)} if known else {}},
                  {"inspect_%ss" % what: inspect}, yields, unroll=True,
                  opaque={"*.inspect_%ss" % what, "*.until_data_synced"})
    i = "check %s, %s, update=%s, update on lookup %s%s" % (
        what, "known" if known else "unknown", upd, on, "" if known else ", exists"
        if found else ", does not exist")
    if o is None or o.kind == "return" and o.val is Unknown:
        ctx.ob("lookup", i, None, w, why)
        return
    calls = o.log
    ask = not known and (upd or upd is None and on)
    want = known or bool(ask and found)
    ctx.ob("lookup", i, o.kind == "return" and bool(o.val) == want, w, "gives %r" % (o.val,))
    ctx.ob("lookup", i + ": asks", (calls == ["k"]) if ask else not calls, w,
           "inspects %r" % (calls,))
    wait = o.path is not None and any(e.kind == "yield" and has(e.val, lambda t: t[0] == "call" and
                                      call_name(t) == "until_data_synced")
                                      for e in o.path.events)
    ctx.ob("lookup", "check %s waits for the data" % what, wait, w,
           "answers from an index that is not complete")


def writers(ctx):
    own = (C + ".__init__", C + ".inspect", C + "._update_index", C + "._difference",
           C + ".inspect_sensors", C + ".inspect_requests", C + ".future_get_sensor",
           C + ".future_get_request")
    for attr in ("_sensors_index", "_requests_index", "_sensor_object_cache"):
        for fq, node in attr_stores(ctx, attr):
            ctx.ob("writers", "%s in %s" % (attr, fq), within(ctx, fq, own),
                   ctx.where(fq), "the model is replaced here")
        for fq, fi in sorted(ctx.p.functions.items()):
            if ".<locals>." in fq:
                continue
            for n in ast.walk(fi.node):
                t = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ("pop", "clear", "update", "setdefault", "popitem"):
                    t = n.func.value
                while isinstance(t, ast.Subscript):
                    t = t.value
                if isinstance(t, ast.Attribute) and t.attr == attr:
                    ctx.ob("writers", "%s mutated in %s" % (attr, fq), within(ctx, fq, own), fi.where,
                           "the model is changed here")


PARTS = [difference, errors, whole, lookups, writers]
