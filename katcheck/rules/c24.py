"""The three sensor trees are followed as abstract machines: every state reachable over a few generic
sensors by the tree's own operations is enumerated, each operation being evaluated from the source on
the abstract state (constant propagation over sets and maps), and compared with a reference model of
the links, of the aggregates that are active or waiting, and of the boolean values.  A few generic
sensors suffice because an operation treats sensors by identity, one link at a time.  Only the public
operations are used to set up and to observe a state, so the representation is free."""
from ..machine import Machine, State, Tally, Thing, Undecided, snapshot
from ..teval import Unknown
from ..walk import Fun

MIN_OBLIGATIONS = 40
M = "sensortree."
ASSUMPTIONS = ["a sensor tells each attached observer of every update (C14)",
               "links form no cycle (a cycle recomputes without end)"]


def _log(kind, name):
    return Fun(kind, lambda t, *a, **kw: t.log.append((kind, name[0], a, kw)))


def sensor(label, **kw):
    me = [None]
    th = Thing(label, attach=_log("attach", me), detach=_log("detach", me), **kw)
    me[0] = th
    return th


def attached(before, log):
    now = set(before)
    for x in log:
        if x[0] == "attach":
            now.add(x[1])
        elif x[0] == "detach":
            now.discard(x[1])
    return frozenset(now)


def look(m, st, nodes):
    """(sensors in the tree, links seen from above, links seen from below)"""
    key = (m.cls, st.key())
    if key not in m.memo:
        inside, down, up = set(), set(), set()
        for x in nodes:
            o, _ = m.call(st, "__contains__", x)
            if o.kind != "return" or not isinstance(o.val, bool):
                raise Undecided("__contains__ gives %s" % (o.val,))
            if not o.val:
                continue
            inside.add(x)
            for name, rel in (("children", down), ("parents", up)):
                o, _ = m.call(st, name, x)
                if o.kind != "return" or o.val is Unknown:
                    raise Undecided("%s gives %s %s" % (name, o.kind, o.val))
                for y in o.val:
                    rel.add((x, y) if name == "children" else (y, x))
        m.memo[key] = inside, down, up
    return m.memo[key]


def _links(tally, what, m, st, nodes, att, log, links, extra=()):
    """The tree shows these links, mirrored, and observes what is in it."""
    inside, down, up = look(m, st, nodes)
    now = attached(att, log)
    linked = {x for l in links for x in l}
    tally(what + ": the children of every sensor", down == links,
          "children give %s, expected %s" % (sorted(map(str, down)), sorted(map(str, links))))
    tally(what + ": parents mirror children", up == down,
          "parents give %s, children %s" % (sorted(map(str, up)), sorted(map(str, down))))
    tally(what + ": sensors without links leave, others stay", inside == linked | set(extra),
          "in the tree: %s, linked: %s" % (sorted(map(str, inside)), sorted(map(str, linked))))
    tally(what + ": the sensors in the tree are observed, no others", now == inside,
          "observed: %s, in the tree: %s" % (sorted(map(str, now)), sorted(map(str, inside))))
    return now


def links(ctx):
    """add_links, remove_links and update of every tree."""
    a, b, c = S3 = [sensor(x, stype="boolean") for x in "abc"]
    for cls in ["GenericSensorTree"]:
        m = Machine(ctx, M + cls, {"recalculate": lambda t, e: t.log.append(
            ("recalc", t.args(e), snapshot(t)))}, opaque={"*.recalculate"})
        w = ctx.where(M + cls + ".add_links")
        tally = Tally(ctx, "links", w)
        try:
            o, st = m.call(State(), "__init__")
        except Undecided as x:
            ctx.ob("links", "an empty tree", None, w, str(x))
            continue
        ops = [(k, p, cs) for k in ("add_links", "remove_links")
               for p, cs in ((a, ()), (a, (b,)), (a, (c,)), (a, (b, c)), (b, ()), (b, (c,)))]
        ops += [("update", x, ()) for x in S3]
        seen, todo = {}, [(st, frozenset(), frozenset(), frozenset())]
        while todo:
            st, ls, ins, att = todo.pop()
            key = (st.key(), att)
            if key in seen:
                continue
            seen[key] = 1
            for k, p, cs in ops:
                if k == "remove_links" and p not in ins or k == "update" and p not in ins:
                    continue
                what = k
                try:
                    if k == "update":
                        o, st2 = m.call(st, k, p, Thing("reading"))
                    else:
                        o, st2 = m.call(st, k, p, tuple(cs))
                    sit = "%s(%s, %s) with links %s" % (k, p, cs, sorted(map(str, ls)))
                    if o.kind == "raise":
                        tally(what, False, "%s raises %s" % (sit, o.val))
                        continue
                    calls = [(x[1], x[2]) for x in o.log if x[0] == "recalc"]
                    if k == "update":
                        exp = {q for q, r in ls if r is p}
                        got = {y[0][0] for y, s in calls if y[0]}
                        tally("update: every parent is recomputed", got >= exp,
                              "%s: recomputed %s, parents %s" % (sit, got, exp))
                        tally("update: nothing else is recomputed", got <= exp,
                              "%s: recomputed %s, parents %s" % (sit, got, exp))
                        tally("update: told which child changed", all(
                            p in _updates(y) for y, s in calls), sit)
                        tally("update: keeps the links", look(m, st2, S3) == look(m, st, S3), sit)
                        continue
                    if k == "add_links":
                        ls2 = ls | {(p, x) for x in cs}
                        ins2 = ins | {p} | set(cs)
                    else:
                        ls2 = ls - {(p, x) for x in cs}
                        kept = {x for l in ls2 for x in l}
                        ins2 = ins - {x for x in (p,) + tuple(cs) if x not in kept}
                    att2 = _links(tally, what, m, st2, S3, att, o.log, ls2, ins2)
                    mine = [(y, s) for y, s in calls if y[0] and y[0][0] is p]
                    tally(what + ": the parent is recomputed", bool(mine), sit)
                    if mine:
                        ups = set()
                        for y, s in mine:
                            ups |= set(_updates(y))
                        tally(what + ": told which children changed", ups >= set(cs),
                              "%s: told of %s" % (sit, ups))
                        down = look(m, mine[-1][1], S3)[1]
                        tally(what + ": recomputed with the new links",
                              {l for l in down if l[0] is p} == {l for l in ls2 if l[0] is p},
                              "%s: recomputed with %s" % (sit, sorted(map(str, down))))
                    todo.append((st2, frozenset(ls2), frozenset(ins2), att2))
                except Undecided as x:
                    tally(what, None, str(x))
        _copies(ctx, m, tally, seen, a, b)
        tally.done(len(seen))


def _updates(call):
    args, kw = call
    x = args[1] if len(args) > 1 else kw.get("updates", ())
    return tuple(x) if x is not Unknown else ()


def _copies(ctx, m, tally, seen, a, b):
    o, st = m.call(State(), "__init__")
    o, st = m.call(st, "add_links", a, (b,))
    for name, x in (("children", a), ("parents", b)):
        try:
            o, st2 = m.call(st, name, x)
            if not isinstance(o.val, (set, list)):
                continue
            before = st2.key()
            o.val.clear()
            tally(name + ": gives a copy", st2.key() == before,
                  "the set %s() gives is the tree's own" % name)
        except Undecided as x:
            tally(name, None, str(x))


def booleans(ctx):
    """A parent is true exactly when all its children are."""
    vals = {}

    def value(me):
        def fn(t):
            for x in reversed(t.log):
                if x[0] == "set" and x[1] is me[0]:
                    return x[2]
            return vals[me[0]]
        return Fun("value", fn)

    def setter(me):
        def fn(t, *a, **kw):
            v = a[0] if a else kw.get("value", Unknown)
            t.log.append(("set", me[0], v))
        return Fun("set_value", fn)

    def make(name, stype="boolean"):
        me = [None]
        x = sensor(name, stype=stype, value=value(me), set_value=setter(me))
        me[0] = x
        return x
    a, b, c = S3 = [make(x) for x in "abc"]
    n = make("n", "integer")
    cls = M + "BooleanSensorTree"
    m = Machine(ctx, cls)
    w = ctx.where(cls + ".recalculate")
    tally = Tally(ctx, "boolean", w)
    o, st = m.call(State(), "__init__")
    pairs = [(a, b), (a, c), (b, c)]
    ops = [("add",) + p for p in pairs] + [("remove",) + p for p in pairs] + [
        ("set", x, v) for x in S3 for v in (True, False)] + [("add", a, n), ("add", n, a)]
    deep = ctx.deep
    todo = []
    for va in (False, True):
        for vb in (False, True):
            for vc in (False, True):
                todo.append((st, frozenset(), frozenset(), {a: va, b: vb, c: vc, n: True}))
    seen = {}

    def settle(st, att, log, v):
        """Sensors tell the tree of each new value while it observes them."""
        queue = list(log)
        while queue:
            x = queue.pop(0)
            if x[0] == "attach":
                att = att | {x[1]}
            elif x[0] == "detach":
                att = att - {x[1]}
            elif x[0] == "set":
                if not isinstance(x[2], bool):
                    raise Undecided("%s is set to %s" % (x[1], x[2]))
                v = dict(v)
                v[x[1]] = x[2]
                if x[1] in att:
                    vals.clear()
                    vals.update(v)
                    o, st = m.call(st, "update", x[1], Thing("reading"))
                    if o.kind == "raise":
                        raise ValueError("the update of %s raises %s" % (x[1], o.val))
                    queue.extend(o.log)
        return st, att, v

    while todo:
        st, ls, att, v = todo.pop()
        key = (st.key(), tuple(v[x] for x in S3), att)
        if key in seen:
            continue
        seen[key] = 1
        par = {p for p, _ in ls}
        for k, x, y in ops:
            what = k
            sit = "%s(%s, %s) with links %s and values %s" % (k, x, y, sorted(map(str, ls)), v)
            try:
                vals.clear()
                vals.update(v)
                if k == "set":
                    if x in par:
                        continue
                    st2, att2, v2 = settle(st, att, [("set", x, y)], v)
                    ls2 = ls
                elif n in (x, y):
                    o, st2 = m.call(st, k, x, y)
                    tally("add: a sensor that is not boolean is refused", o.kind == "raise" and
                          o.val == "ValueError", sit)
                    if o.path is None:
                        continue
                    same = look(m, st2, S3 + [n]) == look(m, st, S3 + [n]) and not o.log
                    tally("add: a refused sensor leaves the tree as it was", same, sit)
                    continue
                else:
                    if k == "remove" and (x, y) not in ls:
                        continue
                    o, st2 = m.call(st, k, x, y)
                    if o.kind == "raise":
                        tally(what, False, "%s raises %s" % (sit, o.val))
                        continue
                    ls2 = ls | {(x, y)} if k == "add" else ls - {(x, y)}
                    _links(tally, what, m, st2, S3, att, o.log, ls2)
                    st2, att2, v2 = settle(st2, att, o.log, v)
                wrong = [p for p in S3 if any(q is p for q, _ in ls2) and
                         v2[p] != all(v2[r] for q, r in ls2 if q is p)]
                tally(what + ": every parent is true exactly when all its children are", not wrong,
                      "%s leaves %s" % (sit, {str(p): v2[p] for p in S3}))
                if k == "remove" and not any(q is x for q, _ in ls2):
                    tally("remove: a parent that lost its last child no longer depends on it",
                          v2[x] is True, "%s leaves %s %s" % (sit, x, v2[x]))
                if not wrong:
                    todo.append((st2, frozenset(ls2), att2, v2))
            except Undecided as e:
                tally(what, None, "%s: %s" % (sit, e))
            except ValueError as e:
                tally(what, False, "%s: %s" % (sit, e))
    tally.done(len(seen))


class Ref(object):
    """Aggregates as they should be."""

    def __init__(self, active=(), waiting=(), reg=()):
        self.active, self.waiting, self.reg = dict(active), dict(waiting), dict(reg)

    def copy(self):
        return Ref(self.active, self.waiting, self.reg)

    def key(self):
        return (frozenset(self.active.items()), frozenset(self.waiting.items()),
                frozenset(self.reg.items()))

    def links(self):
        return {(p, x) for p, cs in self.active.items() for x in cs}

    def do(self, op, x, y=None):
        """the aggregates that become active, or None for ValueError"""
        if op in ("add", "add_delayed"):
            if x in self.active or x in self.waiting:
                return None
            if op == "add":
                self.active[x] = frozenset(y)
                return [x]
            need = frozenset(y) - set(self.reg)
            have = frozenset(self.reg[i] for i in y if i in self.reg)
            if need:
                self.waiting[x] = (need, have)
                return []
            self.active[x] = have
            return [x]
        if op == "register_sensor":
            if x.name in self.reg:
                return None
            self.reg[x.name] = x
            on = []
            for p, (need, have) in list(self.waiting.items()):
                if x.name in need:
                    need, have = need - {x.name}, have | {x}
                    self.waiting[p] = (need, have)
                    if not need:
                        del self.waiting[p]
                        self.active[p] = have
                        on.append(p)
            return on
        if op == "deregister_sensor":
            if x.name not in self.reg:
                return None
            s = self.reg.pop(x.name)
            for p, (need, have) in list(self.waiting.items()):
                if s in have:
                    self.waiting[p] = (need | {x.name}, have - {s})
            for p, cs in list(self.active.items()):
                if s in cs:
                    del self.active[p]
                    self.waiting[p] = (frozenset([x.name]), cs - {s})
            return []
        if op == "remove":
            if x not in self.active:
                return None
            del self.active[x]
            return []


def aggregates(ctx):
    """Which aggregates are active, and over which sensors."""
    a, b, c, d = nodes = [sensor(x) for x in "abcd"]
    c2 = sensor("c2", name="c")
    rule = Fun("rule", lambda t, *args, **kw: t.log.append(("rule", args, kw)))
    cls = M + "AggregateSensorTree"
    m = Machine(ctx, cls)
    w = ctx.where(cls + ".add")
    tally = Tally(ctx, "aggregate", w)
    o, st = m.call(State(), "__init__")
    ops = [("add", a, (c, d)), ("add", b, (c,)), ("add_delayed", a, ("c", "d")),
           ("add_delayed", b, ("c",)), ("register_sensor", c), ("register_sensor", d),
           ("register_sensor", c2), ("deregister_sensor", c), ("deregister_sensor", d),
           ("remove", a), ("remove", b)]
    if ctx.deep:
        ops += [("add", b, (a,)), ("add_delayed", b, ("a", "c")), ("register_sensor", a),
                ("deregister_sensor", a), ("add", a, (c,)), ("add_delayed", a, ("d",))]
    nodes = nodes + [c2]
    limit = 6000 if ctx.deep else 600
    todo, seen, i = [(st, Ref(), frozenset())], {}, 0
    while i < len(todo) and len(seen) < limit:
        st, ref, att = todo[i]
        todo[i] = None
        i += 1
        key = (st.key(), ref.key())
        if key in seen:
            continue
        seen[key] = 1
        for op in ops:
            k, x = op[:2]
            if k == "remove" and x in ref.waiting:
                continue
            what = k
            sit = "%s(%s) with %s active, %s waiting, %s registered" % (
                k, ", ".join(map(str, op[1:])), ref.active, ref.waiting, sorted(ref.reg))
            try:
                ref2 = ref.copy()
                on = ref2.do(*op)
                args = (x, rule, op[2]) if k in ("add", "add_delayed") else (x,)
                o, st2 = m.call(st, k, *args)
                if on is None:
                    tally(what + ": refused", o.kind == "raise" and o.val == "ValueError",
                          "%s gives %s %s" % (sit, o.kind, o.val))
                    if o.path is not None:
                        tally(what + ": refused without a change", st2.key() == st.key() or (
                            None if look(m, st2, nodes) == look(m, st, nodes) else False), sit)
                    continue
                if o.kind == "raise":
                    tally(what, False, "%s raises %s" % (sit, o.val))
                    continue
                att2 = _links(tally, what, m, st2, nodes, att, o.log, ref2.links())
                ran = {(y[1][0], frozenset(y[1][1])) for y in o.log
                       if y[0] == "rule" and len(y[1]) == 2}
                if any(y[0] == "rule" and len(y[1]) != 2 for y in o.log):
                    raise Undecided("the rule is called in another way")
                for p in on:
                    tally(what + ": an aggregate is computed when it becomes active",
                          (p, ref2.active[p]) in ran, "%s: computed %s" % (sit, sorted(
                              map(str, ran))))
                for p in ref2.waiting:
                    if p not in ref.waiting and p not in ref.active:
                        tally(what + ": an aggregate is not computed before its sensors are there",
                              not any(q is p for q, _ in ran), sit)
                good = _updated(tally, m, st2, ref2, nodes, sit)
                if not good:
                    continue
                todo.append((st2, ref2, att2))
            except Undecided as e:
                tally(what, None, "%s: %s" % (sit, e))
    tally.done(len(seen))


def _updated(tally, m, st, ref, nodes, sit):
    """Every active aggregate follows each of its sensors, and no other does."""
    key = ("updated", st.key(), ref.key())
    if key in m.memo:
        return m.memo[key]
    m.memo[key] = good = True
    for s in {x for l in ref.links() for x in l}:
        o, _ = m.call(st, "update", s, Thing("reading"))
        ran = [(y[1][0], frozenset(y[1][1])) for y in o.log if y[0] == "rule"] \
            if o.kind == "return" else o.val
        exp = {(p, cs) for p, cs in ref.active.items() if s in cs}
        ok = o.kind == "return" and set(ran) == exp
        good = good and ok
        tally("update: computes the aggregates that use the sensor, over all their sensors", ok,
              "after %s an update of %s computes %s, expected %s" % (sit, s, ran, sorted(
                  map(str, exp))))
    for p, cs in ref.active.items():
        o, _ = m.call(st, "fetch", p)
        if o.kind == "return" and isinstance(o.val, tuple) and len(o.val) == 2:
            tally("fetch: the rule and the sensors of an aggregate", set(o.val[1]) == cs,
                  "after %s fetch gives %s" % (sit, o.val))
        else:
            tally("fetch: the rule and the sensors of an aggregate", False
                  if o.kind == "raise" else None, "after %s fetch gives %s" % (sit, o.val))
    m.memo[key] = good
    return good


PARTS = [links, booleans, aggregates]
