"""Events, states and combinators followed as an abstract machine (used by C25).

The stand-ins below (a future that calls its callbacks at once, in order, over its live list; a loop
whose clock is moved by hand) are analysed together with the code, not run."""
import itertools

from .machine import Tally, Thing, Undecided, World
from .teval import Fails, Unknown
from .walk import Fun, Obj

PROBE = '''
class ProbeFuture(object):
    def __init__(self, world):
        self.world = world
        self.state = None
        self.value = None
        self._callbacks = []

    def done(self):
        return self.state is not None

    def exception(self, timeout=None):
        return self.value if self.state == "failed" else None

    def exc_info(self):
        return self.value

    def result(self, timeout=None):
        if self.state is None:
            self.world.during(timeout)
        if self.state is None:
            raise TimeoutError()
        if self.state == "failed":
            self.world.fail(self.value)
        return self.value

    def settle(self, state, value):
        if self.state is not None:
            raise AssertionError()
        self.state = state
        self.value = value
        i = 0
        while i < len(self._callbacks):
            callback = self._callbacks[i]
            if self.world.is_future(callback):
                if not callback.done():
                    callback.settle(self.state, self.value)
            else:
                callback(self)
            i += 1
        self._callbacks = None

    def set_result(self, value):
        self.settle("done", value)

    def set_exception(self, value):
        self.settle("failed", value)

    def set_exc_info(self, value):
        self.settle("failed", value)

    def add_done_callback(self, callback):
        if self.state is not None:
            callback(self)
        else:
            self._callbacks.append(callback)


class ProbeSpy(object):
    def __init__(self, world, name, react):
        self.world = world
        self.name = name
        self.react = react

    def told(self, future):
        self.world.note("told", self.name, future.state, future.value)
        for step in self.react:
            self.world.one(step)


class ProbeWorld(object):
    def __init__(self):
        self.timers = []
        self.waits = []
        self.inner = []
        self.now = 100.0

    def time(self):
        return self.now

    def add_callback(self, callback, *args):
        self.inner.append(callback)

    def call_later(self, delay, callback, *args):
        self.calls.append((delay, callback, args))

    def call_at(self, when, callback, *args):
        self.calls.append((when - self.now, callback, args))

    def add_timeout(self, when, callback, *args):
        self.calls.append((when - self.now, callback, args))

    def turn(self):
        while self.inner:
            self.inner.pop(0)()

    def during(self, timeout):
        if self.busy:
            return
        self.turn()
        for step in self.meanwhile:
            self.one(step)
        self.turn()

    def expire(self, by):
        self.now = self.now + by
        for deadline, future in list(self.timers):
            if deadline <= self.now and not future.done():
                future.settle("failed", "TimeoutError")

    def wait(self, got, react):
        self.waits.append(got)
        got.add_done_callback(ProbeSpy(self, len(self.waits) - 1, react).told)

    def one(self, step):
        what = step[0]
        if what == "set":
            self.it.set()
        elif what == "clear":
            self.it.clear()
        elif what == "wait":
            if step[1] is None:
                self.wait(self.it.until_set(), step[2])
            else:
                self.wait(self.it.until_set(timeout=step[1]), step[2])
        elif what == "enter":
            self.it.set_state(step[1])
        elif what == "until":
            if step[2] is None:
                self.wait(self.it.until_state(step[1]), step[3])
            else:
                self.wait(self.it.until_state(step[1], timeout=step[2]), step[3])
        elif what == "in":
            if step[2] is None:
                self.wait(self.it.until_state_in(*step[1]), step[3])
            else:
                self.wait(self.it.until_state_in(*step[1], timeout=step[2]), step[3])
        elif what == "expire":
            self.expire(step[1])
        elif what == "settle":
            self.futures[step[1]].settle(step[2], step[3])
        elif what == "spy":
            self.wait(self.futures[step[1]], ())

    def drive(self, steps):
        for step in steps:
            try:
                self.one(step)
            except ValueError:
                self.note("refused")
            self.note("now", self.flag())

    def flag(self):
        return None

    def any(self, futures, timeout, steps):
        self.futures = futures
        for step in steps[0]:
            self.one(step)
        if timeout is None:
            got = until_any(*futures)
        else:
            got = until_any(*futures, timeout=timeout, ioloop=self)
        self.note("any made")
        self.wait(got, ())
        for step in steps[1]:
            self.one(step)

    def later(self, delay, given):
        if given:
            self.wait(until_later(delay, self), ())
        else:
            self.wait(until_later(delay), ())
        for at, callback, args in self.calls:
            self.note("called", at)
            callback(*args)

    def blocking(self, before, meanwhile, timeout):
        self.busy = meanwhile is None
        self.meanwhile = meanwhile
        for step in before:
            self.one(step)
        self.note("blocked", self.it.wait_with_ioloop(self, timeout))


class ProbeEventWorld(ProbeWorld):
    def flag(self):
        return self.it.is_set(), self.it.isSet()


class ProbeStateWorld(ProbeWorld):
    def flag(self):
        return self.it.state
'''


def whole(cls, **kw):
    o = Obj("core." + cls)
    o.__dict__.update(kw)
    o.__dict__["%whole"] = True
    return o


def models(world):
    def future(t, e):
        return whole("ProbeFuture", world=t.env[("root", "world")], state=None, value=None,
                     _callbacks=[])

    def with_timeout(t, e):
        a, kw = t.args(e)
        if len(a) < 2:
            raise Unknown("with_timeout")
        w, f = t.env[("root", "world")], a[1]
        r = future(t, e)
        if not isinstance(a[0], (int, float)) or not isinstance(f, Obj):
            raise Unknown("with_timeout")
        if f.state is not None:
            r.state, r.value = f.state, f.value
            r._callbacks = None
        else:
            f._callbacks.append(r)
            w.timers.append((a[0], r))
        return r

    def chain(t, e):
        a, b = t.args(e)[0]
        if a.state is not None:
            if b.state is None:
                b.state, b.value = a.state, a.value
        else:
            a._callbacks.append(b)
        return None

    def loop(t, e):
        return t.env[("root", "world")]
    return {"Future": future, "tornado_Future": future, "TracebackFuture": future,
            "with_timeout": with_timeout, "chain_future": chain, "current": loop}


def make(ctx, cls, what=None, *args):
    """(World, state) with a world and, if wanted, an object made by its constructor."""
    if "core.ProbeWorld" not in ctx.p.classes:
        for src in PROBE.strip().split("\n\n\n"):
            ctx.probe("core", src)
    w = World(ctx, models(None))
    st = {}
    o, st = w.new(st, "world", "core." + cls)
    if what is not None:
        o, st = w.new(st, "it", what, *args)
        if o.kind == "raise":
            return w, st, o.val
        st["world"].it = st["it"]
    world = st["world"]
    world.note = Fun("note", lambda t, *a: t.log.append(a))
    world.calls = []
    world.busy = False
    world.meanwhile = ()

    def fail(t, v):
        raise Fails(v if isinstance(v, str) else "Exception")
    world.fail = Fun("fail", fail)
    world.is_future = Fun("is_future", lambda t, x: isinstance(x, Obj) and
                          x.__dict__.get("%cls") == "core.ProbeFuture")
    return w, st, None


class Ref(object):
    """What the documentation says of events and states."""

    def __init__(self, value, valid=None):
        self.value, self.valid = value, valid
        self.log, self.waits, self.now, self.n = [], [], 100.0, 0

    def wait(self, cond, timeout, react):
        i = self.n
        self.n += 1
        if self.value in cond:
            self.told(i, "done", True, react)
        else:
            self.waits.append([i, cond, None if not timeout else self.now + timeout, react])

    def told(self, i, state, value, react):
        self.log.append(("told", i, state, value))
        for s in react:
            self.one(s)

    def become(self, v):
        self.value = v
        hit = [x for x in self.waits if v in x[1]]
        for x in hit:       # those waiting now, whatever they do in turn
            self.waits.remove(x)
        for x in hit:
            self.told(x[0], "done", True, x[3])

    def one(self, s):
        if s[0] == "set":
            self.become(True)
        elif s[0] == "clear":
            self.value = False
        elif s[0] == "enter":
            if s[1] not in self.valid:
                raise ValueError
            self.become(s[1])
        elif s[0] == "wait":
            self.wait((True,), s[1], s[2])
        elif s[0] == "until":
            if s[1] not in self.valid:
                raise ValueError
            self.wait((s[1],), s[2], s[3])
        elif s[0] == "in":
            if any(x not in self.valid for x in s[1]):
                raise ValueError
            self.wait(tuple(s[1]), s[2], s[3])
        elif s[0] == "expire":
            self.now += s[1]
            for x in list(self.waits):
                if x[2] is not None and x[2] <= self.now and x in self.waits:
                    self.waits.remove(x)
                    self.told(x[0], "failed", "TimeoutError", x[3])

    def drive(self, steps, flag):
        for s in steps:
            try:
                self.one(s)
            except ValueError:
                self.log.append(("refused",))
            self.log.append(("now", flag(self.value)))


def text(steps):
    return ", ".join(" ".join(str(x) for x in s if x not in (None, ())) for s in steps)


def _same(log, want):
    """The order in which waiters are told within one step is not part of the property."""
    def groups(x):
        out, cur = [], []
        for e in x:
            if e[0] in ("now", "refused"):
                out.append((sorted(map(repr, cur)), e))
                cur = []
            else:
                cur.append(e)
        return out, sorted(map(repr, cur))
    return groups(log) == groups(want)


def play(ctx, tally, what, base, steps, ref, flag):
    try:
        w, st, err = base
        o, st2 = w.call(st, "world", "drive", steps)
    except Undecided as e:
        tally(what, None, "%s: %s" % (text(steps), e))
        return
    if o.kind == "raise":
        tally("nothing raises", False, "%s: %s" % (text(steps), o.val))
        return
    ref.drive(steps, flag)
    log = [x for x in o.log if x[0] in ("told", "now", "refused")]
    tally(what, _same(log, ref.log), "%s: %s, not %s" % (text(steps), log, ref.log))


def events(ctx):
    q = "core.AsyncEvent"
    tally = Tally(ctx, "event histories", ctx.where(q + ".set"))
    base = make(ctx, "ProbeEventWorld", q)
    S, C = ("set",), ("clear",)
    W, WT = ("wait", None, ()), ("wait", 5, ())
    again = ("wait", None, (("wait", None, ()),))
    clears = ("wait", None, (C,))
    cw = ("wait", None, (C, ("wait", None, ()), ("wait", 5, ())))
    resets = ("wait", None, (C, ("wait", None, ()), S))
    ex = ("expire", 3)
    n = 0
    for k in range(1, 5 if not ctx.deep else 6):
        for steps in itertools.product((S, C, W, WT, ex), repeat=k):
            if k > 3 and (steps[0] == C or steps.count(S) == 0):
                continue
            n += 1
            play(ctx, tally, "waits and the flag", base, steps, Ref(False), lambda v: (v, v))
    for a, b in itertools.product((W, WT, again, clears, cw, resets), repeat=2):
        for rest in ((S,), (S, C, S), (S, W), (S, ex, ex), (S, C, W, S), (S, S)):
            n += 1
            play(ctx, tally, "waiters that act when they are told", base, (a, b) + rest, Ref(False),
                 lambda v: (v, v))
    tally.done(n)


def callbacks(ctx):
    q = "core.AsyncCallbackEvent"
    if q not in ctx.p.classes:
        return
    tally = Tally(ctx, "callback histories", ctx.where(q + ".set"))
    S, C, W = ("set",), ("clear",), ("wait", None, ())
    n = 0
    for kind in ("notes", "raises"):
        def cb(t, v, kind=kind):
            t.log.append(("callback", v, t.env[("root", "it")]._flag
                          if hasattr(t.env[("root", "it")], "_flag") else v))
            if kind == "raises":
                raise Fails("ValueError")
        for k in (1, 2, 3):
            for steps in itertools.product((S, C, W), repeat=k):
                n += 1
                try:
                    w, st, err = make(ctx, "ProbeEventWorld", q, Fun("callback", cb))
                    o, st2 = w.call(st, "world", "drive", steps)
                except Undecided as e:
                    tally("the callback", None, "%s: %s" % (text(steps), e))
                    continue
                if o.kind == "raise":
                    tally("nothing raises", False, "%s: %s" % (text(steps), o.val))
                    continue
                got = [x[1] for x in o.log if x[0] == "callback"]
                tally("the callback is told of each change", got == [s is S for s in steps if s is not W],
                      "%s: %s" % (text(steps), o.log))
                tally("the event has changed when the callback runs", all(
                    x[1] == x[2] for x in o.log if x[0] == "callback"), "%s: %s" % (text(steps), o.log))
                ref = Ref(False)
                ref.drive(steps, lambda v: (v, v))
                tally("the event works whatever the callback does", _same(
                    [x for x in o.log if x[0] != "callback"], ref.log), "%s: %s" % (text(steps), o.log))
    tally.done(n)


def states(ctx):
    q = "core.AsyncState"
    tally = Tally(ctx, "state histories", ctx.where(q + ".set_state"))
    n = 0
    flag = lambda v: v
    for valid, init, start in ((("a", "b", "c"), None, "a"), (("a", "b", "c"), "b", "b"),
                               (("a", ""), "", ""), ((1, 0), 0, 0), ((False, True), None, False),
                               (("a", "b"), "z", None)):
        base = make(ctx, "ProbeStateWorld", q, valid, init)
        if start is None:
            tally("an initial state that is not valid is refused", base[2] is not None, "%s" % (valid,))
            continue
        if base[2] is not None:
            tally("valid initial states are taken", False, "%s of %s: %s" % (init, valid, base[2]))
            continue
        n += 1
        play(ctx, tally, "the initial state", base, (("until", start, None, ()),), Ref(start, valid), flag)
    valid = ("a", "b", "c")
    base = make(ctx, "ProbeStateWorld", q, valid)
    E = [("enter", s) for s in valid + ("z",)]
    U = [("until", "b", None, ()), ("until", "c", 5, ()), ("until", "a", None, ()), ("until", "z", None, ())]
    ex = ("expire", 3)
    short = [E[0], E[1], E[2], U[0], U[1], ex]
    for k in (1, 2, 3) if not ctx.deep else (1, 2, 3, 4):
        for steps in itertools.product(E + U + [ex] if k < 3 else short, repeat=k):
            n += 1
            play(ctx, tally, "waits and the state", base, steps, Ref("a", valid), flag)
    again = ("until", "b", None, (("until", "b", None, ()), ("until", "c", None, ())))
    moves = ("until", "b", None, (("enter", "c"), ("until", "b", None, ())))
    back = ("until", "c", None, (("enter", "b"), ("until", "c", 5, ())))
    for a, b in itertools.product((U[0], U[1], again, moves, back), repeat=2):
        for rest in ((E[1],), (E[2],), (E[1], E[1]), (E[1], E[2], E[1]), (E[1], ex, ex)):
            n += 1
            play(ctx, tally, "waiters that act when they are told", base, (a, b) + rest,
                 Ref("a", valid), flag)
    for k in (1, 2, 3):
        for ss in itertools.permutations(valid, k):
            for timeout in (None, 5):
                for rest in ((), (E[1],), (E[2],), (E[0],), (ex, E[2], ex), (ex, ex, E[1], E[2]),
                             (E[1], E[2], E[0])):
                    n += 1
                    play(ctx, tally, "waiting for one of several states", base,
                         (("in", ss, timeout, ()), U[0]) + rest, Ref("a", valid), flag)
    play(ctx, tally, "waiting for one of several states", base, (("in", ("b", "z"), None, ()),),
         Ref("a", valid), flag)
    tally.done(n)


def any_of(ctx):
    q = "core.until_any"
    tally = Tally(ctx, "any histories", ctx.where(q))
    base = make(ctx, "ProbeWorld")
    n = 0
    acts = lambda k: [("settle", i, s, v) for i in range(k) for s, v in (
        ("done", "r%d" % i), ("failed", "ValueError"))] + [("expire", 6)]
    for k in (1, 2, 3):
        spies = [("spy", i) for i in range(k)]
        for timeout in (None, 5):
            for seq in itertools.product(acts(k), repeat=2):
                if seq[0][0] == seq[1][0] == "settle" and seq[0][1] == seq[1][1]:
                    continue
                for cut in (0, 1, 2):
                    for where in ((0, 1) if k < 3 else (1,)):
                        n += 1
                        before = (spies if where == 0 else []) + list(seq[:cut])
                        after = (spies if where == 1 else []) + list(seq[cut:])
                        _any(ctx, tally, base, k, timeout, before, after)
    tally.done(n)


def _any(ctx, tally, base, k, timeout, before, after):
    w, st, err = base
    st = dict(st)
    st["futures"] = [whole("ProbeFuture", world=st["world"], state=None, value=None, _callbacks=[])
                     for i in range(k)]
    sit = "%d futures, timeout %s: %s; until_any; %s" % (k, timeout, text(before), text(after))
    main = "the first to be done gives the result"
    try:
        o, st2 = w.call(st, "world", "any", tuple(st["futures"]), timeout, (tuple(before), tuple(after)))
    except Undecided as e:
        tally(main, None, "%s: %s" % (sit, e))
        return
    if o.kind == "raise":
        tally("nothing raises", False, "%s: %s" % (sit, o.val))
        return
    first = [(s, v) for what, i, s, v in sorted(
        [x for x in before if x[0] == "settle"], key=lambda x: x[1])][:1]
    nb = len([x for x in before if x[0] == "spy"])
    now, dead = 0, False
    for x in after:
        if first or dead:
            break
        if x[0] == "expire":
            dead = timeout is not None
            if dead:
                first = [("failed", "TimeoutError")]
        elif x[0] == "settle":
            first = [x[2:]]
    told = {}
    for x in o.log:
        if x[0] == "told":
            told.setdefault(x[1], []).append(x[2:])
    tally(main, told.get(nb, []) == first, "%s: %s, not %s" % (sit, told.get(nb), first))
    done = {x[1]: x[2:] for x in before + after if x[0] == "settle"}
    order = [x[1] for x in before if x[0] == "spy"] + [None] + [x[1] for x in after if x[0] == "spy"]
    for j, i in enumerate(order):
        if i is not None:
            want = [done[i]] if i in done else []
            tally("other waiters are told, once", told.get(j, []) == want, "%s: the waiter of future %d: %s"
                  % (sit, i, told.get(j)))


def later(ctx):
    tally = Tally(ctx, "later", ctx.where("core.until_later"))
    n = 0
    for delay in (0, 1, 2.5):
        for given in (True, False):
            w, st, err = make(ctx, "ProbeWorld")
            n += 1
            sit = "delay %s%s" % (delay, ", on the loop given" if given else "")
            try:
                o, st2 = w.call(st, "world", "later", delay, given)
            except Undecided as e:
                tally("done after the delay", None, "%s: %s" % (sit, e))
                continue
            tally("done after the delay", o.kind == "return" and [x[1] for x in o.log if x[0] == "called"]
                  == [delay] and [x[2] for x in o.log if x[0] == "told"] == ["done"] and
                  o.log.index(("called", delay)) < [x[0] for x in o.log].index("told"),
                  "%s: %s %s %s" % (sit, o.kind, o.val, o.log))
    tally.done(n)


def blocking(ctx):
    q = "core.AsyncEvent"
    tally = Tally(ctx, "blocking", ctx.where(q + ".wait_with_ioloop"))
    S, C = ("set",), ("clear",)
    n = 0
    for before in ((), (S,), (S, C)):
        for meanwhile in ((), (S,), (S, C), (C,), (C, S), None):
            for timeout in (None, 5):
                ever = (S in before and C not in before) or S in (meanwhile or ())
                if (not ever or meanwhile is None) and timeout is None:
                    continue
                n += 1
                w, st, err = make(ctx, "ProbeEventWorld", q)
                sit = "%s; wait with timeout %s; meanwhile %s" % (text(before), timeout, "the loop is busy" if
                                                              meanwhile is None else text(meanwhile))
                try:
                    o, st2 = w.call(st, "world", "blocking", before, meanwhile, timeout)
                except Undecided as e:
                    tally("true once the event was set", None, "%s: %s" % (sit, e))
                    continue
                tally("true once the event was set, false at the timeout", o.kind == "return" and
                      ("blocked", ever) in o.log, "%s: %s %s %s" % (sit, o.kind, o.val, o.log))
    tally.done(n)


PARTS = [events, callbacks, states, any_of, later, blocking]
