"""The manager is followed as an abstract machine together with stand-ins for the I/O loop, the thread
and the future (a few lines that are analysed with the rest, not run).  All sequences of getting or
setting a loop, starting, stopping (without a callback and with one that returns, raises or never ends)
and running the thread are enumerated up to a length, with a loop the manager owns and one it does not;
a call of stop() that comes when the loop has stopped but is not closed, or is closing, is among them."""
import itertools

from ..machine import Tally, Thing, Undecided, World
from ..teval import Fails, Fut, Record, Sentinel, Unknown
from ..walk import Fun, Obj

MIN_OBLIGATIONS = 10
M = "ioloop_manager."
MAN = M + "IOLoopManager"
ASSUMPTIONS = ["tornado 4.5: a stopped loop runs no further callback, add_callback of a closing loop "
               "raises RuntimeError", "judged as Python 3"]

PROBE = '''
class ProbeFuture(object):
    def __init__(self):
        self.state = None
        self.callbacks = []

    def done(self):
        return self.state is not None

    def add_done_callback(self, callback):
        self.callbacks.append(callback)

    def set_result(self, value):
        if self.state is not None:
            raise Exception()
        self.state = "done"
        for callback in self.callbacks:
            callback(self)


class ProbeLoop(object):
    def __init__(self, world, label):
        self.world = world
        self.label = label
        self.todo = []
        self.running = False
        self.closing = False

    def add_callback(self, callback, *args):
        if self.closing:
            raise RuntimeError()
        self.todo.append((callback, args))

    def add_callback_from_signal(self, callback, *args):
        self.add_callback(callback, *args)

    def start(self):
        self.running = True
        self.world.did("loop runs", self.label)
        self.turn()
        self.world.inside()
        self.turn()
        if self.running:
            self.world.did("blocks", self.label)
            self.running = False
        self.world.late("stopped")

    def turn(self):
        while self.todo and (self.running or self.world.greedy):
            callback, args = self.todo.pop(0)
            callback(*args)

    def stop(self):
        self.world.did("loop stops", self.label)
        self.running = False

    def close(self, all_fds=False):
        self.closing = True
        self.world.did("loop closes", self.label)
        self.world.late("closing")


class ProbeEvent(object):
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    def isSet(self):
        return self.flag

    def wait(self, timeout=None):
        return self.flag


class ProbeThread(object):
    def __init__(self, target):
        self.target = target
        self.alive = False
        self.begun = False

    def is_alive(self):
        return self.alive

    def isAlive(self):
        return self.alive

    def setDaemon(self, daemon):
        self.daemon = daemon

    def start(self):
        if self.begun:
            raise RuntimeError()
        self.begun = True
        self.alive = True

    def join(self, timeout=None):
        self.joined = True


class ProbeWorld(object):
    def __init__(self, greedy, late):
        self.greedy = greedy
        self.late_at = late
        self.threads = []
        self.futures = []
        self.manager = None
        self.user_loop = None
        self.made = 0

    def late(self, when):
        if self.late_at == when:
            self.late_at = None
            self.futures.append((when, self.manager.stop()))

    def inside(self):
        if self.late_at == "running":
            self.late_at = None
            try:
                self.manager.start()
                self.did("ok", "inside")
            except RuntimeError:
                self.did("refused", "inside")
            self.manager.stop()

    def did(self, *what):
        self.record(*what)

    def drive(self, steps):
        for step, arg in steps:
            try:
                self.one(step, arg)
                self.did("ok", step)
            except RuntimeError:
                self.did("refused", step)

    def one(self, step, arg):
        if step == "get":
            self.manager.get_ioloop()
        elif step == "set":
            self.manager.set_ioloop(self.user_loop, managed=False)
        elif step == "start":
            self.manager.start()
        elif step == "stop":
            self.futures.append((step, self.manager.stop(callback=arg)))
        elif step == "join":
            self.manager.join()
        elif step == "thread":
            for t in self.threads:
                if t.alive:
                    t.target()
                    t.alive = False
        elif step == "user loop":
            self.user_loop.running = True
            self.user_loop.turn()
'''
PENDING = Sentinel("pending")


def whole(cls, **kw):
    o = Obj(M + cls)
    o.__dict__.update(kw)
    o.__dict__["%whole"] = True
    return o


def models(ctx):
    def loop(t, e):
        w = t.env[("root", "world")]
        w.made += 1
        t.log.append(("loop made", "own %d" % w.made))
        return whole("ProbeLoop", world=w, label="own %d" % w.made, todo=[], running=False, closing=False)

    def thread(t, e):
        a, kw = t.args(e)
        o = whole("ProbeThread", target=kw.get("target"), alive=False, begun=False)
        t.env[("root", "world")].threads.append(o)
        return o

    def chain(t, e):
        a, b = t.args(e)[0]
        if not isinstance(a, Fut):
            raise Unknown("chain_future")
        if a.exc != "GeneratorExit" and b.state is None:
            b.state = a.exc or "done"
        return None

    def callbacks(t, v):
        return v
    return {"Future": lambda t, e: whole("ProbeFuture", state=None, callbacks=[]),
            "AsyncIOLoop": loop, "tornado.ioloop.IOLoop": loop,
            "current": lambda t, e: t.env[("root", "world")].user_loop,
            "threading.Thread": thread, "threading.Lock": lambda t, e: Thing("lock"),
            "threading.RLock": lambda t, e: Thing("lock"),
            "threading.Event": lambda t, e: whole("ProbeEvent", flag=False),
            "maybe_future": lambda t, e: t.args(e)[0][0], "chain_future": chain}


def yields(t, e):
    if e.val == ("ext", "tornado.gen.moment"):
        return None
    v = t.ev(e.val)
    if isinstance(v, Fut) and v.val is PENDING:
        raise Fails("GeneratorExit")    # it is never resumed
    return v


def callback(kind):
    def f(t):
        t.log.append(("callback", kind))
        if kind == "raises":
            raise Fails("ValueError")
        return Fut(PENDING) if kind == "hangs" else Fut(None)
    return Fun("%s callback" % kind, f)


CB = {k: callback(k) for k in ("returns", "raises", "hangs")}
CB[None] = None


def play(ctx, managed, steps, greedy=False, late=None):
    if M + "ProbeWorld" not in ctx.p.classes:
        for src in PROBE.strip().split("\n\n\n"):
            ctx.probe("ioloop_manager", src)
    w = World(ctx, models(ctx), yields=yields)
    st = {}
    o, st = w.new(st, "world", M + "ProbeWorld", greedy, late)
    world = st["world"]
    world.record = Fun("record", lambda t, *a: t.log.append(a))
    st["world"].user_loop = whole("ProbeLoop", world=world, label="user", todo=[], running=False,
                                  closing=False)
    o, st = w.new(st, "m", MAN, managed)
    st["world"].manager = st["m"]
    return w, w.call(st, "world", "drive", steps)


def text(steps):
    return ", ".join(s if a is None else "%s (%s)" % (s, a) for s, a in steps)


def owned(ctx):
    """A manager with a loop of its own."""
    tally = Tally(ctx, "owned", ctx.where(MAN + ".stop"))
    stops = [("stop", CB[k]) for k in (None, "returns", "raises", "hangs")]
    n = 0
    for k in (1, 2) if not ctx.deep else (1, 2, 3):
        for ss in itertools.product(stops, repeat=k):
            for before in range(k + 1):
                for greedy, late in ((False, None), (True, None), (False, "stopped"), (False, "closing")):
                    n += 1
                    steps = [("get", None)] + list(ss[:before]) + [("start", None)] + \
                        list(ss[before:]) + [("thread", None)]
                    if not any(s[1] is not CB["hangs"] for s in ss):
                        continue
                    one(ctx, tally, steps, greedy, late)
    tally.done(n)


def one(ctx, tally, steps, greedy, late):
    sit = text(steps) + (", stop again when %s" % late if late else "")
    main = "every stop() is released"
    try:
        w, (o, st) = play(ctx, True, steps, greedy, late)
    except Undecided as e:
        tally(main, None, "%s: %s" % (sit, e))
        return
    if o.kind == "raise":
        tally("nothing raises", False, "%s: %s" % (sit, o.val))
        return
    log, world, m = o.log, st["world"], st["m"]
    tally("no step is refused", not [x for x in log if x[0] == "refused"], "%s: %s" % (sit, log))
    left = [f for f in world.futures if f[1].state is None]
    tally(main, not left, "%s: %d of %d never done" % (sit, len(left), len(world.futures)))
    names = [x[0] for x in log]
    tally("the loop is stopped", "loop stops" in names and "blocks" not in names,
          "%s: %s" % (sit, names))
    tally("the loop is closed after it has stopped", "loop closes" in names and "loop stops" in names and
          names.index("loop closes") > names.index("loop stops"), "%s: %s" % (sit, names))
    first = [s for s in steps if s[0] == "stop"][0][1]
    if first is not None and first is not CB["hangs"]:
        i = [j for j, x in enumerate(log) if x == ("callback", first.name.split()[0])]
        tally("the shutdown work runs before the loop stops", i and
              (i[0] < names.index("loop stops") if "loop stops" in names else True),
              "%s: %s" % (sit, log))
    tally("a stopped manager lets go of its loop", m._ioloop is None and not m._running.flag,
          "%s: keeps %s" % (sit, m._ioloop))


def again(ctx):
    """Starting twice, starting again, joining."""
    tally = Tally(ctx, "again", ctx.where(MAN + "._run_managed_ioloop"))
    G, S, T, X, J, U = [(k, None) for k in ("get", "start", "thread", "stop", "join", "set")]
    L = ("user loop", None)
    for what, managed, steps, refused, expect in (
            ("a running manager is not started again", True, [G, S, S], [2], dict(threads=1)),
            ("a running manager is not started again", True, [G, S, S, X, T], [2],
             dict(threads=1, closed=1)),
            ("a manager whose loop runs is not started again", True, [G, S, T], [2],
             dict(threads=1, closed=1)),
            ("a stopped manager starts again", True, [G, S, X, T, G, S], [], dict(threads=2, loops=2)),
            ("a stopped manager starts and stops again", True, [G, S, X, T, G, S, X, T], [],
             dict(threads=2, loops=2, closed=2, done=2)),
            ("a stopped manager needs a loop to start again", True, [G, S, X, T, S], [4],
             dict(threads=1)),
            ("a manager without a loop does not start", True, [S], [0], dict(threads=0)),
            ("a manager has one loop", True, [G, G, S, X, T], [], dict(loops=1, closed=1)),
            ("a loop is not replaced", True, [G, U], [1], {}),
            ("a loop is not replaced", True, [U, U], [1], {}),
            ("a manager that was not started is not joined", True, [G, J], [1], {}),
            ("a started manager is joined", True, [G, S, X, T, J], [], dict(joined=1)),
            ("stopping a manager without a loop is done at once", True, [X], [], dict(done=1)),
            ("stopping a stopped manager is done at once", True, [G, S, X, T, X], [],
             dict(done=2, closed=1)),
            ("a loop of the user is left running", False, [G, S, L, X, L], [],
             dict(threads=0, loops=0, closed=0, stopped=0, done=1, running=False)),
            ("a loop of the user is left running", True, [U, S, L, X, L], [],
             dict(threads=0, loops=0, closed=0, stopped=0, done=1, running=False)),
            ("a loop of the user is left running", False, [G, S, L, ("stop", CB["raises"]), X, L], [],
             dict(threads=0, closed=0, stopped=0, done=2)),
            ("the shutdown work runs on a loop of the user", False,
             [G, S, L, ("stop", CB["returns"]), L], [], dict(closed=0, stopped=0, done=1, callbacks=1)),
            ("a loop of the user runs from the start", False, [G, S, L], [], dict(running=True)),
            ("joining a manager without a loop of its own returns", False, [G, S, J], [], {})):
        sit = text(steps)
        late = "running" if steps == [G, S, T] else None
        try:
            w, (o, st) = play(ctx, managed, steps, late=late)
        except Undecided as e:
            tally(what, None, "%s: %s" % (sit, e))
            continue
        if o.kind == "raise":
            tally(what, False, "%s: %s" % (sit, o.val))
            continue
        log, world, m = o.log, st["world"], st["m"]
        took = [x for x in log if x[0] in ("ok", "refused")]
        got = [i for i, x in enumerate(took) if x[0] == "refused"]
        tally(what, got == refused, "%s: steps %s are refused" % (sit, [i + 1 for i in got]))
        names = [x[0] for x in log]
        have = dict(threads=len([t for t in world.threads if t.begun]), loops=names.count("loop made"),
                    closed=names.count("loop closes"), stopped=names.count("loop stops"),
                    done=len([f for f in world.futures if f[1].state]),
                    callbacks=names.count("callback"), running=m._running.flag,
                    joined=len([t for t in world.threads if hasattr(t, "joined")]))
        for k, v in expect.items():
            tally(what, have[k] == v, "%s: %s is %s, not %s" % (sit, k, have[k], v))
    tally.done(19)


PARTS = [owned, again]
