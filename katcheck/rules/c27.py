"""The wrapper is followed as an abstract machine together with stand-ins for the I/O loop, its thread
and the two kinds of futures (a few lines that are analysed with the rest, not run), for every kind of
outcome of the wrapped call (a value, an error, a future that is done, fails or is never done), timeout
and calling thread.  The proxy classes are decided from the text of their methods, those made by exec()
of constant texts included."""
import ast
import itertools

from ..machine import Tally, Thing, Undecided, World
from ..teval import Fails, Fut, Record, Sentinel, Unknown
from ..walk import Fun, Obj, walk

MIN_OBLIGATIONS = 10
M = "ioloop_manager."
WR = M + "IOLoopThreadWrapper"
ASSUMPTIONS = ["tornado 4.5: chain_future passes the result or error of one future to another as soon as "
               "it is there", "judged as Python 3"]

PROBE = '''
class ProbeLoop(object):
    def __init__(self, world):
        self.world = world
        self.todo = []

    def add_callback(self, callback, *args, **kwargs):
        self.todo.append((callback, args, kwargs))
        self.world.record("queued")

    def turn(self):
        before = self.world.thread
        self.world.thread = "loop thread"
        while self.todo:
            callback, args, kwargs = self.todo.pop(0)
            try:
                callback(*args, **kwargs)
            except Exception:
                self.world.record("logged")
        self.world.thread = before


class ProbeBlocking(object):
    def __init__(self, world):
        self.world = world
        self.state = None

    def result(self, timeout=None):
        self.world.record("blocks", self.world.thread)
        if self.world.thread != "loop thread":
            self.world.loop.turn()
        if self.state is None:
            if timeout is None:
                raise GeneratorExit()
            self.world.record("waited", timeout)
            raise TimeoutError()
        return self.world.outcome(self.state)


class ProbeTornado(object):
    def __init__(self, world):
        self.world = world
        self.state = None
        self.next = []

    def settle(self, state):
        self.state = state
        for f in self.next:
            f.state = state

    def result(self, timeout=None):
        if self.state is None:
            raise AssertionError()
        return self.world.outcome(self.state)

    def set_result(self, value):
        self.settle(("value", value))

    def set_exception(self, error):
        self.settle(("error", error))

    def set_exc_info(self, info):
        self.settle(("error", info[1]))


class ProbeWorld(object):
    def __init__(self):
        self.thread = "main thread"
        self.loop = None
        self.wrapper = None

    def install(self, thread, default):
        self.wrapper.default_timeout = default
        self.loop.turn()
        self.thread = thread

    def call(self, how, fn, args, kwargs, timeout):
        if how == "call_in_ioloop":
            return self.wrapper.call_in_ioloop(fn, args, kwargs, timeout)
        if how == "call_in_ioloop without timeout":
            return self.wrapper.call_in_ioloop(fn, args, kwargs)
        return self.wrapper.decorate_callable(fn)(*args, **kwargs)
'''
PENDING = Sentinel("pending")


def whole(cls, **kw):
    o = Obj(M + cls)
    o.__dict__.update(kw)
    o.__dict__["%whole"] = True
    return o


def settled(v):
    """The state of a future: None (not done), ("value", v) or ("error", name)."""
    if isinstance(v, Fut):
        if v.val is PENDING:
            return None
        return ("error", v.exc) if v.exc else ("value", v.val)
    return v.state


def models(ctx):
    def chain(t, e):
        a, b = t.args(e)[0]
        s = settled(a)
        if s is not None:
            if b.state is None:
                b.state = s
                for f in b.__dict__.get("next", ()):
                    if f.state is None:
                        f.state = s
        elif not isinstance(a, Fut):
            a.next.append(b)

    def maybe(t, e):
        v = t.args(e)[0][0]
        return v if isinstance(v, Fut) else Fut(v)

    world = lambda t: t.env[("root", "world")]
    return {"Future": lambda t, e: whole("ProbeBlocking", world=world(t), state=None),
            "concurrent.futures.Future": lambda t, e: whole("ProbeBlocking", world=world(t), state=None),
            "tornado.concurrent.Future": lambda t, e: whole("ProbeTornado", world=world(t), state=None,
                                                            next=[]),
            "_thread.get_ident": lambda t, e: world(t).thread,
            "current": lambda t, e: world(t).loop,
            "textwrap.dedent": lambda t, e: t.args(e)[0][0],
            "exc_info": lambda t, e: (None, t.caught, None),
            "maybe_future": maybe, "chain_future": chain}


def record(t, *a):
    t.log.append(a)


def outcome(t, s):
    if s[0] == "error":
        if not isinstance(s[1], str):
            raise Unknown("what was raised")
        raise Fails(s[1])
    return s[1]


def play(ctx, how, result, args, kwargs, thread, default, timeout, installed=True):
    if M + "ProbeWorld" not in ctx.p.classes:
        for src in PROBE.strip().split("\n\n\n"):
            ctx.probe("ioloop_manager", src)

    def fn(t, *a, **kw):
        t.log.append(("run", t.env[("root", "world")].thread, a, tuple(sorted(kw.items()))))
        if isinstance(result, Fails):
            raise Fails(result.args[0])
        return result
    w = World(ctx, models(ctx))
    st = {}
    o, st = w.new(st, "world", M + "ProbeWorld")
    world = st["world"]
    world.record, world.outcome = Fun("record", record), Fun("outcome", outcome)
    world.loop = whole("ProbeLoop", world=world, todo=[])
    o, st = w.new(st, "wrapper", WR, world.loop)
    st["world"].wrapper = st["wrapper"]
    if installed:
        o, st = w.call(st, "world", "install", thread, default)
    else:
        st["world"].thread = thread
    return w, w.call(st, "world", "call", how, Fun("wrapped", fn), args, kwargs, timeout)


RESULTS = (("a value", "v", "v"), ("nothing", None, None), ("a false value", 0, 0),
           ("an error", Fails("ValueError"), "ValueError"),
           ("a timeout error", Fails("concurrent.futures.TimeoutError"), "TimeoutError"),
           ("an assertion error", Fails("AssertionError"), "AssertionError"),
           ("a future with a value", Fut("v"), "v"), ("a future with nothing", Fut(None), None),
           ("a future that fails", Fut(None, exc="KeyError"), "KeyError"),
           ("a future that is never done", Fut(PENDING), PENDING))


def calls(ctx):
    """What the caller gets."""
    tally = Tally(ctx, "calls", ctx.where(WR + ".call_in_ioloop"))
    n = 0
    for how in ("call_in_ioloop", "call_in_ioloop without timeout", "decorated"):
        for default, timeout in itertools.product((None, 7), (None, 5)):
            if timeout and how.endswith("without timeout"):
                continue
            for args, kw in (((), {}), (("a", 2), {"k": 3})):
                for what, result, want in RESULTS:
                    n += 1
                    one(ctx, tally, how, default, timeout, args, kw, what, result, want)
    tally.done(n)


def one(ctx, tally, how, default, timeout, args, kw, what, result, want):
    kw = dict(kw)
    if how == "decorated" and timeout:
        kw["timeout"] = timeout
    wait = timeout or default
    sit = "%s, %s, arguments %s %s, timeout %s, default %s" % (how, what, args, kw, timeout, default)
    named = {"a future that is never done": "a timeout is raised after the time given"}.get(
        what, "errors are raised" if what in ("an error", "a timeout error", "an assertion error",
                                              "a future that fails") else "the result is returned")
    try:
        w, (o, st) = play(ctx, how, result, args, dict(kw), "main thread", default, timeout)
    except Undecided as e:
        tally(named, None, "%s: %s" % (sit, e))
        return
    runs = [x for x in o.log if x[0] == "run"]
    tally("the call runs once, in the loop's thread, with its arguments",
          runs == [("run", "loop thread", args, tuple(sorted(kw.items())))], "%s: %s" % (sit, runs))
    got = o.val.split(".")[-1] if o.kind == "raise" and isinstance(o.val, str) else o.val
    if want is PENDING:
        if wait:
            waits = [x[1] for x in o.log if x[0] == "waited"]
            tally(named, (o.kind, got) == ("raise", "TimeoutError") and waits == [wait],
                  "%s: %s %s after %s" % (sit, o.kind, got, waits))
        else:
            tally("without a timeout the call waits", (o.kind, got) == ("raise", "GeneratorExit"),
                  "%s: %s %s" % (sit, o.kind, got))
    elif named == "errors are raised":
        tally(named, (o.kind, got) == ("raise", want), "%s: %s %s" % (sit, o.kind, got))
    else:
        tally(named, o.kind == "return" and got == want and type(got) is type(want),
              "%s: %s %s" % (sit, o.kind, got))


def refused(ctx):
    """Calls from the loop's own thread."""
    tally = Tally(ctx, "refused", ctx.where(WR + ".call_in_ioloop"))
    n = 0
    for how in ("call_in_ioloop", "decorated"):
        for timeout in (None, 5):
            for installed in (True, False):
                n += 1
                what = "a call from the loop's thread is refused" + (
                    "" if installed else " before the wrapper knows the thread")
                sit = "%s, timeout %s" % (how, timeout)
                try:
                    w, (o, st) = play(ctx, how, "v", (), {"timeout": timeout} if timeout else {},
                                      "loop thread", None, timeout, installed)
                except Undecided as e:
                    tally(what, None, "%s: %s" % (sit, e))
                    continue
                ran = [x for x in o.log if x[0] in ("run", "blocks")]
                tally(what, o.kind == "raise" and o.val.split(".")[-1] == "RuntimeError" and not ran,
                      "%s: %s %s %s" % (sit, o.kind, o.val, ran))
                if installed:
                    tally("a refused call is not made", not ran and not st["world"].loop.todo,
                          "%s: %s" % (sit, o.log))
    tally.done(n)



RC = "resource_client."
RES, GRP, SEN, REQ = (RC + "ThreadSafeKATCP" + x for x in (
    "ClientResourceWrapper", "ClientGroupWrapper", "SensorWrapper", "ClientResourceRequestWrapper"))
USE = """
class ProbeUse(object):
    def __init__(self):
        pass
"""
ONE = """
    def use_%s(self, subject, io):
        w = %s(subject, io)
        return %s
"""
# what is used: (class of the wrapper, expression) -> what must come out of it
SENSOR = ("wrapper", SEN, "s1")
REQUEST = ("wrapper", REQ, "s1")
CLIENT = ("wrapper", RES, "c1")
GROUP = ("wrapper", GRP, "g1")
MAPS = (("sensor", SENSOR), ("sensors", SENSOR), ("req", REQUEST), ("groups", GROUP), ("children", CLIENT))
USES = [(RES, "w.%s.%s" % (m, x), want if want2 is None else want2)
        for m, want in MAPS
        for x, want2 in (("__getitem__('a')", None), ("__getattr__('a')", None), ("__len__()", 1),
                         ("__contains__('a')", True), ("__contains__('b')", False),
                         ("__iter__()", ["a"]))] + [
    (RES, "w.parent", CLIENT), (GRP, "w.req.__getitem__('a')", REQUEST),
    (GRP, "w.req.__getattr__('a')", REQUEST), (GRP, "w.req.__len__()", 1),
    (GRP, "w.clients", [CLIENT]), (GRP, "w.__getitem__(0)", CLIENT), (GRP, "w.__iter__()", [CLIENT]),
    (REQ, "w.__call__", ("decorated", "call it")),
    (SEN, "w.sampling_strategy", ("moved", "s", "sampling_strategy"))] + [
    (c, "w.__getattr__('%s')" % n, want) for c in (RES, GRP, SEN, REQ)
    for n, want in (("name", "n"), ("nothing", None), ("foo", ("decorated", "foo")))] + [
    (RES, "w.__getattr__('other')", CLIENT), (RES, "w.__getattr__('some_group')", GROUP)] + [
    (c, "w.__subject__", "subject") for c in (RES, GRP, SEN, REQ)]


def as_seen(v):
    """A short form of a result, to compare with what is wanted."""
    if isinstance(v, list):
        return [as_seen(x) for x in v]
    c = v.__dict__.get("%cls") if isinstance(v, Record) else None
    if c in (RES, GRP, SEN, REQ):
        if getattr(v.__dict__.get("_ioloop_wrapper"), "tag", None) != "io":
            return ("wrapper without the I/O loop", c)
        return ("wrapper", c, v.__dict__["__subject__"].tag)
    return getattr(v, "tag", v)


def subject(ctx):
    def thing(tag, cls="ProbeUse"):
        o = Obj(RC + cls)
        o.tag = tag
        return o
    s, c, g = thing("s1"), thing("c1", "KATCPClientResource"), thing("g1", "ClientGroup")
    o = thing("subject")
    foo, call = Fun("foo", lambda t: 1), Fun("call it", lambda t: 1)
    foo.tag, call.tag = "foo", "call it"
    o.__dict__.update(sensor={"a": s}, req={"a": s}, groups={"a": g}, children={"a": c}, parent=c,
                      clients=[c], name="n", nothing=None, foo=foo, other=c, some_group=g,
                      sampling_strategy="s")
    o.__dict__["__call__"] = call
    return o


def use(ctx, i, subj):
    if RC + "ProbeUse" not in ctx.p.classes:
        ctx.probe("resource_client", (USE + "".join(
            ONE % (k, u[0].split(".")[-1], u[1]) for k, u in enumerate(USES))).strip())
    io = Obj(RC + "ProbeUse")

    def decorated(t, f):
        o = Obj(RC + "ProbeUse")
        o.tag = ("decorated", f.tag)
        return o

    def moved(t, e):
        if e.args[0] != ("ext", "getattr") or t.ev(e.args[2]) != {}:
            raise Unknown("what is moved")
        a = t.ev(e.args[1])
        o = Obj(RC + "ProbeUse")
        o.tag = ("moved", a[0].__dict__[a[1]], a[1])
        return o
    io.tag = "io"
    io.decorate_callable = Fun("decorate", decorated)
    w = World(ctx, {"call_in_ioloop": moved, "object.__getattribute__": lambda t, e: t.args(e)[0][0].__dict__[t.args(e)[0][1]],
                    "iter": lambda t, e: list(t.args(e)[0][0])},
              inline={RC + "*", M + "*", "object_proxies.*"})
    st = {}
    o, st = w.new(st, "use", RC + "ProbeUse")
    return w.call(st, "use", "use_%d" % i, subj, io)


def wrappers(ctx):
    """Attributes and items of the wrapped clients, groups, sensors and requests."""
    tally = Tally(ctx, "wrappers", ctx.where(RC + "ThreadSafeKATCPClientResourceWrapper.__getattr__"))
    subj = subject(ctx)
    for i, (cls, expr, want) in enumerate(USES):
        c = cls.split(".")[-1]
        what = "%s reaches the wrapped object" % c
        try:
            o, st = use(ctx, i, subj)
        except Undecided as e:
            tally(what, None, "%s: %s" % (expr, e))
            continue
        got = as_seen(o.val)
        if o.val is Unknown:
            tally(what, None, "%s: not known" % expr)
            continue
        tally(what, o.kind == "return" and got == want,
              "%s of %s gives %s %s, not %s" % (expr[2:], c, o.kind, got, want))
    tally.done(len(USES))


PX = "object_proxies."
SELF = "self.__subject__"
REF = {"__call__": "return {s}(*args, **kw)", "__bool__": "return bool({s})",
       "__getitem__": "return {s}[{a}]", "__setitem__": "{s}[{a}] = {b}", "__delitem__": "del {s}[{a}]",
       "__contains__": "return {a} in {s}", "__divmod__": "return divmod({s}, {a})",
       "__rdivmod__": "return divmod({a}, {s})", "__pow__": "return pow({s}, *args)",
       "__ipow__": "{s} **= {a}\n    return self", "__rpow__": "return pow({a}, {s})"}
REF.update(("__%s__" % n, "return %s({s})" % n)
           for n in "repr str hash len abs complex int float iter".split())
REF.update(("__%s__" % n, "return {s} %s {a}" % op) for n, op in (
    ("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">="), ("eq", "=="), ("ne", "!=")))
REF.update(("__%s__" % n, "return %s{s}" % op) for n, op in (("neg", "-"), ("pos", "+"), ("invert", "~")))
for _n, _op in (("or", "|"), ("and", "&"), ("xor", "^"), ("lshift", "<<"), ("rshift", ">>"), ("add", "+"),
                ("sub", "-"), ("mul", "*"), ("mod", "%"), ("truediv", "/"), ("floordiv", "//")):
    REF.update({"__%s__" % _n: "return {s} %s {a}" % _op, "__r%s__" % _n: "return {a} %s {s}" % _op,
                "__i%s__" % _n: "{s} %s= {a}\n    return self" % _op})


class Fold(Exception):
    pass


def fold(n, names):
    """The value of a constant expression of text, or Fold."""
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name) and n.id in names:
        return names[n.id]
    if isinstance(n, (ast.Tuple, ast.List)):
        return [fold(x, names) for x in n.elts]
    if isinstance(n, ast.Dict) and None not in n.keys:
        return {fold(k, names): fold(v, names) for k, v in zip(n.keys, n.values)}
    if isinstance(n, ast.Call) and not n.keywords:
        a = [fold(x, names) for x in n.args]
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars") and not a:
            return dict(names)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("split", "format", "join", "items"):
            r = getattr(fold(n.func.value, names), n.func.attr)(*a)
            return list(r) if n.func.attr == "items" else r
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.Add)):
        a, b = fold(n.left, names), fold(n.right, names)
        if isinstance(n.op, ast.Mod):
            return a % (tuple(b) if isinstance(b, list) else b)
        return a + b
    if isinstance(n, ast.JoinedStr):
        out = []
        for x in n.values:
            if isinstance(x, ast.FormattedValue):
                if x.format_spec is not None or x.conversion != -1:
                    raise Fold()
                out.append(str(fold(x.value, names)))
            else:
                out.append(x.value)
        return "".join(out)
    raise Fold(ast.dump(n)[:80])


def bindings(target, v, names):
    if isinstance(target, ast.Name):
        names[target.id] = v
    elif isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == len(v):
        for x, y in zip(target.elts, v):
            bindings(x, y, names)
    else:
        raise Fold()


def body(stmts, names, out, unknown):
    """The functions a class body makes: {name: FunctionDef}."""
    for n in stmts:
        try:
            if isinstance(n, ast.FunctionDef):
                out[n.name] = n
            elif isinstance(n, ast.For) and not n.orelse:
                for v in fold(n.iter, names):
                    bindings(n.target, v, names)
                    body(n.body, names, out, unknown)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                    isinstance(n.value.func, ast.Name) and n.value.func.id == "exec":
                body(ast.parse(fold(n.value.args[0], names)).body, names, out, unknown)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                t = n.targets[0]
                if isinstance(t, ast.Name) and isinstance(n.value, ast.Name) and n.value.id in out:
                    out[t.id] = out[n.value.id]
                else:
                    bindings(t, fold(n.value, names), names)
            elif not isinstance(n, (ast.Expr, ast.Pass, ast.Delete)):
                unknown.append(n)
        except (Fold, SyntaxError, TypeError, ValueError, KeyError) as e:
            unknown.append(n)


def summary(ctx, name, node):
    f = ast.parse(ast.unparse(node)).body[0]
    f.name, f.decorator_list = name, []
    ctx.probe("object_proxies", ast.unparse(f))
    out = []
    for p in ctx.paths(PX + name):
        ev = tuple((e.kind, e.name, e.base, e.attr, e.val, e.args, e.kwargs, e.extra)
                   for e in p.events if e.kind in ("call", "aug", "store", "setitem", "delitem", "raise"))
        out.append((p.kind, p.val, ev))
    return out


def simple(t):
    """Is the term made of the operands and operators alone?"""
    if not isinstance(t, tuple):
        return True
    if t and t[0] == "call" and not (t[1][0] == "ext" and "." not in t[1][1] or
                                     t[1] == ("attr", ("param", "self"), "__subject__")):
        return False
    if t and t[0] == "attr" and t[2] != "__subject__":
        return False
    return all(simple(x) for x in t)


def proxies(ctx):
    """The special methods, which Python looks up on the class."""
    cls = ctx.p.cls(PX + "AbstractProxy")
    made, unknown = {}, []
    body(cls.node.body, {}, made, unknown)
    where = "%s:%d" % (cls.module.path, cls.node.lineno) if hasattr(cls.module, "path") else PX
    n = 0
    for name, text in sorted(REF.items()):
        n += 1
        if name not in made:
            ctx.ob("proxies", name, None if unknown else False, where,
                   "%s is not forwarded to the wrapped object" % name)
            continue
        f = made[name]
        a = [x.arg for x in f.args.args]
        if len(a) < 1:
            ctx.ob("proxies", name, None, where, "no self")
            continue
        star = f.args.vararg.arg if f.args.vararg else None
        kw = f.args.kwarg.arg if f.args.kwarg else None
        ref = text.format(s=a[0] + ".__subject__", a=a[1] if len(a) > 1 else "nothing",
                          b=a[2] if len(a) > 2 else "nothing")
        ref = ref.replace("return self", "return " + a[0])
        ref = ref.replace("*args", "*" + star if star else ", ".join(a[1:]) or "*()")
        ref = ref.replace(", **kw", ", **" + kw if kw else "")
        node = ast.parse("def f(%s):\n    %s" % (ast.unparse(f.args), ref)).body[0]
        k = name.strip("_")
        got, want = summary(ctx, "probe_got_" + k, f), summary(ctx, "probe_ref_" + k, node)
        ok = got == want
        if not ok and not (len(got) == 1 and simple(got[0])):
            ok = None
        ctx.ob("proxies", name, ok, "%s.%s" % (where, name),
               "%s of a wrapper does not do what it does on the wrapped object: %s" % (
                   name, ast.unparse(f).split("\n", 1)[-1].strip()[:100]))


ATTRS = (("__subject__", "own"), ("mine", "own"), ("__len__", "subject"), ("__other__", "subject"),
         ("other", "subject"))


def access(ctx):
    """Which object an attribute is read from, set on and deleted from."""
    W = PX + "AbstractWrapper."
    tally = Tally(ctx, "access", ctx.where(W + "__setattr__"))
    n = 0
    for op in ("__setattr__", "__delattr__", "__getattribute__", "__getattr__"):
        if not ctx.p.has_func(W + op):
            tally("%s is defined" % op, False, op)
            continue
        for attr, want in ATTRS:
            n += 1
            if op == "__getattr__" and want == "own":
                continue                # asked only for what the wrapper does not have
            if op == "__getattribute__":
                want = "subject" if attr.startswith("__") and attr != "__subject__" else "own"
            what = "%s acts on the right object" % op
            subj, f = Thing("subject"), ctx.p.func(W + op)
            for x, _ in ATTRS:
                setattr(subj, x, "subject's " + x)
            me = Obj(PX + "ObjectWrapper")
            me.tag, subj.tag = "wrapper", "subject"
            me.__dict__["__subject__"] = subj
            ext = {"setattr": "set", "delattr": "delete"}

            def other(t, e):
                a = t.args(e)[0]
                t.log.append((e.name, a[0].tag, a[1]))

            def own(t, *a):
                t.log.append(("own", a[0].tag, a[1]))
                if op.startswith("__get"):
                    return a[0].__dict__[a[1]] if a[1] == "__subject__" else "own " + a[1]
            ps = list(f.params)
            vals = [me, attr] + (["v"] if op == "__setattr__" else [])
            vals += [Fun("own access", own)] * (len(ps) - len(vals))
            env = {("param", x): v for x, v in zip(ps, vals)}
            o, why = walk(ctx, W + op, env, {
                "setattr": other, "delattr": other,
                "hasattr": lambda t, e: t.args(e)[0][1] in ("__subject__", "mine", "__len__"),
                "type": lambda t, e: Thing("the class")}, exact=True)
            if o is None:
                tally(what, None, "%s: %s" % (attr, why))
                continue
            if op.startswith("__get"):
                wanted = subj if attr == "__subject__" else (
                    "subject's " if want == "subject" else "own ") + attr
                tally(what, None if o.val is Unknown else o.kind == "return" and (
                    o.val is wanted or o.val == wanted),
                      "%s: %s gives %s" % (op, attr, o.val))
            else:
                did = [(k, x) for k, x, y in o.log if y == attr]
                for e in o.path.events if o.path is not None else ():
                    if e.kind == "store" and e.attr == attr and not did:
                        b = o.get(e.base)
                        did.append((op.strip("_"), getattr(b, "tag", None)))
                tally(what, did == [("own", "wrapper")] if want == "own" else
                      did == [(op.strip("_"), "subject")], "%s: %s acts on %s" % (op, attr, did))
    tally.done(n)


def own(ctx):
    """What a wrapper keeps for itself: an attribute its class lacks would be set on the wrapped object."""
    for q, cls in sorted(ctx.p.classes.items()):
        mro = [c for c in ctx.p.mro(cls) if hasattr(c, "qual")]
        if PX + "AbstractWrapper" not in [c.qual for c in mro[1:]] or cls.module.name == "object_proxies":
            continue
        have = set()
        for c in mro:
            have.update(c.attrs)
            have.update(c.methods)
            for n in c.node.body:
                if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "__slots__":
                    v = ast.literal_eval(n.value)
                    have.update([v] if isinstance(v, str) else v)
        for name, f in sorted(cls.methods.items()):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                        isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]:
                    ctx.ob("own", "%s.%s" % (q, n.attr), n.attr in have, "%s:%d" % (f.where, n.lineno),
                           "%s is set on the wrapped object, as the class has no such attribute" % n.attr)


PARTS = [calls, refused, wrappers, proxies, access, own]
