"""An object followed through calls of its methods.

Each method is evaluated on the abstract state of the object by `walk`; the state after a call is the
bindings of its attributes on the path that call takes.  States are compared in a canonical form, so
that all states reachable by the operations of a rule can be enumerated."""
import ast
import copy

from .lib import SELF
from .teval import Fails, Record, Sentinel, Unknown
from .walk import DictOf, Obj, walk


class Undecided(Exception):
    pass


class Thing(Sentinel, Record):
    """An object with fixed attributes, known by identity."""

    def __init__(self, label, **fields):
        Sentinel.__init__(self, label)
        self.label = label
        self.__dict__.update(fields)

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return self.label


def canon(v, seen=(), ordered=False):
    """A form to compare states by; the order of the entries of a dictionary counts on request."""
    if isinstance(v, dict) and ordered and not isinstance(v, Whole):
        return ("dict",) + tuple((canon(k, seen, True), canon(x, seen, True))
                                 for k, x in v.items())
    if isinstance(v, dict):
        return ("dict",) + tuple(sorted((canon(k, seen, ordered), canon(x, seen, ordered)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return ("set",) + tuple(sorted(canon(x, seen, ordered) for x in v))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(canon(x, seen, ordered) for x in v)
    if isinstance(v, Sentinel):
        return ("obj", getattr(v, "label", v.name))
    if isinstance(v, Record):
        if id(v) in seen:
            return ("rec", seen.index(id(v)))
        return ("rec", canon(Whole(v.__dict__), seen + (id(v),), ordered))
    return (type(v).__name__, repr(v))


class Whole(dict):
    """Attributes of an object, whose order means nothing."""


class State(dict):
    """Attribute terms -> values."""

    def key(self):
        return tuple(sorted((repr(k), canon(v)) for k, v in self.items()))


class Machine(object):
    def __init__(self, ctx, cls, models=None, yields=None, **opts):
        self.ctx, self.cls, self.models, self.yields = ctx, cls, models or {}, yields
        self.opts = dict({"unroll": True, "selfcls": cls, "exact": True}, **opts)
        self.c = ctx.p.cls(cls)
        self.memo = {}

    def method(self, name):
        f = self.ctx.p.lookup(self.c, name)
        if f is None:
            raise Undecided("no method %s" % name)
        return f

    def call(self, state, name, *args, **kw):
        """(outcome, state afterwards)"""
        f = self.method(name)
        extra = kw.pop("models", None)
        env = dict(state)
        env.update(bind_args(f, args, kw))
        models = dict(self.models, **(extra or {}))
        o, why = walk(self.ctx, f.qual, env, models, self.yields, **self.opts)
        if o is None:
            raise Undecided("%s: %s" % (name, why))
        if o.kind == "raise" and o.path is None:
            return o, state             # state unknown after an error inside a modelled call
        return o, State((k, v) for k, v in o.env.items()
                        if isinstance(k, tuple) and k[0] == "attr" and k[1] == SELF)


class World(object):
    """Objects that refer to each other, followed through calls of their methods.

    The state is a dictionary of the objects the rule names (Obj records and plain values); it is
    copied as a whole, so that what is shared stays shared."""

    def __init__(self, ctx, models=None, yields=None, given=None, **opts):
        self.ctx, self.models, self.yields = ctx, models or {}, yields or awaited
        self.given = given or {}        # terms whose value is given
        self.opts = dict({"unroll": True, "exact": True, "inline": {"*"}}, **opts)
        self.memo = {}

    def new(self, state, name, cls, /, *args, **kw):
        """Make an object called name by its constructor."""
        state = dict(state)
        state[name] = Obj(cls)
        o, state = self.call(state, name, "__init__", *args, **kw)
        state[name].__dict__["%whole"] = True
        return o, state

    def key(self, state, ordered=False):
        return canon(Whole(state), ordered=ordered)

    def look(self, state, name, attr):
        return getattr(state[name], attr, Unknown)

    def call(self, state, name, method, /, *args, **kw):
        """(outcome, state afterwards); name is an object or a path to one from it."""
        obj = state[name] if isinstance(name, str) else name
        if isinstance(obj, DictOf):
            cls = obj.cls
        elif not isinstance(obj, Obj):
            raise Undecided("%s is %r" % (name, obj))
        else:
            cls = obj.__dict__["%cls"]
        f = self.ctx.p.lookup(self.ctx.p.cls(cls), method)
        if f is None:
            raise Undecided("no method %s" % method)
        env = dict(self.given)
        env.update((("root", k), v) for k, v in state.items())
        env[SELF] = obj
        env.update(bind_args(f, args, kw))
        o, why = walk(self.ctx, f.qual, env, self.models, self.yields, selfcls=cls, **self.opts)
        if o is None:
            raise Undecided("%s: %s" % (method, why))
        if o.path is None:
            raise Undecided("%s: an error somewhere: %s at %s" % (method, o.val, o.where))
        return o, {k: o.env[("root", k)] for k in state}


def awaited(track, e):
    """A value that is yielded is itself the result, unless it is a future."""
    try:
        return track.ev(e.val)
    except Fails:
        raise
    except Unknown:
        return Unknown


def bind_args(f, args, kw):
    env = {}
    a = f.node.args
    pos = [x.arg for x in a.args if x.arg != "self"]
    for i, x in enumerate(args):
        if i < len(pos):
            env[("param", pos[i])] = x
    if a.vararg is not None:
        env[("param", "*" + a.vararg.arg)] = tuple(args[len(pos):])
    elif len(args) > len(pos):
        raise Undecided("%s takes %d arguments" % (f.qual, len(pos)))
    extra = {}
    names = pos + [x.arg for x in a.kwonlyargs]
    for k, x in kw.items():
        if k in names:
            env[("param", k)] = x
        else:
            extra[k] = x
    if a.kwarg is not None:
        env[("param", "**" + a.kwarg.arg)] = extra
    elif extra:
        raise Undecided("%s has no parameter %s" % (f.qual, sorted(extra)))
    ds = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
        (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for n, d in ds:
        if ("param", n) not in env:
            try:
                env[("param", n)] = ast.literal_eval(d)
            except ValueError:
                pass
    return env


def snapshot(track):
    """The attributes of self at this point of a path."""
    memo = {}
    return State((k, copy.deepcopy(v, memo)) for k, v in track.env.items()
                 if isinstance(k, tuple) and k[0] == "attr" and k[1] == SELF)


class Tally(object):
    """One obligation per kind of step."""

    def __init__(self, ctx, rule, where):
        self.ctx, self.rule, self.where = ctx, rule, where
        self.n, self.bad, self.open = {}, {}, {}

    def __call__(self, what, ok, msg=""):
        self.n[what] = self.n.get(what, 0) + 1
        if ok is None:
            self.open.setdefault(what, msg)
        elif not ok:
            self.bad.setdefault(what, msg)

    def done(self, states):
        for what in sorted(self.n):
            ok = False if what in self.bad else None if what in self.open else True
            self.ctx.ob(self.rule, what, ok, self.where, self.bad.get(what) or self.open.get(what)
                        or "%d steps over %d states" % (self.n[what], states))
