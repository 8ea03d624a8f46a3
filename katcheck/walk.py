"""The path of a function that a scenario takes.

A scenario binds inputs (parameters, attributes, the outcome of calls) to values; sets, lists and
dictionaries among them are abstracted to the few generic elements the scenario names, and the
bindings follow the assignments and mutations along a path.  The path engine drops a path as soon as
one of its branch conditions is false under the bindings.  A condition or value that cannot be
evaluated leaves the scenario open."""
import collections
import copy
import operator

from .engine import const, elem_term, matches, show, subterms
from .teval import (ARITH, PLAIN, Fails, Fut, Meth, Method, Record, Sentinel, Unknown, _call, args_of, atom, ev,
                    exc_name, seq)

MUT = {set: ("add", "discard", "remove", "clear", "update", "pop", "difference_update", "copy",
             "intersection_update", "symmetric_difference", "union", "difference",
             "intersection", "issubset", "issuperset", "symmetric_difference_update",
             "isdisjoint"),
       dict: ("get", "pop", "setdefault", "update", "clear", "keys", "values", "items", "copy",
              "popitem"),
       list: ("append", "extend", "insert", "pop", "remove", "clear", "index", "copy", "count",
              "sort", "reverse")}
AUG = {"BitOr": operator.ior, "BitAnd": operator.iand, "Sub": operator.isub,
       "BitXor": operator.ixor}
LIVE = {"list": list, "set": set, "dict": dict}


def settle(v):
    """What yielding v gives."""
    if isinstance(v, Fut):
        if v.exc:
            raise Fails(v.exc)
        return v.val
    if isinstance(v, dict) and v and all(isinstance(x, Fut) for x in v.values()):
        return {k: settle(x) for k, x in v.items()}
    if isinstance(v, list) and v and all(isinstance(x, Fut) for x in v):
        return [settle(x) for x in v]
    return v


class Fun(Sentinel):
    """A callable known by what it gives: fn(track, *args, **kwargs)."""

    def __init__(self, name, fn):
        Sentinel.__init__(self, name)
        self.fn = fn


class Obj(Record):
    """An object made on the way; its constructor gives it its attributes."""

    def __init__(self, cls):
        Record.__init__(self)
        self.__dict__["%cls"] = cls

    ctx = None

    def __bool__(self):
        cls = self.__dict__["%cls"]
        if self.ctx is None or cls not in self.ctx.p.classes:
            return True
        return truth(self.ctx, cls, self, {}, True)

    def __repr__(self):
        return "<%s object>" % self.__dict__["%cls"].rsplit(".", 1)[-1]


class DictOf(dict):
    """A dictionary of a repository class; its truth is what the class says."""

    def __init__(self, ctx, cls, scope, *args, **kw):
        dict.__init__(self, *args, **kw)
        self.ctx, self.cls, self.scope = ctx, cls, scope

    def __bool__(self):
        return truth(self.ctx, self.cls, self, self.scope, dict.__len__(self) > 0)

    def __deepcopy__(self, memo):
        return DictOf(self.ctx, self.cls, self.scope, copy.deepcopy(dict(self), memo))


def truth(ctx, cls, obj, scope, plain):
    """What the class of an object makes of its truth."""
    for name in ("__bool__", "__len__"):
        f = ctx.p.lookup(ctx.p.cls(cls), name)
        if f is None or not hasattr(f, "qual"):
            continue
        env = dict(scope)
        env[("param", "self")] = obj
        o, why = walk(ctx, f.qual, env, {}, None, selfcls=cls, unroll=True, exact=True, inline={"*"})
        if o is None or o.val is Unknown:
            raise Unknown("truth of %s: %s" % (cls, why))
        if o.kind == "raise":
            raise Fails(o.val)
        return bool(o.val)
    return plain


def _method(f, a, kw):
    try:
        v = getattr(f.obj, f.name)(*a, **kw)
    except ARITH as x:
        raise Fails(exc_name(x))
    return list(v) if f.name in ("keys", "values", "items") else v


class Code(Sentinel):
    """A function made along a path."""

    def __init__(self, guide, term):
        Sentinel.__init__(self, show(term))
        self.guide, self.term = guide, term

    def __deepcopy__(self, memo):
        return self


class This(Sentinel):
    def __bool__(self):
        raise Unknown("the truth of self")


THIS = This("self")


class Env(dict):
    """Bindings; a display met once is one object from then on."""

    def key(self, t):
        if isinstance(t, tuple) and len(t) == 3 and t[0] in LIVE:
            return ("live", t[2])
        return t

    def __contains__(self, t):
        return dict.__contains__(self, self.key(t))

    def __getitem__(self, t):
        return dict.__getitem__(self, self.key(t))

    def __setitem__(self, t, v):
        dict.__setitem__(self, self.key(t), v)

    def drop(self, t):
        dict.pop(self, self.key(t), None)


ATOMS = (str, int, float, bool, bytes, type(None), type, frozenset)


def dup(v, memo):
    """A deep copy."""
    if isinstance(v, ATOMS):
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    ty = type(v)
    if ty is tuple:
        w = tuple(dup(x, memo) for x in v)
        return v if all(a is b for a, b in zip(v, w)) else w
    if ty is dict:
        w = {}
        memo[id(v)] = v, w
        for k, x in v.items():
            w[dup(k, memo)] = dup(x, memo)
        return w
    if ty is list:
        w = []
        memo[id(v)] = v, w
        w.extend(dup(x, memo) for x in v)
        return w
    if ty is set:
        w = {dup(x, memo) for x in v}
    elif isinstance(v, Sentinel):
        return v
    elif isinstance(v, Record):
        w = ty.__new__(ty)
        memo[id(v)] = v, w
        for k, x in v.__dict__.items():
            w.__dict__[k] = dup(x, memo)
        return w
    elif ty is DictOf:
        w = DictOf(v.ctx, v.cls, v.scope)
        memo[id(v)] = v, w
        for k, x in v.items():
            w[dup(k, memo)] = dup(x, memo)
        return w
    elif ty is collections.defaultdict:
        w = collections.defaultdict(v.default_factory)
        memo[id(v)] = v, w
        for k, x in v.items():
            w[dup(k, memo)] = dup(x, memo)
        return w
    else:
        w = copy.deepcopy(v, memo.setdefault(0, {}))
    memo[id(v)] = v, w
    return w


class Track(object):
    """The bindings along one path so far."""

    def __init__(self, guide):
        self.g = guide
        self.ctx = guide.ctx
        self.n = 0
        self.env = Env()
        self.iters = {}
        self.comp = 0
        self.raised = None
        self.dead = False
        self.open = []
        self.log = []
        self.owner = None

    def clone(self, owner):
        t = Track.__new__(Track)
        t.__dict__.update(self.__dict__)
        memo = {}
        t.env = Env()
        for k, v in self.env.items():
            dict.__setitem__(t.env, k, dup(v, memo))
        t.iters = {k: [dup(v[0], memo), v[1], dup(v[2], memo), v[3]]
                   for k, v in self.iters.items()}
        t.open = list(self.open)
        t.log = list(self.log)
        t.owner = owner
        return t

    # -- advancing ---------------------------------------------------------

    def advance(self, events):
        """False when the path cannot be taken."""
        while self.n < len(events) and not self.dead:
            e = events[self.n]
            try:
                ok = self._step(e, events)
            except Fails as x:
                self.g.fails.append((x.args[0], e))
                ok = False
            except Unknown as x:
                a = x.args[0] if x.args else ""
                self.open.append("%s: %s" % (e.kind, show(a) if isinstance(a, tuple) else a))
                ok = True
            if not ok:
                self.dead = True
            self.n += 1
        return not self.dead

    def ev(self, t):
        if t is None:
            return None
        if isinstance(t, tuple) and t:
            if len(t) == 3 and t[0] in LIVE and t not in self.env:
                self.env[t] = ev(self.ctx, t, self.env)
            if t[0] in ("closure", "partial", "func") and t not in self.env and self.g.exact:
                return Code(self.g, t)
            if t[0] == "tuple" and t not in self.env:
                out = []
                for x in t[1]:
                    if x[0] == "star":
                        out.extend(args_of(self.ctx, [x], self.env))
                    else:
                        out.append(self.ev(x))
                return tuple(out)
        return ev(self.ctx, t, self.env)

    def _step(self, e, events):
        if self.comp and not (e.extra == "comp" and e.kind in ("iter", "enditer")):
            if e.kind == "exc":
                return False            # elements are taken to be made without an error
            return True
        was, self.raised = self.raised, None
        if was and was != "?":
            self.caught = was
            if e.kind != "exc":
                self.g.fails.append((was, e))
            return e.kind == "exc"
        if e.kind == "exc":
            if isinstance(e.extra, tuple) and e.extra and e.extra[0] == "noattr":
                self.caught = "AttributeError"
                return True
            if isinstance(e.extra, tuple) and e.extra and e.extra[0] == "operation":
                self.caught = e.val[1]
                return True
            if isinstance(e.extra, tuple) and e.extra and e.extra[0] == "subscript":
                try:
                    self.ev(("item", e.extra[1], e.extra[2]))
                except Fails as x:
                    self.caught = x.args[0]
                    return True
                return False
            return was == "?"
        if e.kind == "call":
            self._docall(e)
        elif e.kind == "cond":
            v = atom(self.ctx, e.extra, self.env, strict=True)
            if v is None:
                self.open.append("condition %s" % (show(e.extra[1]) if len(e.extra) > 1 else "",))
                return True
            return v == e.val
        elif e.kind in ("iter", "enditer", "breakiter"):
            return self._loop(e, events)
        elif e.kind == "lookup":
            try:
                self.ev(("item",) + tuple(e.extra[1:]))
            except Fails as x:
                self.g.fails.append((x.args[0], e))
                return False
            except Unknown:
                pass
        elif e.kind == "elems":
            u, n = e.extra
            items = list(seq(self.ev(e.val)))
            for i, x in enumerate(items):
                self._bind(elem_term(e.val, (u, i)), x)
                self.env[("elem", e.val, (u, i))] = x
        elif e.kind == "display":
            self.ev(e.val)
        elif e.kind == "freeze":
            try:
                self.env[e.res] = self.ev(e.val)
            except Fails:
                pass
            except Unknown:
                pass
        elif e.kind == "store":
            self._store(e)
        elif e.kind == "binop":
            self.env.drop(e.res)
            try:
                self.env[e.res] = self.ev(e.res)
            except Fails:
                raise
            except Unknown:
                t = e.res
                if t[:2] != ("bin", "Mod") or t[2][:2] != ("const", "str"):
                    raise
                self.env[t] = Sentinel(show(t))     # a text about some object
        elif e.kind == "aug":
            self._aug(e)
        elif e.kind == "setitem":
            b, k = self.ev(e.base), self.ev(e.extra)
            try:
                v = self.ev(e.val)
            except Fails:
                raise
            except Unknown:
                v = Sentinel(show(e.val))
            self.g.touched(b)
            b[k] = v
        elif e.kind == "delitem":
            b = self.ev(e.base)
            try:
                del b[self.ev(e.extra if e.extra is not None else e.val)]
            except ARITH as x:
                raise Fails(exc_name(x))
        elif e.kind == "yield" and self.g.yields is not None and e.val[0] not in ("fut", "futexc"):
            try:
                v = settle(self.g.yields(self, e))
            except Fails as x:
                if not self.g.exact:
                    raise
                self.raised = x.args[0]
                return True
            if v is not Unknown:
                self.env[e.res] = v
        return True

    def _aug(self, e):
        t = ("bin", e.name, e.base, e.val)
        a, b = self.ev(e.base), self.ev(e.val)
        if isinstance(a, list) and e.name == "Add":
            a.extend(b)
        elif isinstance(a, (set, dict)) and e.name in AUG and isinstance(b, (set, frozenset, dict)):
            a = AUG[e.name](a, b)
        else:
            self.env.drop(t)
            a = self.ev(t)
        self.env[t] = a

    def _store(self, e):
        try:
            v = self.ev(e.val)
        except Fails:
            raise
        except Unknown:
            v = Unknown
        try:
            b = self.ev(e.base)
        except Fails:
            raise
        except Unknown:
            b = None
        if isinstance(b, dict):
            b[e.attr] = v               # an AttrDict
        elif isinstance(b, Record):
            setattr(b, e.attr, v)
        elif v is Unknown:
            self.env.drop(("attr", e.base, e.attr))
        else:
            self.env[("attr", e.base, e.attr)] = v

    def _loop(self, e, events):
        if e.extra == "comp":
            self.comp += 1 if e.kind == "iter" else -1
            if e.kind == "enditer" and not self.comp and e.res is not None:
                self.env.drop(e.res)
                try:
                    self.env[e.res] = ev(self.ctx, e.res, self.env)
                except Fails:
                    raise
                except Unknown:
                    pass
            return True
        k = e.val
        if k not in self.iters or e.kind == "iter" and e.extra == 0:
            items = list(seq(self.ev(k)))
            base = self._live(k)
            self.iters[k] = [items, 0, base, len(base) if base is not None else None]
        items, n, base, size = self.iters[k]
        if base is not None and len(base) != size:
            if n < len(items) or len(base) > size:
                raise Fails("RuntimeError (changed while iterated over)")
        if e.kind == "iter":
            if n >= len(items):
                return False
            self.iters[k][1] = n + 1
            i = e.extra if isinstance(e.extra, int) else n
            self._bind(elem_term(e.val, i), items[n])
            self.env[("elem", e.val, i)] = items[n]
            return True
        del self.iters[k]
        return e.kind == "breakiter" or n == len(items)

    def _live(self, t):
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys", "values", "items") and \
                not t[2]:
            t = t[1][1]
        elif t[0] == "call" and t not in self.env:
            return None
        try:
            v = self.ev(t)
        except Unknown:
            return None
        return v if isinstance(v, (set, dict)) else None

    def _bind(self, el, x):
        if el[0] == "tuple":
            if isinstance(x, (tuple, list)) and len(x) == len(el[1]):
                for a, b in zip(el[1], x):
                    self._bind(a, b)
        elif el[0] not in ("const", "attr", "param"):
            self.env[el] = x

    # -- calls -------------------------------------------------------------

    def args(self, e):
        out = []
        for a in e.args:
            if a[0] == "star":
                out.extend(args_of(self.ctx, [a], self.env))
            else:
                out.append(self.ev(a))
        kw = {}
        for k, v in e.kwargs:
            if k == "**":
                kw.update(self.ev(v))
            else:
                kw[k] = self.ev(v)
        return out, kw

    def _fun(self, e):
        if e.f[0] in ("const", "ext", "func", "class", "bound", "closure"):
            return None
        try:
            f = self.ev(e.f)
        except (Fails, Unknown):
            return None
        if isinstance(f, Method) and (e.f[0] != "attr" or isinstance(self.ev(e.f[1]), Record)):
            return lambda t, e: _method(f, *t.args(e))
        if not isinstance(f, Fun):
            return None

        def m(t, e):
            a, kw = t.args(e)
            return f.fn(t, *a, **kw)
        return m

    def _docall(self, e):
        m = self.g.models.get(e.target) or self.g.models.get(e.name)
        if m is None:
            m = self._fun(e)
        try:
            v = m(self, e) if m is not None else self._value(e)
        except Fails as x:
            self.raised = x.args[0]
            return
        except Unknown:
            if m is not None:
                raise
            if e.res is not None and e.extra != "pure" and e.res[0] != "const":
                self.env.drop(e.res)
            return
        if v is not Unknown and e.res is not None and e.res[0] != "const":
            self.env[e.res] = v

    def _value(self, e):
        ctx, f = self.ctx, e.f
        if f[0] == "attr":
            r = self.ev(f[1])
            for ty, names in MUT.items():
                if isinstance(r, ty) and f[2] in names:
                    try:
                        a, kw = self.args(e)
                    except Unknown:
                        if f[2] not in ("index", "count", "copy", "get"):
                            self.open.append("%s of something unknown" % f[2])
                        raise
                    try:
                        v = getattr(r, f[2])(*a, **kw)
                    except ARITH as x:
                        raise Fails(exc_name(x))
                    return list(v) if f[2] in ("keys", "values", "items") else v
        if f[0] == "attr" and f[1][0] == "ext" or f[0] == "ext" and "." in f[1]:
            ty, _, m = (f[1][1], None, f[2]) if f[0] == "attr" else f[1].partition(".")
            a, kw = None, None
            if ty in LIVE and m in MUT[LIVE[ty]] and e.args:
                a, kw = self.args(e)
                if isinstance(a[0], LIVE[ty]):
                    try:
                        v = getattr(LIVE[ty], m)(*a, **kw)
                    except ARITH as x:
                        raise Fails(exc_name(x))
                    return list(v) if m in ("keys", "values", "items") else v
        if f[0] == "ext" and f[1] in ("copy.copy", "copy.deepcopy") and len(e.args) == 1:
            v = self.ev(e.args[0])
            return copy.copy(v) if f[1] == "copy.copy" else copy.deepcopy(v)
        if f == ("ext", "collections.defaultdict") and len(e.args) == 1 and \
                e.args[0][0] == "ext" and e.args[0][1] in LIVE:
            return collections.defaultdict(LIVE[e.args[0][1]])
        if f[0] == "ext" and f[1] in ("dict", "set", "list", "frozenset"):
            a, kw = self.args(e)
            try:
                return {"dict": dict, "set": set, "list": list, "frozenset": frozenset}[f[1]](
                    *a, **kw)
            except ARITH as x:
                raise Fails(exc_name(x))
        if e.res is not None and e.res[0] == "new":
            c = ctx.p.classes.get(e.res[1])
            if c is not None and any(getattr(b, "qual", b) == "dict" for b in ctx.p.mro(c)):
                a, kw = self.args(e)
                scope = {}
                for n, t in (getattr(e, "scope", None) or {}).items():
                    try:
                        scope[("param", n)] = scope[("outer", n)] = self.ev(t)
                    except (Fails, Unknown):
                        pass
                return DictOf(ctx, c.qual, scope, *a, **kw)
            init = ctx.p.lookup(c, "__init__") if c is not None else None
            if init is not None and matches(init.qual, self.g.inline):
                o = Obj(e.res[1])
                if all(hasattr(b, "qual") or b in ("object", "builtins.object")
                       for b in ctx.p.mro(c)):
                    o.__dict__["%whole"] = True
                return o
            raise Unknown(e.res)
        if e.res is None or e.res[0] != "call":
            raise Unknown(e.res or e.f)
        for a in e.args:
            self.ev(a[1] if a[0] == "star" else a)
        return _call(ctx, e.res, self.env)


class Guide(object):
    """A scenario: bindings, models of calls {name: f(track, event) -> value}, and what the
    yields give (yields(track, event) -> value)."""

    exact, inline = False, ()

    def __init__(self, ctx, env, models=None, yields=None, exact=False):
        self.ctx, self.env, self.exact = ctx, env, exact
        Obj.ctx = ctx
        self.models, self.yields = models or {}, yields
        self.fails = []

    def touched(self, b):
        pass

    def of(self, st):
        t = getattr(st, "walk", None)
        if t is None:
            t = Track(self)
            memo = {}
            for k, v in self.env.items():
                t.env[k] = dup(v, memo)
            if ("param", "self") not in t.env:
                t.env[("param", "self")] = THIS
            t.owner = st
        elif t.owner is not st and t.n < len(st.events):
            t = t.clone(st)
        st.walk = t
        return t

    def raising(self, st):
        """The exception the last event of this path raises, or None."""
        t = self.of(st)
        return t.raised if t.advance(st.events) else None

    def missing(self, st, item):
        t = self.of(st)
        if not t.advance(st.events):
            return None
        try:
            t.ev(item)
        except Fails as x:
            return x.args[0]
        except Unknown:
            pass
        return None

    def obj(self, st, t):
        """The object a term is, or None."""
        if t[0] in ("const", "class", "func", "ext", "closure", "module"):
            return None
        k = self.of(st)
        if not k.advance(st.events) or k.comp:
            return None
        try:
            v = k.ev(t)
        except (Fails, Unknown):
            return None
        return v if isinstance(v, (Record, Code)) else None

    def now(self, st, t):
        """The term for what an element is, None if it has to be remembered for later."""
        k = self.of(st)
        if not k.advance(st.events) or k.comp:
            return t
        try:
            v = k.ev(t)
        except (Fails, Unknown):
            return t
        if v is None or type(v) in (int, str, bytes, bool, float):
            return const(v)
        if v is Unknown:
            return t
        return self.term(v)

    def text(self, st, t):
        """The text a term is, or None."""
        k = self.of(st)
        if not k.advance(st.events) or k.comp:
            return None
        try:
            v = k.ev(t)
        except (Fails, Unknown):
            return None
        return v if isinstance(v, str) else None

    def term(self, v):
        """The term a function made on this path is known by."""
        return v.term if isinstance(v, Code) and v.guide is self else None

    def has(self, v):
        return v is not Unknown

    def decide(self, st, at):
        t = self.of(st)
        if not t.advance(st.events) or t.comp:
            return None
        try:
            return atom(self.ctx, at, t.env, strict=True)
        except (Fails, Unknown):
            return None

    def size(self, st, coll):
        """How many elements a collection has at this point."""
        t = self.of(st)
        if not t.advance(st.events) or t.comp:
            return None
        try:
            n = len(list(seq(t.ev(coll))))
        except (Fails, Unknown):
            return None
        return n if n <= 16 else None

    def keep(self, st):
        return self.of(st).advance(st.events)


class Outcome(object):
    def __init__(self, path, t):
        self.path, self.env, self.open, self.log = path, t.env, t.open, t.log
        self.kind, self.val, self.track = path.kind, None, t
        if path.kind == "return":
            try:
                self.val = t.ev(path.val)
            except Fails as x:
                self.kind, self.val = "raise", x.args[0]
            except Unknown as x:
                self.val = Unknown
                if not t.g.exact:
                    self.open = self.open + ["value " + show(path.val)]
        elif path.kind == "raise":
            self.val = path.val[1] or getattr(t, "caught", None)

    def get(self, t):
        try:
            return self.track.ev(t)
        except Unknown:
            return Unknown


def walk(ctx, qual, env, models=None, yields=None, **opts):
    """(outcome or None, why not)"""
    g = Guide(ctx, env, models, yields, opts.pop("exact", False))
    g.inline = opts.get("inline") or ()
    if g.exact:
        opts["opaque"] = set(opts.get("opaque") or ()) | {
            k if "." in k else "*." + k for k in g.models}
    opts.setdefault("loop_max", 8)
    opts.setdefault("while_max", 8)
    opts.setdefault("no_fork_raise", True)
    out = []
    for p in ctx.paths(qual, guide=g, **opts):
        if not g.keep(p.state):
            continue
        t = p.state.walk
        if t.raised and t.raised != "?":
            g.fails.append((t.raised, None))
            continue
        out.append(Outcome(p, t))
    if len(out) == 1:
        o = out[0]
        return (o, "; ".join(o.open)) if not o.open else (None, "; ".join(o.open))
    if not out and g.fails:
        o = Outcome.__new__(Outcome)
        o.kind, o.val, o.open, o.path, o.env, o.log = "raise", g.fails[0][0], [], None, {}, []
        o.where = g.fails[0][1]
        o.get = lambda t: Unknown
        return o, ""
    return None, "%d paths: %s" % (len(out), "; ".join(sorted({x for o in out for x in o.open}))[:300])
