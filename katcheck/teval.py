"""Evaluation of engine terms and path conditions under a binding of parameters to values
(constant tables of the source are folded; nothing of the code is executed)."""
import copy
import decimal
import fractions
import math
import numbers
import operator
import ast
import re
import struct

from .consteval import EXT, CallTerm, Sym
from .engine import NONE, elem_term, mentions
from .program import AnalysisError


OPS = {"BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor, "Add": operator.add,
       "Sub": operator.sub, "Mult": operator.mul, "Mod": operator.mod, "Div": operator.truediv, "FloorDiv": operator.floordiv}


class Unknown(Exception):
    pass


class Fails(Unknown):
    """The evaluation raises (the first argument names the exception)."""


class Sentinel(object):
    """An object known only by its identity."""
    doc = None

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name

    def __deepcopy__(self, memo):
        return self


class Record(object):
    """An object known by the values of its attributes."""

    def __init__(self, **fields):
        self.__dict__.update(fields)

    def __repr__(self):
        return "Record(%s)" % ", ".join("%s=%r" % x for x in sorted(self.__dict__.items()))


class Fut(Record):
    """A future that is done: with a value, or with an exception of a class."""

    def __init__(self, val=None, exc=None):
        Record.__init__(self, val=val, exc=exc)

    def __repr__(self):
        return "Fut(%s)" % (self.exc or repr(self.val))


class Method(Record):
    """A method of a container, not called yet."""

    def __init__(self, obj, name):
        Record.__init__(self, obj=obj, name=name)

    def __eq__(self, other):
        return isinstance(other, Method) and self.obj is other.obj and self.name == other.name

    def __hash__(self):
        return hash((id(self.obj), self.name))


class Meth(Record):
    """A method of an object."""

    def __init__(self, obj, qual, cls):
        Record.__init__(self, obj=obj, qual=qual, cls=cls)

    def __repr__(self):
        return "%r.%s" % (self.obj, self.qual.rsplit(".", 1)[-1])


# functions of the standard library folded over constants
LIB = {"copy.copy": copy.copy, "copy.deepcopy": copy.deepcopy, "re.compile": re.compile, "struct.pack": struct.pack, "struct.unpack": struct.unpack,
       "struct.calcsize": struct.calcsize, "decimal.Decimal": decimal.Decimal,
       "math.isnan": math.isnan, "math.isinf": math.isinf, "math.floor": math.floor,
       "math.ceil": math.ceil, "format": format, "repr": repr, "abs": abs, "round": round,
       "bytes": bytes, "math.isfinite": math.isfinite, "divmod": divmod, "sum": sum,
       "reversed": lambda x: list(reversed(x)), "range": lambda *a: list(range(*a)),
       "zip": lambda *a: list(zip(*a)), "enumerate": lambda *a: list(enumerate(*a))}
PYTYPES = {"str": str, "bytes": bytes, "int": int, "float": float, "bool": bool,
           "list": list, "tuple": tuple, "dict": dict, "set": set,
           "numbers.Integral": numbers.Integral, "numbers.Real": numbers.Real,
           "numbers.Number": numbers.Number, "collections.Sequence": (str, bytes, list, tuple),
           "collections.abc.Sequence": (str, bytes, list, tuple),
           "collections.Iterable": (str, bytes, list, tuple, dict, set, frozenset),
           "collections.abc.Iterable": (str, bytes, list, tuple, dict, set, frozenset),
           "past.builtins.basestring": (str, bytes)}
PLAIN = (str, bytes, int, float, list, tuple, dict, set, frozenset, type(None),
         fractions.Fraction)
ARITH = (TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError, IndexError,
         AttributeError, ArithmeticError, struct.error)


def exc_name(e):
    if isinstance(e, struct.error):
        return "struct.error"
    return type(e).__name__


def _cattr(ctx, cls, name, t, own=False):
    """An attribute an instance has from its class."""
    from .lib import attr_stores
    if not own and attr_stores(ctx, name):
        raise Unknown(t)                # instances may have one of their own
    if name == "__doc__":
        return ast.get_docstring(ctx.p.cls(cls).node, False)
    for c in ctx.p.mro(ctx.p.cls(cls)):
        if name in getattr(c, "attrs", ()):
            return _known(ctx.cconst(c.qual, name))
    raise Unknown(t)


def args_of(ctx, items, env):
    out = []
    for x in items:
        if x[0] == "star":
            v = ev(ctx, x[1], env)
            if not isinstance(v, (list, tuple)):
                if isinstance(v, PLAIN) and not hasattr(v, "__iter__"):
                    raise Fails("TypeError")
                if not isinstance(v, PLAIN):
                    raise Unknown(x)
            out.extend(v)
        else:
            out.append(ev(ctx, x, env))
    return out


def ev(ctx, t, env):
    """The value of a term, or Unknown."""
    if t in env:
        return env[t]
    k = t[0]
    if k == "const":
        return t[2]
    if t == ("ext", "sys.version_info"):
        return (3, 9, 18)
    if k == "attr" and t[1][0] == "new" and t[1] not in env and t[1][1] in ctx.p.classes:
        return _cattr(ctx, t[1][1], t[2], t)
    if k == "attr":
        r = ev(ctx, t[1], env)
        if isinstance(r, Record):
            if t[2] in r.__dict__:
                if r.__dict__[t[2]] is Unknown:
                    raise Unknown(t)
                return r.__dict__[t[2]]
            if r.__dict__.get("%cls") in ctx.p.classes:
                return _cattr(ctx, r.__dict__["%cls"], t[2], t, True)
        if isinstance(r, dict) and t[2] in r:
            return r[t[2]]              # an AttrDict
        if isinstance(r, Sentinel) and t[2] == "__doc__":
            return r.doc
        if isinstance(r, (set, list, dict)) and callable(getattr(r, t[2], None)):
            return Method(r, t[2])
        raise Unknown(t)
    if k == "bound" and len(t) == 4 and t[2][0] != "class":
        return Meth(ev(ctx, t[2], env), t[1], t[3])
    if k == "fut":
        return Fut(ev(ctx, t[1], env))
    if k == "futexc":
        if t[1][0] != "exc" or not t[1][1]:
            raise Unknown(t)
        return Fut(exc=t[1][1])
    if k == "cattr":
        try:
            return _known(ctx.cconst(t[1], t[2]))
        except (AnalysisError, KeyError):
            raise Unknown(t)
    if k == "gconst":
        try:
            return _known(ctx.const(t[1], t[2]))
        except (AnalysisError, KeyError):
            raise Unknown(t)
    if k == "class":
        return Sym(t[1])
    if k == "ext" and t[1] in EXT:
        return EXT[t[1]]
    if k == "dict" and isinstance(t[1], tuple):
        if any(x[0] in (NONE, "**") or len(x) != 2 for x in t[1]):
            raise Unknown(t)
        return {ev(ctx, a, env): ev(ctx, b, env) for a, b in t[1]}
    if k == "item":
        c, i = ev(ctx, t[1], env), ev(ctx, t[2], env)
        if not isinstance(c, PLAIN) or isinstance(c, (set, frozenset)):
            raise Unknown(t)
        try:
            return c[i]
        except (KeyError, IndexError, TypeError) as e:
            raise Fails(exc_name(e))
    if k in ("tuple", "list"):
        items = args_of(ctx, t[1], env)
        return items if k == "list" else tuple(items)
    if k == "call":
        return _call(ctx, t, env)
    if k == "cmp":
        v = atom(ctx, t[1], env)
        if v is None:
            raise Unknown(t)
        return v == t[2]
    if k == "slice":
        b, lo, hi, st = [ev(ctx, x, env) for x in t[1:5]]
        if not isinstance(b, (list, tuple, str, bytes)):
            raise Unknown(t)
        return b[lo:hi:st]
    if k == "bin" and t[1] in OPS:
        a, b = ev(ctx, t[2], env), ev(ctx, t[3], env)
        if not all(isinstance(x, PLAIN) for x in (a, b)):
            raise Unknown(t)
        try:
            return OPS[t[1]](a, b)
        except ARITH as e:
            raise Fails(exc_name(e))
    if k == "not":
        return not ev(ctx, t[1], env)
    if k == "comp":
        return _comp(ctx, t, env)
    if k == "set" and isinstance(t[1], tuple):
        return set(ev(ctx, x, env) for x in t[1])
    raise Unknown(t)


def seq(v):
    """The elements of a collection in a fixed order."""
    if isinstance(v, (set, frozenset)):
        return sorted(v, key=repr)
    if isinstance(v, (list, tuple, dict)):
        return list(v)
    if isinstance(v, str):
        return list(v)
    raise Unknown(v)


def _comp(ctx, t, env):
    kind, elt, its, ifs = t[1:5]
    envs = [type(env)(env)]
    for c in its:
        new = []
        for e in envs:
            for v in seq(ev(ctx, c, e)):
                key = ("elem", c, 0)
                e2 = type(e)((k, x) for k, x in e.items() if k == key or not mentions(k, key))
                _bind(e2, elem_term(c, 0), v)
                e2[key] = v
                new.append(e2)
        envs = new
    out = []
    for e in envs:
        if all(bool(ev(ctx, x, e)) for x in ifs):
            out.append(ev(ctx, elt, e))
    return set(out) if kind == "set" else dict(out) if kind == "dict" else out


def value(ctx, t, env):
    """(known?, value)"""
    try:
        return True, ev(ctx, t, env)
    except Unknown:
        return False, None


def _call(ctx, t, env):
    f, a = t[1], t[2]
    nm = f[2] if f[0] == "attr" else f[1].rsplit(".", 1)[-1] if isinstance(
        f[1], str) else None
    if f[0] == "attr":
        r = ev(ctx, f[1], env)
        av = args_of(ctx, a, env)
        if t[3]:
            raise Unknown(t)
        if isinstance(r, PLAIN) and nm in ("encode", "decode", "lower", "upper", "strip",
                                           "startswith", "split", "join", "is_integer",
                                           "as_integer_ratio", "hex", "partition",
                                           "rpartition", "rsplit", "isdigit", "isalpha", "isalnum"):
            if not hasattr(r, nm):
                raise Fails("AttributeError")
            try:
                return getattr(r, nm)(*av)
            except ARITH as e:
                raise Fails(exc_name(e))
        if isinstance(r, str) and nm == "format" and all(
                isinstance(y, (str, bytes, int, float, type(None)))
                for x in av for y in (x if isinstance(x, tuple) else (x,))):
            try:
                return r.format(*av)
            except (IndexError, KeyError, ValueError) as e:
                raise Fails(exc_name(e))
        if isinstance(r, re.Pattern) and nm in ("match", "search", "fullmatch") or \
                isinstance(r, re.Match) and nm in ("group", "groups", "start", "end"):
            try:
                return getattr(r, nm)(*av)
            except ARITH as e:
                raise Fails(exc_name(e))
        if isinstance(r, (str, bytes)) and nm in ("startswith", "endswith", "replace", "split",
                                                  "join", "lstrip", "rstrip", "partition"):
            try:
                return getattr(r, nm)(*av)
            except TypeError:
                raise Fails("TypeError")
        if isinstance(r, (set, frozenset)) and nm in (
                "issubset", "issuperset", "union", "intersection", "difference",
                "isdisjoint", "__contains__"):
            return getattr(r, nm)(*av)
        if isinstance(r, (list, tuple)) and nm == "index":
            if av[0] not in r:
                raise Fails("ValueError")
            return r.index(av[0])
        if isinstance(r, dict) and nm == "get":
            return r.get(*av)
        if isinstance(r, dict) and nm in ("keys", "values", "items") and not av:
            return list(getattr(r, nm)())
        raise Unknown(t)
    if f == ("ext", "len") and len(a) == 1 and a[0][0] in ("list", "tuple", "set") and \
            a[0] not in env and not any(x[0] == "star" for x in a[0][1]):
        return len(a[0][1])
    if f[0] in ("func", "ext", "class"):
        av = args_of(ctx, a, env)
        if f == ("ext", "sorted") and t[3] and len(av) == 1:
            kw = dict(t[3])
            key = kw.pop("key", ("const", "NoneType", None))
            rev = kw.pop("reverse", ("const", "bool", False))
            if kw or rev[0] != "const" or key not in (
                    ("const", "NoneType", None), ("ext", "str.lower"), ("ext", "str.upper"),
                    ("ext", "len"), ("ext", "repr"), ("ext", "str")):
                raise Unknown(t)
            key = {"str.lower": str.lower, "str.upper": str.upper, "len": len, "repr": repr,
                   "str": str}.get(key[1])
            try:
                return sorted(av[0], key=key, reverse=rev[2])
            except ARITH as e:
                raise Fails(exc_name(e))
        if f == ("ext", "hasattr") and len(av) == 2 and isinstance(av[0], PLAIN):
            return hasattr(*av)
        if f == ("ext", "callable") and len(av) == 1:
            v = av[0]
            if isinstance(v, PLAIN + (set, dict)) or v is None:
                return False
            if isinstance(v, (Method, Meth)) or hasattr(v, "fn"):
                return True
            c = v.__dict__.get("%cls") if isinstance(v, Record) else None
            if c in ctx.p.classes:
                return ctx.p.lookup(ctx.p.cls(c), "__call__") is not None
            raise Unknown(t)
        if f[0] == "ext" and f[1] in LIB and not t[3]:
            if not all(isinstance(x, PLAIN + (decimal.Decimal,)) for x in av):
                raise Unknown(t)
            try:
                return LIB[f[1]](*av)
            except ARITH as e:
                raise Fails(exc_name(e))
        if nm == "is_text" and len(av) == 1:
            return isinstance(av[0], str)
        if nm == "is_bytes" and len(av) == 1:
            return isinstance(av[0], bytes)
        try:
            if nm == "len" and len(av) == 1:
                return len(av[0])
            if f[0] == "ext" and nm in ("min", "max") and len(av) > 1:
                return min(av) if nm == "min" else max(av)
            if f[0] == "ext" and nm in ("min", "max") and len(av) == 1 and not t[3] and isinstance(
                    av[0], (str, bytes, list, tuple)) and all(isinstance(x, PLAIN) for x in av[0]):
                return min(av[0]) if nm == "min" else max(av[0])
            if f[0] == "ext" and nm in ("all", "any") and len(av) == 1:
                return (all if nm == "all" else any)(av[0])
            if f[0] == "ext" and nm in ("set", "frozenset", "sorted") and len(av) < 2 and \
                    not t[3]:
                return {"set": set, "frozenset": frozenset, "sorted": sorted}[nm](*av)
            if f[0] == "ext" and nm in ("tuple", "list", "int", "float", "str", "bool") and \
                    len(av) == 1 and not isinstance(av[0], (Sym, CallTerm)):
                return {"tuple": tuple, "list": list, "int": int, "float": float,
                        "str": str, "bool": bool}[nm](av[0])
        except ARITH as e:
            if not all(isinstance(x, PLAIN) for x in av):
                raise Unknown(t)
            raise Fails(exc_name(e))
        if nm in ("ensure_native_str", "bytes_to_native_str") and len(av) == 1:
            try:
                return av[0].decode() if isinstance(av[0], bytes) else av[0]
            except UnicodeDecodeError:
                raise Fails("UnicodeDecodeError")
    raise Unknown(t)


def atom(ctx, a, env, strict=False):
    """The truth of an atomic condition, or None."""
    try:
        if a[0] == "truth":
            return bool(ev(ctx, a[1], env))
        if a[0] in ("eq", "is"):
            x, y = ev(ctx, a[1], env), ev(ctx, a[2], env)
            if isinstance(x, (Sentinel, Record)) or isinstance(y, (Sentinel, Record)):
                return x is y
            return x == y if a[0] == "eq" or x is None or y is None else None
        if a[0] == "in":
            return ev(ctx, a[1], env) in ev(ctx, a[2], env)
        if a[0] == "lt":
            x, y = ev(ctx, a[1], env), ev(ctx, a[2], env)
            if isinstance(x, (set, frozenset)) or isinstance(y, (set, frozenset)):
                return None         # a partial order, of which this is the converse
            return x < y
        if a[0] == "isinstance":
            v = ev(ctx, a[1], env)
            n = a[2][1] if isinstance(a[2], tuple) else a[2]
            if isinstance(n, str) and n.startswith("builtins."):
                n = n[9:]
            if n in PYTYPES and isinstance(v, PLAIN + (Sentinel,)):
                return isinstance(v, PYTYPES[n])
            if n in ctx.p.classes and type(v) in PLAIN:
                return False
            c = getattr(v, "__dict__", {}).get("%cls") if isinstance(v, Record) else None
            if c in ctx.p.classes and n in ctx.p.classes:
                return ctx.p.classes[n] in ctx.p.mro(ctx.p.cls(c))
    except Fails:
        if strict:
            raise
        return None
    except Unknown:
        return None
    except TypeError:
        if strict:
            raise Fails("TypeError")
        return None
    return None


def _known(v):
    if isinstance(v, CallTerm):
        a = list(v.args or ())
        if v.name in ("re.compile", "dict") and not v.kwargs and all(
                isinstance(x, PLAIN) for x in a):
            return re.compile(*a) if v.name == "re.compile" else dict(*a)
        raise Unknown(v)
    return v


def _rounds(comps, env):
    """The bindings for each pass of the comprehensions being built."""
    envs = [env]
    for c, items in comps:
        if items is None:
            return envs
        envs = [dict(e, **{}) | {("elem", c, 0): v} for e in envs for v in items]
    return envs


def _bind(env, term, v):
    if term[0] == "tuple":
        if isinstance(v, (tuple, list)) and len(v) == len(term[1]):
            for x, y in zip(term[1], v):
                _bind(env, x, y)
    elif term[0] not in ("const", "attr", "param"):
        env[term] = v


def _lookup(ctx, x, env):
    if x[0] == "subscript":
        ev(ctx, ("item", x[1], x[2]), env)
        return
    v = ev(ctx, x[1], env)
    if not isinstance(v, PLAIN):
        raise Unknown(x)
    if not hasattr(v, "__len__") or len(v) != x[2]:
        raise Fails("ValueError")


def _any_fails(ctx, x, comps, env):
    out = False
    for env2 in _rounds(comps, env):
        try:
            _lookup(ctx, x, env2)
        except Fails:
            out = True
    return out


def consistent(ctx, p, env):
    """(can this path be taken under the binding?, was any condition left open?)"""
    ok, open_, _, _ = trace(ctx, p, env)
    return ok, open_


def trace(ctx, p, env):
    """(feasible?, left open?, did a condition fail to evaluate?, the bindings at the end)"""
    open_ = False
    env, rounds = dict(env), {}
    comps = []                          # comprehensions being built, with their elements
    for i, e in enumerate(p.events):
        if e.extra == "comp" and e.kind == "iter":
            try:
                comps.append((e.val, seq(ev(ctx, e.val, env))))
            except Unknown:
                comps.append((e.val, None))
            continue
        if e.extra == "comp" and e.kind == "enditer":
            comps = [c for c in comps if c[0] != e.val]
            continue
        if e.kind == "exc":
            was, comps = comps, []
        nxt = p.events[i + 1] if i + 1 < len(p.events) else None
        if e.kind == "call":
            exc = nxt is not None and nxt.kind == "exc"
            if e.res is None or e.res in env:
                continue
            fails = None
            try:
                for env3 in _rounds(comps, env):
                    try:
                        ev(ctx, e.res, env3)
                    except Fails as x:
                        fails = x.args[0]
            except Unknown:
                open_ = open_ or exc
                continue
            if exc and fails is None:
                return False, open_, False, env
            if fails is not None and not exc:
                return False, open_, fails, env
        elif e.kind == "cond":
            try:
                v = atom(ctx, e.extra, env, strict=True)
            except Fails as x:
                return False, open_, x.args[0], env
            if v is None:
                open_ = True
            elif v != e.val:
                return False, open_, False, env
        elif e.kind in ("iter", "enditer", "breakiter") and e.extra != "comp":
            try:
                items = seq(ev(ctx, e.val, env))
            except Unknown:
                open_ = True
                continue
            if e.kind == "iter":
                n = e.extra
                if n >= len(items):
                    return False, open_, False, env
                _bind(env, elem_term(e.val, n), items[n])
                env[("elem", e.val, n)] = items[n]
                rounds[e.val] = n + 1
            elif e.kind == "enditer" and rounds.pop(e.val, 0) != len(items):
                return False, open_, False, env
        elif e.kind == "exc":
            # a lookup that cannot fail under the binding
            x = e.extra
            if isinstance(x, tuple) and x and x[0] in ("subscript", "unpack"):
                try:
                    if not _any_fails(ctx, x, was, env):
                        return False, open_, False, env
                except Unknown:
                    open_ = True
        elif e.kind in ("lookup", "unpack"):
            x = e.extra if e.kind == "lookup" else ("unpack", e.val, e.extra)
            try:
                if _any_fails(ctx, x, comps, env):
                    return False, open_, False, env
            except Unknown:
                pass
    return True, open_, False, env
