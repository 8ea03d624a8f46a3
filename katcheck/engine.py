"""Path-sensitive dataflow over syntax trees with value numbering.

For one entry function the engine walks its control-flow graph (branches,
try/except/else/finally, with, loops with a stated unrolling bound, yields) and
the bodies of the repo functions it calls, and returns the set of abstract
paths: each has an ordered list of events (calls, attribute stores, yields,
...), the branch facts that lead there and the way the path leaves the function.

Values are *terms* (where a value came from), not run-time values; branch
outcomes are syntactic facts over terms, pruned only by contradiction with an
earlier fact on the same term.  No solver, no execution.
"""
import ast
import builtins
from collections import namedtuple

from .program import AnalysisError, ClassInfo, FuncInfo, dotted

# --------------------------------------------------------------------------
# terms


def const(v):
    return ("const", type(v).__name__, v)


NONE = const(None)
CUT = ("cut",)
TRUE = const(True)
FALSE = const(False)


def is_const(t, *vals):
    if not (isinstance(t, tuple) and t and t[0] == "const"):
        return False
    return not vals or any(t == const(v) for v in vals)


def cval(t):
    return t[2] if is_const(t) else None


_PURE_STR = {"replace", "split", "strip", "rstrip", "lstrip", "splitlines", "partition",
             "rpartition", "rsplit", "startswith", "endswith", "lower", "upper"}
_STRIP = {"list", "tuple", "sorted", "set", "iter", "frozenset", "reversed"}
_PURE = {"len", "str", "bytes", "int", "float", "bool", "repr", "list", "tuple",
         "set", "frozenset", "dict", "sorted", "isinstance", "issubclass", "hasattr",
         "zip", "enumerate", "min", "max", "abs", "range", "type", "id",
         "callable", "reversed", "sum", "any", "all", "round", "chr", "ord",
         "hash", "iter", "super", "map", "filter", "object", "format", "pow",
         "divmod"}
_RAISING_PURE = {"int", "float", "next", "ord", "chr"}
_PURE_METHODS = {"format", "startswith", "endswith", "strip", "lower", "upper",
                 "split", "join", "replace", "keys", "values", "items",
                 "lstrip", "rstrip", "title", "encode", "copy", "rstrip",
                 "isdigit", "count", "splitlines", "partition", "rpartition",
                 "rsplit"}
_NOTNONE_METHODS = {"format", "startswith", "endswith", "strip", "lower", "upper",
                    "split", "join", "replace", "keys", "values", "items", "lstrip",
                    "rstrip", "encode", "decode", "splitlines", "partition"}
_RAISING_PURE_METHODS = {"decode", "index", "encode"}
_LOG_METHODS = {"debug", "info", "warn", "warning", "error", "exception",
                "critical", "fatal", "log"}


def strip_iter(t):
    """Drop list()/tuple()/sorted()... and .keys() around a collection."""
    while True:
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in _STRIP and \
                len(t[2]) >= 1:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("keys", "copy") \
                and not t[2]:
            t = t[1][1]
        elif t[0] == "comp" and t[1] in ("list", "gen", "set") and not t[4] and \
                t[2][0] == "elem":
            t = t[3][0]
        elif t[0] == "slice" and t[2] == NONE and t[3] == NONE:
            t = t[1]
        else:
            return t


def elem_term(coll, n):
    c = strip_iter(coll)
    if c[0] == "call" and c[1][0] == "attr" and not c[2]:
        if c[1][2] == "values":
            d = c[1][1]
            return ("item", d, ("elem", d, n))
        if c[1][2] == "items":
            d = c[1][1]
            e = ("elem", d, n)
            return ("tuple", (e, ("item", d, e)))
    if c[0] == "call" and c[1] == ("ext", "enumerate") and c[2]:
        return ("tuple", (("idx", c[2][0], n), elem_term(c[2][0], n)))
    if c[0] == "call" and c[1] == ("ext", "zip"):
        return ("tuple", tuple(elem_term(a, n) for a in c[2]))
    if c[0] == "comp" and c[1] in ("list", "gen", "set"):
        t = c[2]
        for it in c[3] if n else ():
            t = replace(t, ("elem", it, 0), ("elem", it, n))
        return t
    if c[0] == "call" and c[1][0] == "attr" and c[1][1] == ("ext", "dict") and c[2]:
        return elem_term(("call", ("attr", c[2][0], c[1][2]), (), (), None), n)
    if c[0] == "call" and c[1][0] == "ext" and c[1][1] in ("dict.items", "dict.values",
                                                           "dict.keys") and c[2]:
        return elem_term(("call", ("attr", c[2][0], c[1][1][5:]), (), (), None), n)
    return ("elem", c, n)


def unpack_term(t, i, total):
    if t[0] in ("tuple", "list") and len(t[1]) == total and \
            not any(x[0] == "star" for x in t[1]):
        return t[1][i]
    return ("item", t, const(i))


def item_term(b, k):
    if b[0] in ("tuple", "list") and is_const(k) and isinstance(k[2], int):
        try:
            if not any(x[0] == "star" for x in b[1]):
                return b[1][k[2]]
        except IndexError:
            pass
    return ("item", b, k)


def replace(t, old, new):
    """t with every old replaced."""
    if t == old:
        return new
    if not isinstance(t, tuple):
        return t
    return tuple(replace(x, old, new) for x in t)


def subterms(t):
    """Every term nested in t (including t)."""
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if isinstance(x[0], str):
            yield x
            todo.extend(x[1:])
        else:
            todo.extend(x)


def mentions(t, sub):
    return any(x == sub for x in subterms(t))


def mentions_p(t, pred):
    return any(pred(x) for x in subterms(t))


def show(t, depth=0):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 6:
        return "..."
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if not isinstance(k, str):
        return "(" + ", ".join(s(x) for x in t) + ")"
    if k == "const":
        return repr(t[2])
    if k in ("param", "ext", "func", "class", "module"):
        return str(t[1])
    if k == "attr":
        return s(t[1]) + "." + t[2]
    if k == "item":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "elem":
        return "each(%s)" % s(t[1])
    if k == "call":
        return "%s(%s)" % (s(t[1]), ", ".join(
            [s(a) for a in t[2]] + ["%s=%s" % (n, s(v)) for n, v in t[3]]))
    if k == "new":
        return "%s(%s)" % (t[1], ", ".join(
            [s(a) for a in t[2]] + ["%s=%s" % (n, s(v)) for n, v in t[3]]))
    if k in ("tuple", "list", "set"):
        return k + "(" + ", ".join(s(a) for a in t[1]) + ")"
    if k == "bound":
        return s(t[2]) + "." + t[1].split(".")[-1]
    if k == "bin":
        return "(%s %s %s)" % (s(t[2]), t[1], s(t[3]))
    if k == "partial":
        return "partial(%s)" % s(t[1])
    if k == "cmp":
        return ("" if t[2] else "not ") + show_atom(t[1])
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x)
                               for x in t[1:]) + ")"


def show_atom(a):
    if a[0] == "truth":
        return show(a[1])
    return "%s(%s)" % (a[0], ", ".join(show(x) for x in a[1:]))


# --------------------------------------------------------------------------
# atoms (branch facts)

def atom_of_cmp(op, a, b):
    """-> (atom, polarity)"""
    if isinstance(op, (ast.Is, ast.IsNot)):
        x, y = (a, b) if is_const(b) or not is_const(a) else (b, a)
        return ("is", x, y), isinstance(op, ast.Is)
    if isinstance(op, (ast.Eq, ast.NotEq)):
        pol = isinstance(op, ast.Eq)
        if b == NONE or a == NONE:
            return ("is", a if b == NONE else b, NONE), pol
        for x, y in ((a, b), (b, a)):
            # len(x) == 0
            if y == const(0) and x[0] == "call" and x[1] == ("ext", "len"):
                return ("truth", x[2][0]), not pol
        x, y = sorted((a, b), key=lambda t: (is_const(t), repr(t)))
        return ("eq", x, y), pol
    if isinstance(op, (ast.In, ast.NotIn)):
        if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "keys":
            b = b[1][1]
        return ("in", a, b), isinstance(op, ast.In)
    if isinstance(op, ast.Lt):
        return _lt(a, b, True)
    if isinstance(op, ast.GtE):
        return _lt(a, b, False)
    if isinstance(op, ast.Gt):
        return _lt(b, a, True)
    if isinstance(op, ast.LtE):
        return _lt(b, a, False)
    raise AnalysisError("cmp %r" % op)


def _islen(t):
    return t[0] == "call" and t[1] == ("ext", "len") and len(t[2]) == 1


def _lt(a, b, pol):
    # len(x) > 0 / len(x) >= 1  <=> truth(x)
    if _islen(b) and a == const(0):
        return ("truth", b[2][0]), pol
    if _islen(a) and b == const(1):
        return ("truth", a[2][0]), not pol
    # integer normalisation: len(x) >= k  <=> k-1 < len(x)
    if _islen(a) and is_const(b) and isinstance(b[2], int):
        return ("lt", const(b[2] - 1), a), not pol      # a<b <=> not(b-1<a)
    return ("lt", a, b), pol


def matches(q, patterns):
    return q in patterns or any(o.endswith("*") and q.startswith(o[:-1]) for o in patterns)


class Event(object):
    __slots__ = ("kind", "node", "fn", "f", "name", "recv", "args", "kwargs",
                 "target", "res", "bound", "attr", "val", "base", "extra", "idx",
                 "depth", "stack", "rel", "scope", "_key")

    def key(self):
        if self._key is None:
            x = self.extra
            if isinstance(x, Event):
                x = x.key()
            elif isinstance(x, (list, dict, set)):
                x = repr(x)
            self._key = (self.kind, id(self.node), self.stack, self.f, self.args,
                         self.kwargs, self.val, x, self.base, self.attr, self.res,
                         self.name)
        return self._key

    def __init__(self, kind, node, fn, **kw):
        self.kind = kind
        self.node = node
        self.fn = fn
        for s in ("f", "name", "recv", "target", "res", "bound", "attr", "val",
                  "base", "extra"):
            setattr(self, s, None)
        self.args = ()
        self.kwargs = ()
        self.rel = None
        self._key = None
        self.idx = -1
        self.depth = 0
        self.stack = ()
        for k, v in kw.items():
            setattr(self, k, v)

    def arg(self, i, name=None):
        if name is not None:
            for n, v in self.kwargs:
                if n == name:
                    return v
        if name is not None and self.bound and name in self.bound:
            return self.bound[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def allargs(self):
        return list(self.args) + [v for _, v in self.kwargs]

    @property
    def where(self):
        return "%s:%s" % (self.fn.module.path, getattr(self.node, "lineno", "?"))

    def __repr__(self):
        if self.kind == "call":
            return "<call %s(%s) @%s>" % (show(self.f), ", ".join(
                show(a) for a in self.allargs()), getattr(self.node, "lineno", "?"))
        if self.kind == "store":
            return "<store %s.%s = %s @%s>" % (show(self.base), self.attr,
                                              show(self.val),
                                              getattr(self.node, "lineno", "?"))
        if self.kind == "cond":
            return "<cond %s%s>" % ("" if self.val else "not ",
                                   show_atom(self.extra))
        return "<%s %s %s @%s>" % (self.kind, self.name or self.attr or "",
                                  show(self.val) if self.val else "",
                                  getattr(self.node, "lineno", "?"))


Raised = namedtuple("Raised", "exc")
Path = None


class Frame(object):
    __slots__ = ("fn", "fid", "parent", "selfterm", "selfcls", "depth")

    def __init__(self, fn, fid, parent, selfterm, selfcls, depth):
        self.fn = fn
        self.fid = fid
        self.parent = parent        # enclosing frame id for closures
        self.selfterm = selfterm
        self.selfcls = selfcls      # qual of the class whose method runs (static)
        self.depth = depth


class State(object):
    __slots__ = ("envs", "heap", "facts", "events", "uid", "touched", "trydepth",
                 "curexc", "exctries", "stack", "visits", "walk")

    def __init__(self):
        self.walk = None
        self.envs = {}
        self.heap = {}
        self.facts = {}
        self.events = []
        self.uid = 0
        self.touched = frozenset()
        self.trydepth = 0
        self.exctries = ()
        self.curexc = ()
        self.stack = ()
        self.visits = {}

    def copy(self):
        s = State.__new__(State)
        s.walk = self.walk
        if s.walk is not None:
            s.walk.owner = None
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.uid = self.uid
        s.touched = self.touched
        s.trydepth = self.trydepth
        s.exctries = self.exctries
        s.curexc = self.curexc
        s.stack = self.stack
        s.visits = dict(self.visits)
        return s

    def new(self, node=None):
        """Value number: the syntax node that made the value and how often."""
        k = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
             self.stack)
        n = self.visits.get(k, 0)
        self.visits[k] = n + 1
        return (k[0], k[1], hash(k[2]) & 0xffffff, n)


class PathRes(object):
    """One abstract path of the entry function."""

    def __init__(self, st, comp):
        self.events = st.events
        self.facts = st.facts
        self.kind = comp[0]              # return / raise / cut
        self.val = comp[1] if len(comp) > 1 else None
        self.state = st

    def contents(self, t):
        """Items a local list/set/tuple ends up with on this path, or None."""
        if t[0] not in ("list", "set", "tuple"):
            return None
        k = ("contents", t)
        return self.state.heap[k] if k in self.state.heap else tuple(t[1])

    def calls(self, name=None):
        return [e for e in self.events if e.kind == "call" and
                (name is None or e.name == name)]

    def conds(self):
        return [(e.extra, e.val) for e in self.events if e.kind == "cond"]

    def __repr__(self):
        return "PATH[%s %s]\n  " % (self.kind, show(self.val) if self.val else "") + \
            "\n  ".join(repr(e) for e in self.events)


EXT_EXC_BASES = {
    "tornado.gen.Return": "Exception",
    "tornado.gen.TimeoutError": "Exception",
    "tornado.gen.BadYieldError": "Exception",
    "tornado.iostream.StreamClosedError": "OSError",
    "tornado.iostream.UnsatisfiableReadError": "Exception",
    "tornado.iostream.StreamBufferFullError": "Exception",
    "tornado.concurrent.TimeoutError": "Exception",
    "concurrent.futures.TimeoutError": "Exception",
    "socket.error": "OSError",
    "socket.timeout": "OSError",
    "socket.gaierror": "OSError",
    "select.error": "OSError",
    "Queue.Empty": "Exception",
    "queue.Empty": "Exception",
    "queue.Full": "Exception",
    "_thread.error": "RuntimeError",
}


class Engine(object):
    def __init__(self, program, entry, selfcls=None, loop_max=1, inline=None,
                 opaque=(), noraise=None, raise_all=False, models=None,
                 types=None, param_types=None, rettypes=None, max_paths=20000,
                 max_depth=12, params=None, inline_modules=None, while_max=None,
                 baseline=None, havoc_on_yield=True, exc_of=None,
                 init_facts=None, init_heap=None, no_fork_raise=False,
                 subscript_raises=True, attr_value=None, pure_calls=(), relevant=None,
                 deferred=None, havoc_after=(), loads=(),
                 unpacks=False, unroll=False, guide=None):
        self.p = program
        self.entry = program.func(entry) if isinstance(entry, str) else entry
        self.selfcls = selfcls or (self.entry.cls.qual if self.entry.cls else None)
        self.entry_self = None
        self.loop_max = loop_max
        self.while_max = loop_max if while_max is None else while_max
        self.inline_extra = set(inline or ())
        self.opaque = set(opaque)
        self.noraise = noraise
        self.raise_all = raise_all
        self.models = models or {}
        self.types = dict(types or {})          # (class, attr) -> class
        self.param_types = dict(param_types or {})
        self.rettypes = dict(rettypes or {})
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.param_override = params or {}
        self.inline_modules = inline_modules
        self.baseline = baseline or BASELINE
        self.havoc_on_yield = havoc_on_yield
        self.exc_of = exc_of
        self.init_facts = init_facts or {}
        self.init_heap = init_heap or {}
        self.no_fork_raise = no_fork_raise
        self.subscript_raises = subscript_raises
        self.attr_value = attr_value
        self.pure_calls = set(pure_calls)
        self.relevant = relevant
        self.deferred = deferred or {}
        self.havoc_after = set(havoc_after)
        self.loads = set(loads)         # attributes whose reading is an event
        self.unpacks = unpacks          # a sequence of another length raises
        self.guide = guide              # drops the paths a scenario does not take
        self.exact = guide is not None and guide.exact
        self.unroll = unroll            # follow sequences whose elements are known exactly
        self.closures = []
        self._closure_ids = {}
        self.frames = {}
        self.nframes = 0
        self.inlined = set()
        self.npaths = 0
        self.callstack = []

    # ------------------------------------------------------------------
    def run(self):
        fi = self.entry
        st = State()
        st.facts.update(self.init_facts)
        st.heap.update(self.init_heap)
        env = {}
        a = fi.node.args
        allp = a.posonlyargs + a.args + a.kwonlyargs
        for x in allp:
            env[x.arg] = self.param_override.get(x.arg, ("param", x.arg))
        if a.vararg:
            env[a.vararg.arg] = self.param_override.get(
                a.vararg.arg, ("param", "*" + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = self.param_override.get(
                a.kwarg.arg, ("param", "**" + a.kwarg.arg))
        selfterm = None
        if fi.takes_self and not fi.is_static and allp:
            selfterm = env[allp[0].arg]
            if fi.is_classmethod:
                selfterm = env[allp[0].arg] = ("class", self.selfcls)
        self.entry_self = selfterm
        parent = None
        if fi.parent is not None:
            # nested function analysed on its own: enclosing variables are params
            parent = self._make_outer(st, fi.parent)
            if not fi.takes_self:
                selfterm = self.frames[parent].selfterm
        fr = self._frame(fi, parent, selfterm,
                         fi.cls.qual if fi.cls else None, 0)
        st.envs[fr.fid] = env
        res = []
        if isinstance(fi.node, ast.Lambda):
            for s, v in self.ev(fi.node.body, st, fr):
                res.append((s, ("raise", v.exc) if isinstance(v, Raised)
                            else ("return", v)))
        else:
            res = self.block(fi.node.body, st, fr)
        out = []
        for s, c in res:
            out.append(PathRes(s, self._leave(c, fi)))
        for pth in out:
            for i, e in enumerate(pth.events):
                e.idx = i
        return out

    def _is_gen(self, fi):
        todo = list(fi.node.body) if isinstance(fi.node.body, list) else []
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
            if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.extend(ast.iter_child_nodes(x))
        return False

    def _leave(self, c, fi):
        if c[0] == "next":
            return ("return", NONE)
        if c == ("raise", CUT):
            return ("cut",)
        if c[0] == "raise" and c[1][0] == "exc" and \
                c[1][1] in ("tornado.gen.Return",):
            return ("return", c[1][2][0] if c[1][2] else NONE)
        return c

    def _make_outer(self, st, fi):
        par = self._make_outer(st, fi.parent) if fi.parent else None
        a = fi.node.args
        env = {}
        allp = a.posonlyargs + a.args + a.kwonlyargs
        for x in allp:
            env[x.arg] = ("param", x.arg)
        if a.vararg:
            env[a.vararg.arg] = ("param", "*" + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ("param", "**" + a.kwarg.arg)
        selfterm = None
        if fi.takes_self and allp and not fi.is_static:
            selfterm = env[allp[0].arg]
        if fi.parent is not None and not fi.takes_self:
            selfterm = self.frames[par].selfterm
        fr = self._frame(fi, par, selfterm, fi.cls.qual if fi.cls else None, 0)
        # local names assigned in the outer function become opaque outer values
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env.setdefault(n.id, ("outer", n.id))
        for n in ast.iter_child_nodes(fi.node):
            if isinstance(n, ast.FunctionDef):
                env[n.name] = self._closure(n, fi, fr)
        st.envs[fr.fid] = env
        return fr.fid

    def _frame(self, fn, parent, selfterm, selfcls, depth):
        self.nframes += 1
        fr = Frame(fn, self.nframes, parent, selfterm, selfcls, depth)
        self.frames[fr.fid] = fr
        return fr

    def _closure(self, node, fi, fr):
        key = (id(node), fr.fid)
        if key not in self._closure_ids:
            q = fi.qual + ".<locals>." + getattr(node, "name", "<lambda>")
            sub = self.p.functions.get(q)
            if sub is None or sub.node is not node:
                sub = FuncInfo(q, node, fi.module, fi.cls, fi)
            self._closure_ids[key] = len(self.closures)
            self.closures.append((sub, fr.fid))
        return ("closure", self._closure_ids[key],
                getattr(node, "name", "<lambda>"))

    def closure_info(self, t):
        return self.closures[t[1]][0]

    # ------------------------------------------------------------------
    def emit(self, st, kind, node, fr, **kw):
        e = Event(kind, node, fr.fn, **kw)
        e.depth = fr.depth
        e.stack = st.stack
        st.events.append(e)
        return e

    def _freeze(self, st, fr, node, pred):
        """Before something changes, what was read from it keeps its value (guided walks)."""
        if self.guide is None:
            return
        seen = {}

        def sub(t):
            if not isinstance(t, tuple) or not t:
                return t
            if isinstance(t[0], str):
                if t[0] not in ("attr", "item", "tuple", "bin", "slice", "not", "cmp", "star"):
                    return t                # known by its own value
                if pred(t):
                    if t not in seen:
                        seen[t] = ("was", t, st.new(node))
                    return seen[t]
            return tuple(sub(x) for x in t)
        for env in st.envs.values():
            for k, v in env.items():
                if isinstance(v, tuple) and any(pred(x) for x in subterms(v)):
                    env[k] = sub(v)
        for k, v in st.heap.items():
            if isinstance(v, tuple) and v and isinstance(v[0], str) and \
                    any(pred(x) for x in subterms(v)):
                st.heap[k] = sub(v)
        for t, w in seen.items():
            self.emit(st, "freeze", node, fr, val=t, res=w)

    def _check(self, lst):
        if len(lst) > self.max_paths:
            raise AnalysisError("path budget exceeded in %s" % self.entry.qual)

    # -- statements ----------------------------------------------------
    def block(self, stmts, st, fr):
        cur = [(st, ("next",))]
        for s in stmts:
            nxt = []
            for x, c in cur:
                if c[0] != "next":
                    nxt.append((x, c))
                else:
                    nxt.extend(self.stmt(s, x, fr))
            if self.guide is not None and len(nxt) > 1:
                nxt = [(x, c) for x, c in nxt if self.guide.keep(x)]
            cur = self.merge(nxt)
            self._check(cur)
            if not any(c[0] == "next" for _, c in cur):
                break
        return cur

    def merge(self, lst):
        """Join abstract states that the rule cannot tell apart.

        Two states join when they leave the statement the same way with the same
        values and the same *relevant* events; their branch facts intersect.
        """
        if self.relevant is None or len(lst) < 2:
            return lst
        out = {}
        order = []
        for s, c in lst:
            k = (c, tuple(e.key() for e in s.events if self._rel(e)),
                 frozenset((f, frozenset(v.items())) for f, v in s.envs.items()),
                 frozenset(s.heap.items()), s.exctries, s.curexc, s.trydepth)
            o = out.get(k)
            if o is None:
                out[k] = (s, c)
                order.append(k)
            else:
                t = o[0]
                for a in list(t.facts):
                    if s.facts.get(a) != t.facts[a]:
                        del t.facts[a]
                t.touched = t.touched | s.touched
                for n, v in s.visits.items():
                    if t.visits.get(n, 0) < v:
                        t.visits[n] = v
        return [out[k] for k in order]

    def _rel(self, e):
        r = e.rel
        if r is None:
            r = e.rel = bool(self.relevant(e))
        return r

    def stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            return [(st, ("next",))]
        return m(n, st, fr)

    def s_Pass(self, n, st, fr):
        return [(st, ("next",))]

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, ("next",))]
        return [(s, ("raise", v.exc) if isinstance(v, Raised) else ("next",))
                for s, v in self.ev(n.value, st, fr)]

    def s_Return(self, n, st, fr):
        if n.value is None:
            return [(st, ("return", NONE))]
        return [(s, ("raise", v.exc) if isinstance(v, Raised) else ("return", v))
                for s, v in self.ev(n.value, st, fr)]

    def s_Break(self, n, st, fr):
        return [(st, ("break",))]

    def s_Continue(self, n, st, fr):
        return [(st, ("continue",))]

    def s_Assert(self, n, st, fr):
        out = []
        for s, v in self.cond(n.test, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
            elif v:
                out.append((s, ("next",)))
            else:
                out.append((s, ("raise", ("exc", "AssertionError", (), s.new(n)))))
        return out

    def _set_attr(self, s, fr, node, b, name, v):
        self._freeze(s, fr, node, lambda x: x[0] == "attr" and x[1] == b and
                     x[2] == name and x != v)
        self.emit(s, "store", node, fr, base=b, attr=name, val=v)
        self._purge(s, lambda x: x[0] == "attr" and x[1] == b and x[2] == name)
        s.heap[(b, name)] = v

    def s_FunctionDef(self, n, st, fr):
        f = self._closure(n, fr.fn, fr)
        if self.unroll:
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and len(d.args) == 1 and \
                        dotted(d.func) in ("wraps", "functools.wraps"):
                    r = self.ev(d.args[0], st, fr)
                    if len(r) == 1 and not isinstance(r[0][1], Raised):
                        st = r[0][0]
                        st.heap[(f, "__wrapped__")] = r[0][1]
        st.envs[fr.fid][n.name] = f
        return [(st, ("next",))]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, st, fr):
        q = fr.fn.qual + ".<locals>." + n.name
        st.envs[fr.fid][n.name] = ("class", q) if q in self.p.classes else ("localclass", n.name)
        return [(st, ("next",))]

    def s_Nonlocal(self, n, st, fr):
        for x in n.names:
            st.envs[fr.fid]["%nl%" + x] = TRUE
        return [(st, ("next",))]

    def s_Global(self, n, st, fr):
        return [(st, ("next",))]

    def s_Delete(self, n, st, fr):
        cur = [(st, ("next",))]
        for t in n.targets:
            nxt = []
            for s, c in cur:
                if c[0] != "next":
                    nxt.append((s, c))
                    continue
                if isinstance(t, ast.Subscript):
                    for s2, vs in self.evs([t.value, t.slice], s, fr):
                        if isinstance(vs, Raised):
                            nxt.append((s2, ("raise", vs.exc)))
                            continue
                        nxt.extend(self._maybe_key_raise(s2, n, fr, vs[0], vs[1]))
                        self._freeze(s2, fr, n, lambda x: x[0] == "item" and x[1] == vs[0])
                        self.emit(s2, "delitem", n, fr, base=vs[0], val=vs[1])
                        s2.heap.pop(("item", vs[0], vs[1]), None)
                        self._purge(s2, lambda x: (x[0] == "in" and x[2] == vs[0]) or
                                    (x[0] == "truth" and x[1] == vs[0]))
                        s2.facts[("in", vs[1], vs[0])] = False
                        nxt.append((s2, ("next",)))
                elif isinstance(t, ast.Attribute):
                    for s2, v in self.ev(t.value, s, fr):
                        if isinstance(v, Raised):
                            nxt.append((s2, ("raise", v.exc)))
                            continue
                        self.emit(s2, "delattr", n, fr, base=v, attr=t.attr)
                        s2.heap.pop((v, t.attr), None)
                        nxt.append((s2, ("next",)))
                else:
                    if isinstance(t, ast.Name):
                        s.envs[fr.fid].pop(t.id, None)
                    nxt.append((s, c))
            cur = nxt
        return cur

    def _maybe_key_raise(self, st, node, fr, base, key):
        """Fork a KeyError path when a handler in scope could see it."""
        if self.exact:
            cls = self.guide.missing(st, ("item", base, key))
            if cls is None:
                return []
            s = st.copy()
            exc = ("exc", cls, (), s.new(node))
            self.emit(s, "exc", node, fr, val=exc, extra=("subscript", base, key))
            return [(s, ("raise", exc))]
        if self.no_fork_raise or not self.subscript_raises:
            return []
        if st.exctries and any(self._handles(h, "KeyError") or
                               self._handles(h, "IndexError")
                               for h in st.exctries):
            if base[0] in ("tuple", "dict", "list") and is_const(key):
                return []
            s = st.copy()
            exc = ("exc", "KeyError", (), s.new(node))
            self.emit(s, "exc", node, fr, val=exc, extra=("subscript", base, key))
            return [(s, ("raise", exc))]
        return []

    def _handles(self, hset, cls):
        return hset is None or any(self.exc_isa(cls, h) for h in hset)

    def s_Assign(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
                continue
            cur = [(s, ("next",))]
            for t in n.targets:
                nxt = []
                for s2, c in cur:
                    if c[0] == "next":
                        nxt.extend(self.assign(t, v, s2, fr))
                    else:
                        nxt.append((s2, c))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, ("next",))]
        out = []
        for s, v in self.ev(n.value, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
            else:
                out.extend(self.assign(n.target, v, s, fr))
        return out

    def s_AugAssign(self, n, st, fr):
        load = _as_load(n.target)
        out = []
        for s, vs in self.evs([load, n.value], st, fr):
            if isinstance(vs, Raised):
                out.append((s, ("raise", vs.exc)))
                continue
            op = type(n.op).__name__
            v = self.binop(op, vs[0], vs[1])
            self.emit(s, "aug", n, fr, base=vs[0], val=vs[1], name=op)
            if vs[0][0] == "list" and op == "Add":
                c = self.contents(vs[0], s)
                if c is not None:
                    a = self.snap(vs[1], s)
                    c = c + (tuple(a[1]) if a[0] in ("list", "tuple") else
                             (("star", a),))
                s.heap[("contents", vs[0])] = c
                s.touched = s.touched | {vs[0]}
                v = vs[0]
            out.extend(self.assign(n.target, v, s, fr))
        return out

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            fid = fr.fid
            if ("%nl%" + t.id) in st.envs[fid]:
                f = fr
                while f.parent is not None:
                    f = self.frames[f.parent]
                    if t.id in st.envs.get(f.fid, {}):
                        fid = f.fid
                        break
            st.envs[fid][t.id] = v
            return [(st, ("next",))]
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [(st, ("next",))]
            total = len(t.elts)
            if self.unpacks and v[0] not in ("tuple", "list") and not any(
                    isinstance(e, ast.Starred) for e in t.elts):
                s = st.copy()
                self.emit(st, "unpack", t, fr, val=v, extra=total)
                exc = ("exc", "ValueError", (), s.new(t))
                self.emit(s, "exc", t, fr, val=exc, extra=("unpack", v, total))
                failed = [(s, ("raise", exc))]
            else:
                failed = []
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    x = ("slice", v, const(i), NONE, NONE)
                    e = e.value
                else:
                    x = unpack_term(v, i, total)
                nxt = []
                for s, c in cur:
                    nxt.extend(self.assign(e, x, s, fr))
                cur = nxt
            return failed + cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr):
                if isinstance(b, Raised):
                    out.append((s, ("raise", b.exc)))
                    continue
                cls = self.typeof(b)
                known = self.guide.obj(s, b) if self.exact else None
                if known is not None and known.__dict__.get("%cls") in self.p.classes:
                    cls = known.__dict__["%cls"]
                setter = None
                if cls:
                    for k in self.p.mro(self.p.classes[cls]):
                        if isinstance(k, ClassInfo) and t.attr in k.setters:
                            setter = k.setters[t.attr]
                            break
                if setter is not None and self.should_inline(setter, fr):
                    for s2, r in self.call_func(setter, [b, v], {}, s, fr, t,
                                                selfterm=b):
                        out.append((s2, ("raise", r.exc)
                                    if isinstance(r, Raised) else ("next",)))
                    continue
                self._set_attr(s, fr, t, b, t.attr, v)
                out.append((s, ("next",)))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, vs in self.evs([t.value, t.slice], st, fr):
                if isinstance(vs, Raised):
                    out.append((s, ("raise", vs.exc)))
                    continue
                self._freeze(s, fr, t, lambda x: x[0] == "item" and x[1] == vs[0] and x != v)
                self.emit(s, "setitem", t, fr, base=vs[0], extra=vs[1], val=v)
                s.touched = s.touched | {vs[0]}
                s.heap.pop(("popped", vs[0]), None)
                self._purge(s, lambda x: x == ("item", vs[0], vs[1]) or
                            (x[0] == "in" and x[2] == vs[0]))
                s.heap[("item", vs[0], vs[1])] = v
                out.append((s, ("next",)))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        return [(st, ("next",))]

    def _purge(self, st, pred):
        for a in list(st.facts):
            if any(pred(x) for x in subterms(a)):
                del st.facts[a]

    def s_If(self, n, st, fr):
        out = []
        for s, v in self.cond(n.test, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
            else:
                out.extend(self.block(n.body if v else n.orelse, s, fr))
        self._check(out)
        return out

    def s_With(self, n, st, fr):
        cur = [(st, ("next",))]
        for it in n.items:
            nxt = []
            for s, c in cur:
                if c[0] != "next":
                    nxt.append((s, c))
                    continue
                for s2, v in self.ev(it.context_expr, s, fr):
                    if isinstance(v, Raised):
                        nxt.append((s2, ("raise", v.exc)))
                        continue
                    self.emit(s2, "with", n, fr, val=v)
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, ("ctx", v), s2, fr))
                    else:
                        nxt.append((s2, ("next",)))
            cur = nxt
        out = []
        for s, c in cur:
            if c[0] != "next":
                out.append((s, c))
                continue
            ctxs = [e.val for e in s.events[-40:] if e.kind == "with" and e.node is n]
            for s2, c2 in self.block(n.body, s, fr):
                for v in reversed(ctxs):
                    self.emit(s2, "endwith", n, fr, val=v)
                out.append((s2, c2))
        return out

    s_AsyncWith = s_With

    def s_Raise(self, n, st, fr):
        if n.exc is None:
            exc = st.curexc[-1] if st.curexc else ("exc", None, (), st.new(n))
            self.emit(st, "raise", n, fr, val=exc, name="reraise")
            return [(st, ("raise", exc))]
        out = []
        for s, v in self.ev(n.exc, st, fr):
            if isinstance(v, Raised):
                out.append((s, ("raise", v.exc)))
                continue
            exc = self.as_exc(v, s, n)
            self.emit(s, "raise", n, fr, val=exc)
            out.append((s, ("raise", exc)))
        return out

    def as_exc(self, v, st, n=None):
        if v[0] == "exc":
            return v
        if v[0] == "new":
            return ("exc", v[1], v[2], st.new(n))
        if v[0] == "class":
            return ("exc", v[1], (), st.new(n))
        if v[0] == "call" and v[1][0] == "ext":
            return ("exc", v[1][1], v[2], st.new(n))
        if v[0] == "ext":
            return ("exc", v[1], (), st.new(n))
        return ("exc", None, (v,), st.new(n))

    def exc_isa(self, c, h):
        """Is exception class name c a subclass of handler class name h?"""
        if h == "Exception" and c in ("GeneratorExit", "KeyboardInterrupt", "SystemExit"):
            return False
        if c == h or h in ("Exception", "BaseException"):
            return True
        if c is None or h is None:
            return None
        seen = set()
        todo = [c]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == h:
                return True
            if x in self.p.classes:
                for k in self.p.mro(self.p.classes[x])[1:]:
                    todo.append(k.qual if isinstance(k, ClassInfo) else k)
            elif x in EXT_EXC_BASES:
                todo.append(EXT_EXC_BASES[x])
            else:
                b = getattr(builtins, x, None)
                if isinstance(b, type):
                    hb = getattr(builtins, h, None)
                    if h in EXT_EXC_BASES and EXT_EXC_BASES[h] == "OSError" and \
                            h.startswith(("socket.error", "select.error")):
                        hb = OSError
                    if isinstance(hb, type) and issubclass(b, hb):
                        return True
        if h in ("socket.error", "select.error", "IOError", "EnvironmentError") and \
                "OSError" in seen:
            return True
        return False

    def handler_classes(self, h, fr, st):
        """Handler type names, None for bare."""
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            d = dotted(t)
            if d is None:
                out.append(None)
                continue
            r = self.p.resolve(fr.fn.module, d)
            if r and r[0] == "class":
                out.append(r[1].qual)
            elif r and r[0] == "ext":
                out.append(r[1])
            elif r and r[0] == "const":
                # module level alias (tuple of classes)
                v = r[1].assigns[r[2]]
                for e in (v.elts if isinstance(v, ast.Tuple) else [v]):
                    dd = dotted(e)
                    rr = self.p.resolve(r[1], dd) if dd else None
                    out.append(rr[1].qual if rr and rr[0] == "class" else
                               rr[1] if rr and rr[0] == "ext" else None)
            else:
                out.append(d)
        return out

    def s_Try(self, n, st, fr):
        hsets = []
        for h in n.handlers:
            hsets.append(self.handler_classes(h, fr, st))
        flat = None
        if any(h is None for h in hsets):
            flat = None
        else:
            flat = frozenset(x for h in hsets for x in h)
        saved = st.exctries
        if n.handlers:
            st.exctries = st.exctries + (flat,)
        elif n.finalbody:
            st.exctries = st.exctries + (frozenset(["%finally"]),)
        st.trydepth += 1
        res = self.block(n.body, st, fr)
        after = []
        for s, c in res:
            s.trydepth -= 1
            s.exctries = saved
            if c == ("raise", CUT):
                after.append((s, ("cut",)))
            elif c[0] == "raise":
                after.extend(self._dispatch(n, hsets, s, c[1], fr, bool(n.finalbody)))
            elif c[0] == "next" and n.orelse:
                after.extend(self._protected(n.orelse, s, fr, n.finalbody))
            else:
                after.append((s, c))
        if not n.finalbody:
            return after
        out = []
        for s, c in after:
            if c[0] == "cut":
                out.append((s, c))
                continue
            self.emit(s, "finally", n, fr)
            for s2, c2 in self.block(n.finalbody, s, fr):
                out.append((s2, c if c2[0] == "next" else c2))
        self._check(out)
        return out

    def _protected(self, body, st, fr, finalbody):
        """Run a handler / else body; exceptions matter when there is a finally."""
        if not finalbody:
            return self.block(body, st, fr)
        saved = st.exctries
        st.exctries = saved + (frozenset(["%finally"]),)
        st.trydepth += 1
        res = self.block(body, st, fr)
        for s, _ in res:
            s.trydepth -= 1
            s.exctries = saved
        return res

    def _dispatch(self, n, hsets, st, exc, fr, has_fin):
        out = []
        cur = st
        for h, hs in zip(n.handlers, hsets):
            verdicts = []
            if hs is None:
                verdict = True
            else:
                verdict = False
                for c in hs:
                    if exc[1] is None:
                        if c in ("Exception", "BaseException"):
                            v = True
                        else:
                            v = cur.facts.get(("excisa", exc, c))
                    else:
                        v = self.exc_isa(exc[1], c)
                    if v is True:
                        verdict = True
                        break
                    if v is None:
                        verdict = None
            if verdict is False:
                continue
            s = cur if verdict is True else cur.copy()
            if verdict is None:
                unk = [c for c in hs if exc[1] is None and
                       cur.facts.get(("excisa", exc, c)) is None]
                s.facts[("excisa", exc, tuple(unk) if len(unk) > 1 else unk[0])] = True
                if len(unk) == 1:
                    s.facts[("excisa", exc, unk[0])] = True
                for c in unk:
                    cur.facts[("excisa", exc, c)] = False
            self.emit(s, "handler", h, fr, val=exc, extra=hs)
            if h.name:
                s.envs[fr.fid][h.name] = exc
            s.curexc = s.curexc + (exc,)
            for s2, c2 in self._protected(h.body, s, fr, has_fin):
                s2.curexc = s2.curexc[:-1]
                out.append((s2, c2))
            if verdict is True:
                return out
        out.append((cur, ("raise", exc)))
        return out

    # loops
    def s_For(self, n, st, fr):
        out = []
        for s, coll in self.ev(n.iter, st, fr):
            if isinstance(coll, Raised):
                out.append((s, ("raise", coll.exc)))
                continue
            out.extend(self._for(n, coll, s, fr))
        self._check(out)
        return out

    s_AsyncFor = s_For

    def _for(self, n, coll, st, fr):
        lit = None
        base = self.snap(strip_iter(coll), st)
        if base[0] in ("list", "set") and self.contents(strip_iter(coll), st) is None:
            base = ("unknown", "list", 0)
        if base[0] in ("tuple", "list") and \
                not any(x[0] == "star" for x in base[1]) and len(base[1]) <= 8:
            lit = list(base[1])
        if self.unroll:
            known = self.items_of(coll, st)
            lit = list(known) if known is not None else lit
        d = coll[1][1] if coll[0] == "call" and coll[1][0] == "attr" and \
            coll[1][2] in ("items", "keys", "values") else strip_iter(coll)
        if d[0] == "call" and d[1][0] == "attr" and d[1][2] in ("items", "values"):
            d = d[1][1]
        if d[0] == "dict" and self.dict_now(d, st) == ():
            lit = []
        out = []
        cur = [st]
        k = 0
        limit = len(lit) if lit is not None else self.loop_max
        size = self.guide.size(st, coll) if self.exact and lit is None else None
        catom = ("truth", strip_iter(coll))
        while True:
            nxt = []
            for s in cur:
                kn = None
                if k == 0 and lit is None and self.guide is None:
                    kn = self.known(catom, s)
                if (lit is None and not kn and size in (None, k)) or k >= limit:
                    # exhaust
                    e = s.copy() if k < limit and size is None else s
                    if k == 0 and lit is None and self.guide is None:
                        e.facts[catom] = False
                    self.emit(e, "enditer", n, fr, val=coll, extra=k)
                    out.extend(self.block(n.orelse, e, fr) if n.orelse
                               else [(e, ("next",))])
                if k < limit and kn is not False and size != k:
                    if k == 0 and lit is None and self.guide is None:
                        s.facts[catom] = True
                    self.emit(s, "iter", n, fr, val=coll, extra=k)
                    el = lit[k] if lit is not None else elem_term(coll, k)
                    for s2, c in self.assign(n.target, el, s, fr):
                        for s3, c3 in self.block(n.body, s2, fr):
                            if c3[0] in ("next", "continue"):
                                nxt.append(s3)
                            elif c3[0] == "break":
                                self.emit(s3, "breakiter", n, fr, val=coll)
                                out.append((s3, ("next",)))
                            else:
                                out.append((s3, c3))
            if k >= limit:
                break
            cur = nxt
            k += 1
            self._check(out)
            if not cur:
                break
        return out

    def s_While(self, n, st, fr):
        out = []
        cur = [st]
        for k in range(self.while_max + 1):
            nxt = []
            for s in cur:
                self.emit(s, "while", n, fr, extra=k)
                for s2, v in self.cond(n.test, s, fr):
                    if isinstance(v, Raised):
                        out.append((s2, ("raise", v.exc)))
                    elif not v:
                        self.emit(s2, "endwhile", n, fr, extra=k)
                        out.extend(self.block(n.orelse, s2, fr) if n.orelse
                                   else [(s2, ("next",))])
                    elif k >= self.while_max:
                        out.append((s2, ("cut",)))
                    else:
                        for s3, c3 in self.block(n.body, s2, fr):
                            if c3[0] in ("next", "continue"):
                                nxt.append(s3)
                            elif c3[0] == "break":
                                self.emit(s3, "endwhile", n, fr, extra="break")
                                out.append((s3, ("next",)))
                            else:
                                out.append((s3, c3))
            cur = nxt
            self._check(out)
            self._check(cur)
            if not cur:
                break
        return out

    # -- conditions -----------------------------------------------------
    def cond(self, e, st, fr):
        """-> list of (state, bool | Raised)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out = []
            cur = [st]
            for i, x in enumerate(e.values):
                nxt = []
                for s in cur:
                    for s2, v in self.cond(x, s, fr):
                        if isinstance(v, Raised):
                            out.append((s2, v))
                        elif v != isand:
                            out.append((s2, v))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((s, isand) for s in cur)
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, v if isinstance(v, Raised) else not v)
                    for s, v in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.IfExp):
            out = []
            for s, v in self.cond(e.test, st, fr):
                if isinstance(v, Raised):
                    out.append((s, v))
                else:
                    out.extend(self.cond(e.body if v else e.orelse, s, fr))
            return out
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # chained: a < b < c
            out = []
            parts = [e.left] + list(e.comparators)
            for s, vs in self.evs(parts, st, fr):
                if isinstance(vs, Raised):
                    out.append((s, vs))
                    continue
                cur = [s]
                for op, a, b in zip(e.ops, vs, vs[1:]):
                    nxt = []
                    for s2 in cur:
                        at, pol = atom_of_cmp(op, a, b)
                        for s3, v in self.test(at, pol, s2, fr, e):
                            if v:
                                nxt.append(s3)
                            else:
                                out.append((s3, False))
                    cur = nxt
                out.extend((s2, True) for s2 in cur)
            return out
        out = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.truth(v, s, fr, e))
        return out

    def truth(self, v, st, fr, node=None):
        k = v[0]
        if k == "cmp":
            return self.test(v[1], v[2], st, fr, node)
        if k == "not":
            return [(s, not b) for s, b in self.truth(v[1], st, fr, node)]
        if k == "const":
            return [(st, bool(v[2]))]
        if k == "ext" and v[1] in ("future.utils.PY2", "future.utils.PY3"):
            return [(st, v[1].endswith("3"))]        # the code is judged as Python 3 runs it
        if k in ("closure", "bound", "func", "class", "partial", "module", "localclass"):
            return [(st, True)]
        if k == "tuple":
            if not any(x[0] == "star" for x in v[1]):
                return [(st, bool(v[1]))]
        if self.exact and k in ("list", "dict", "set", "new"):
            b = self.guide.decide(st, ("truth", v))
            if b is not None:
                return [(st, b)]
        if self.unroll and self.items_of(v, st) is not None:
            return [(st, bool(self.items_of(v, st)))]
        if k == "dict" and self.dict_now(v, st) is not None:
            return [(st, bool(self.dict_now(v, st)))]
        if k in ("list", "set", "dict") and v not in st.touched:
            if not any(x[0] == "star" for x in v[1] if isinstance(x[0], str)):
                return [(st, bool(v[1]))]
        if k == "new":
            c = self.p.classes.get(v[1])
            if c is not None:
                m = self.p.mro(c)
                if all(isinstance(x, ClassInfo) or x in ("object", "Exception")
                       for x in m) and not self.p.lookup(c, "__len__") and \
                        not self.p.lookup(c, "__bool__"):
                    return [(st, True)]
        if k == "call" and v[1] == ("ext", "bool") and len(v[2]) == 1:
            return self.truth(v[2][0], st, fr, node)
        if k == "call" and v[1] == ("ext", "len") and len(v[2]) == 1:
            return self.truth(v[2][0], st, fr, node)
        if k == "call" and v[1] == ("ext", "isinstance") and len(v[2]) == 2:
            return self.test(("isinstance",) + v[2], True, st, fr, node)
        if k == "exc":
            return [(st, True)]
        return self.test(("truth", v), True, st, fr, node)

    def known(self, atom, st):
        f = st.facts
        if atom in f:
            return f[atom]
        k = atom[0]
        if k == "is":
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if is_const(b):
                if is_const(a):
                    if b[2] is None or a[2] is None or isinstance(b[2], bool):
                        return a == b
                if a[0] in ("new", "closure", "bound", "func", "class", "partial",
                            "tuple", "list", "dict", "set", "exc", "comp", "bin",
                            "fmt", "cmp") and b == NONE:
                    return False
                if b == NONE and a[0] == "call" and a[1][0] == "ext" and \
                        a[1][1] in _PURE:
                    return False
                if b == NONE and a[0] == "call" and a[1][0] == "attr" and \
                        a[1][2] in _NOTNONE_METHODS:
                    return False
                if b == NONE:
                    t = f.get(("truth", a))
                    if t:
                        return False
                    for x, v in f.items():
                        if v and x[0] == "isinstance" and x[1] == a:
                            return False
                        if v and x[0] == "eq" and a in x[1:] and \
                                any(is_const(y) and y != NONE for y in x[1:]):
                            return False
        elif k == "truth":
            a = atom[1]
            if f.get(("is", a, NONE)):
                return False
            for x, v in f.items():
                if v and x[0] == "eq" and (x[1] == a or x[2] == a):
                    o = x[2] if x[1] == a else x[1]
                    if is_const(o):
                        return bool(o[2])
        elif k == "eq":
            a, b = atom[1], atom[2]
            if a == b:
                return True
            if is_const(a) and is_const(b):
                try:
                    return a[2] == b[2]
                except Exception:
                    return None
            if is_const(b):
                for x, v in f.items():
                    if x[0] == "eq" and v and x[1] == a and is_const(x[2]):
                        return x[2][2] == b[2]
                if f.get(("is", a, NONE)) and b != NONE:
                    return False
                if f.get(("truth", a)) is False and bool(b[2]):
                    return False
        elif k == "lt":
            a, b = atom[1], atom[2]
            if a == b:
                return False
            if is_const(a) and is_const(b):
                try:
                    return a[2] < b[2]
                except TypeError:
                    return None
            # transitivity with constants: facts  c1 < x
            if f.get(("lt", b, a)):
                return False
            if _islen(b) and is_const(a):
                # k < len(x)
                for x, v in f.items():
                    if x[0] == "lt" and x[2] == b and is_const(x[1]):
                        if v and x[1][2] >= a[2]:
                            return True
                        if not v and x[1][2] <= a[2]:
                            return False
                tv = f.get(("truth", b[2][0]))
                if tv is False and a[2] >= 0:
                    return False
                for x, v in f.items():
                    if x[0] == "eq" and v and b in x[1:]:
                        o = x[2] if x[1] == b else x[1]
                        if is_const(o):
                            return a[2] < o[2]
        elif k == "in":
            a, b = atom[1], atom[2]
            if is_const(a) and b[0] in ("tuple", "list", "set") and \
                    all(is_const(x) for x in b[1]):
                return any(x[2] == a[2] for x in b[1])
            if is_const(a) and b[0] == "dict" and b not in st.touched and \
                    all(is_const(x) for x, _ in b[1]):
                return any(x[2] == a[2] for x, _ in b[1])
        elif k == "isinstance":
            a, b = atom[1], atom[2]
            if f.get(("is", a, NONE)) or a == NONE:
                return False
            ty = self.typeof(a)
            if ty and b[0] == "class" and b[1] in self.p.classes:
                if self.p.is_subclass(self.p.classes[ty], self.p.classes[b[1]]):
                    return True
            if a[0] == "exc" and b[0] in ("class", "ext"):
                v = f.get(("excisa", a, b[1]))
                if v is None and a[1] is not None:
                    v = self.exc_isa(a[1], b[1])
                return v
            if a[0] in ("tuple", "list", "dict", "set") and b[0] == "ext" and \
                    b[1] in ("tuple", "list", "dict", "set"):
                return a[0] == b[1]
        return None

    def test(self, atom, pol, st, fr, node=None):
        if atom[0] == "in" and atom[2][0] in ("tuple", "list", "set") and \
                len(atom[2][1]) <= 6 and not any(
                    x[0] == "star" for x in atom[2][1]):
            # x in (a, b)  ->  x == a or x == b
            out = []
            cur = [st]
            for y in atom[2][1]:
                a2, p2 = atom_of_cmp(ast.Eq(), atom[1], y)
                nxt = []
                for s in cur:
                    for s2, v in self.test(a2, p2, s, fr, node):
                        if v:
                            out.append((s2, pol))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((s, not pol) for s in cur)
            return out
        if atom[0] == "isinstance" and atom[2][0] == "tuple":
            out = []
            cur = [st]
            for y in atom[2][1]:
                nxt = []
                for s in cur:
                    for s2, v in self.test(("isinstance", atom[1], y), True, s, fr, node):
                        if v:
                            out.append((s2, pol))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((s, not pol) for s in cur)
            return out
        if self.exact:
            v = self.guide.decide(st, atom)
            if v is not None:
                return [(st, v == pol)]
        if atom[0] in ("is", "eq") and is_const(atom[2]) and \
                isinstance(atom[2][2], bool) and atom[1][0] in ("cmp", "not"):
            return [(s, v == (atom[2][2] == pol)) for s, v in
                    self.truth(atom[1], st, fr, node)]
        v = self.known(atom, st)
        if v is not None:
            return [(st, v == pol)]
        out = []
        for val in (True, False):
            s = st.copy() if val else st
            s.facts[atom] = val
            self.emit(s, "cond", node, fr, extra=atom, val=val)
            out.append((s, val == pol))
        return out

    # -- expressions ----------------------------------------------------
    def evs(self, exprs, st, fr):
        """Evaluate in order -> list of (state, [values] | Raised)"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, v if isinstance(v, Raised) else vs + [v]))
            cur = nxt
        return cur

    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, ("unknown", type(e).__name__, st.new(e)))]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [(st, const(e.value))]

    def e_Name(self, e, st, fr):
        return [(st, self.lookup_name(e.id, st, fr))]

    def lookup_name(self, name, st, fr):
        f = fr
        while f is not None:
            env = st.envs.get(f.fid)
            if env is not None and name in env:
                return env[name]
            f = self.frames[f.parent] if f.parent is not None else None
        return self.global_term(fr.fn.module, name)

    def global_term(self, module, name):
        r = self.p.resolve(module, name)
        return self.res_term(r, name)

    def res_term(self, r, name):
        if r is None:
            return ("ext", name)
        if r[0] == "class":
            return ("class", r[1].qual)
        if r[0] == "func":
            return ("func", r[1].qual)
        if r[0] == "module":
            return ("module", r[1].name)
        if r[0] == "const":
            v = r[1].assigns[r[2]]
            if isinstance(v, ast.Constant):
                return const(v.value)
            if isinstance(v, ast.Call) and v.args and \
                    dotted(v.func) in ("partial", "functools.partial") and \
                    isinstance(v.args[0], ast.Name) and all(
                        isinstance(x, ast.Constant) for x in v.args[1:]) and all(
                        k.arg and isinstance(k.value, ast.Constant) for k in v.keywords):
                f = self.global_term(r[1], v.args[0].id)
                if f[0] in ("func", "class"):
                    return ("partial", f, tuple(const(x.value) for x in v.args[1:]),
                            tuple((k.arg, const(k.value.value)) for k in v.keywords))
            return ("gconst", r[1].name, r[2])
        if r[0] == "cattr":
            v = r[1].attrs[r[2]]
            if isinstance(v, ast.Constant):
                return const(v.value)
            if isinstance(v, ast.Subscript) or isinstance(v, ast.Tuple):
                try:
                    return const(self.fold_cattr(r[1], r[2]))
                except Exception:
                    pass
            return ("cattr", r[1].qual, r[2])
        if r[0] == "ext":
            if r[1] in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[r[1]])
            return ("ext", r[1])
        return ("ext", name)

    def fold_cattr(self, c, name):
        from .consteval import ConstEval
        v = ConstEval(self.p).class_attr(c, name)
        if not isinstance(v, (int, str, bytes, float)) or isinstance(v, bool):
            raise AnalysisError("not scalar")
        return v

    def typeof(self, t):
        k = t[0]
        if k == "param":
            if self.selfcls and (t[1] == "self" or t == self.entry_self):
                return self.selfcls
            return self.param_types.get(t[1])
        if k == "outer":
            return self.param_types.get(t[1])
        if k == "new":
            return t[1] if t[1] in self.p.classes else None
        if k == "super":
            return t[3]
        if k in ("elem",):
            return self.types.get(("elem", t[1][-1] if isinstance(t[1][-1], str)
                                   else None))
        if k == "item":
            b = t[1]
            if b[0] == "attr":
                return self.types.get(("item", b[2]))
            return None
        if k == "attr":
            bt = self.typeof(t[1])
            if bt:
                for c in self.p.mro(self.p.classes[bt]):
                    if not isinstance(c, ClassInfo):
                        continue
                    o = self.types.get((c.qual, t[2]))
                    if o:
                        return o
                    s = self.p.attr_types().get((c.qual, t[2]))
                    if s and len(s) == 1:
                        return list(s)[0]
            return self.types.get(("*", t[2]))
        if k in ("call",):
            q = None
            if t[1][0] in ("func", "bound"):
                q = t[1][1]
            if q:
                return self.rettypes.get(q) or RETTYPES.get(q)
        if k == "cast":
            return t[2]
        return None

    def e_Attribute(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            if isinstance(b, Raised):
                out.append((s, b))
            else:
                out.extend(self.getattr_(b, e.attr, s, fr, e))
        return out

    def _still(self, b, st, fr, node):
        """A term for what b is now."""
        if b in (("param", "self"), NONE) or b[0] in ("was", "new"):
            return b
        w = ("was", b, st.new(node))
        self.emit(st, "freeze", node, fr, val=b, res=w)
        return w

    def getattr_(self, b, attr, st, fr, node):
        k = b[0]
        known = self.guide.obj(st, b) if self.exact else None
        if known is not None and attr in known.__dict__:
            v = known.__dict__[attr]
            if v is None or type(v) in (int, str, bytes, bool, float):
                return [(st, const(v))]
            t = self.guide.term(v)
            if t is None and self.guide.has(v):
                t = self._still(("attr", b, attr), st, fr, node)
            if t is not None:
                return [(st, t)]
        elif known is not None:
            ty = known.__dict__.get("%cls")
            f = self.p.lookup(self.p.classes[ty], attr) if ty in self.p.classes else None
            if attr == "__class__" and ty in self.p.classes:
                return [(st, ("class", ty))]
            if f is not None:
                if f.is_static:
                    return [(st, ("func", f.qual))]
                if f.is_classmethod:
                    return [(st, ("bound", f.qual, ("class", ty), ty))]
                b = self._still(b, st, fr, node)
                if not f.is_property:
                    return [(st, ("bound", f.qual, b, ty))]
                if self.should_inline(f, fr):
                    return self.call_func(f, [b], {}, st, fr, node, selfterm=b)
                return [(st, ("attr", b, attr))]
            if known.__dict__.get("%whole") and attr != "__dict__" and \
                    self.p.class_attr(self.p.classes[ty], attr) is None and all(
                        isinstance(c, ClassInfo) or c in ("object", "abc.ABC")
                        for c in self.p.mro(self.p.classes[ty])) and \
                    not self.p.lookup(self.p.classes[ty], "__getattr__") and \
                    attr not in dir(object):
                exc = ("exc", "AttributeError", (), st.new(node))
                self.emit(st, "exc", node, fr, val=exc, extra=("noattr", b, attr))
                return [(st, Raised(exc))]
        if self.exact and b == NONE and not hasattr(None, attr):
            exc = ("exc", "AttributeError", (), st.new(node))
            self.emit(st, "exc", node, fr, val=exc, extra=("noattr", b, attr))
            return [(st, Raised(exc))]
        if attr in self.loads:
            self.emit(st, "load", node, fr, base=b, attr=attr)
        if k == "module":
            r = self.p._resolve1(self.p.modules[b[1]], attr, export=True)
            return [(st, self.res_term(r, b[1] + "." + attr))]
        if k == "ext":
            return [(st, ("ext", b[1] + "." + attr))]
        if k == "super":
            f = self.p.lookup_after(self.p.classes[b[3]], self.p.classes[b[1]], attr) \
                if b[3] in self.p.classes else None
            if f is not None:
                return [(st, ("bound", f.qual, b[2], b[3]))]
            return [(st, ("attr", b, attr))]
        if k == "class" and b[1] in self.p.classes:
            c = self.p.classes[b[1]]
            f = self.p.lookup(c, attr)
            if f is not None:
                if f.is_classmethod:
                    return [(st, ("bound", f.qual, b, b[1]))]
                return [(st, ("func", f.qual))]
            ca = self.p.class_attr(c, attr)
            if ca is not None:
                return [(st, self.res_term(("cattr", ca[0], attr), attr))]
            return [(st, ("attr", b, attr))]
        if (b, attr) in st.heap:
            return [(st, st.heap[(b, attr)])]
        if self.unroll and k == "closure":
            w = self._closure_attr(b, attr, st)
            if w is not None:
                return [(st, w)]
            if attr != "__dict__":
                exc = ("exc", "AttributeError", (), st.new(node))
                self.emit(st, "exc", node, fr, val=exc, extra=("attr", b, attr))
                return [(st, Raised(exc))]
        if attr == "__class__":
            ty = self.typeof(b)
            if ty:
                return [(st, ("class", ty))]
        if self.attr_value is not None:
            v = self.attr_value(b, attr)
            if v is not None:
                return [(st, v)]
        ty = self.typeof(b)
        if ty and ty in self.p.classes:
            c = self.p.classes[ty]
            f = self.p.lookup(c, attr)
            if f is not None:
                if f.is_property:
                    if self.should_inline(f, fr):
                        return self.call_func(f, [b], {}, st, fr, node, selfterm=b)
                    return [(st, ("attr", b, attr))]
                if f.is_static:
                    return [(st, ("func", f.qual))]
                if f.is_classmethod:
                    return [(st, ("bound", f.qual, ("class", ty), ty))]
                return [(st, ("bound", f.qual, b, ty))]
            ca = self.p.class_attr(c, attr)
            if ca is not None:
                d = dotted(ca[1].args[0]) if (
                    isinstance(ca[1], ast.Call) and dotted(ca[1].func) == "property"
                    and ca[1].args) else None
                if d and d in ca[0].methods:
                    f = ca[0].methods[d]
                    if self.should_inline(f, fr):
                        return self.call_func(f, [b], {}, st, fr, node, selfterm=b)
                if attr.upper() == attr and attr.strip("_"):
                    t = self.res_term(("cattr", ca[0], attr), attr)
                    if t[0] in ("const", "cattr"):
                        return [(st, t)]
        out = []
        if st.exctries and not self.no_fork_raise and any(
                h is not None and "AttributeError" in h for h in st.exctries) and \
                k in ("attr", "param", "call", "yield", "item", "elem", "outer") and \
                b != ("param", "self"):
            s = st.copy()
            exc = ("exc", "AttributeError", (), s.new(node))
            self.emit(s, "exc", node, fr, val=exc, extra=("attr", b, attr))
            out.append((s, Raised(exc)))
        out.append((st, ("attr", b, attr)))
        return out

    def e_Subscript(self, e, st, fr):
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            parts = [e.value] + [x if x is not None else ast.Constant(value=None)
                                 for x in (sl.lower, sl.upper, sl.step)]
            out = []
            for s, vs in self.evs(parts, st, fr):
                if isinstance(vs, Raised):
                    out.append((s, vs))
                    continue
                b, lo, hi, stp = vs
                if self.unroll and stp == NONE and all(is_const(x) for x in (lo, hi)):
                    known = self.items_of(b, s)
                    if known is not None:
                        known = known[slice(lo[2], hi[2])]
                        out.append((s, ("tuple", known) if b[0] != "list" else
                                    ("list", known, s.new(e))))
                        continue
                if b[0] in ("tuple", "list") and stp == NONE and \
                        all(is_const(x) for x in (lo, hi)) and \
                        not any(x[0] == "star" for x in b[1]):
                    try:
                        out.append((s, ("tuple", b[1][slice(lo[2], hi[2])])))
                        continue
                    except TypeError:
                        pass
                out.append((s, ("slice", b, lo, hi, stp)))
            return out
        out = []
        for s, vs in self.evs([e.value, e.slice], st, fr):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            b, k = vs
            h = s.heap.get(("item", b, k))
            if h is not None:
                out.append((s, h))
                continue
            known = self.items_of(b, s) if self.unroll and is_const(k) and \
                isinstance(k[2], int) else None
            if known is not None:
                if -len(known) <= k[2] < len(known):
                    out.append((s, known[k[2]]))
                else:
                    exc = ("exc", "IndexError", (), s.new(e))
                    self.emit(s, "exc", e, fr, val=exc, extra=("subscript", b, k))
                    out.append((s, Raised(exc)))
                continue
            forked = self._maybe_key_raise(s, e, fr, b, k)
            for s2, c in forked:
                out.append((s2, Raised(c[1])))
            if forked:
                self.emit(s, "lookup", e, fr, base=b, extra=("subscript", b, k))
            elif self.guide is not None and b[0] not in ("dict", "tuple"):
                self.emit(s, "lookup", e, fr, base=b, extra=("subscript", b, k))
            if b[0] == "dict" and is_const(k) and b not in s.touched:
                for kk, vv in b[1]:
                    if kk == k:
                        out.append((s, vv))
                        break
                else:
                    out.append((s, ("item", b, k)))
                continue
            t = item_term(b, k)
            if self.exact and t[0] == "item" and not forked:
                t = self.guide.now(s, t)
                if t is None:
                    t = self._still(("item", b, k), s, fr, e)
            out.append((s, t))
        return out

    def e_Tuple(self, e, st, fr):
        return self._seq("tuple", e, st, fr)

    def e_List(self, e, st, fr):
        return self._seq("list", e, st, fr)

    def e_Set(self, e, st, fr):
        return self._seq("set", e, st, fr)

    def _seq(self, kind, e, st, fr):
        out = []
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for s, vs in self.evs(exprs, st, fr):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            items = []
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    known = self.items_of(v, s) if self.unroll else None
                    if known is not None:
                        items.extend(known)
                    elif v[0] in ("tuple", "list") and v not in s.touched:
                        items.extend(v[1])
                    else:
                        items.append(("star", v))
                else:
                    items.append(v)
            t = (kind, tuple(items))
            if kind != "tuple":
                t = t + (s.new(e),)
            out.append((s, t))
        return out

    def e_Dict(self, e, st, fr):
        ks = [k for k in e.keys if k is not None]
        if len(ks) != len(e.keys):
            return [(st, ("unknown", "dict", st.new(e)))]
        out = []
        for s, vs in self.evs(list(e.keys) + list(e.values), st, fr):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            n = len(ks)
            out.append((s, ("dict", tuple(zip(vs[:n], vs[n:])), s.new(e))))
        return out

    def e_JoinedStr(self, e, st, fr):
        parts = [x.value for x in e.values if isinstance(x, ast.FormattedValue)]
        return [(s, vs if isinstance(vs, Raised) else ("fmt", tuple(vs)))
                for s, vs in self.evs(parts, st, fr)]

    def binop(self, op, a, b):
        if is_const(a) and is_const(b):
            try:
                if op == "Add":
                    return const(a[2] + b[2])
                if op == "Sub":
                    return const(a[2] - b[2])
                if op == "Mult" and not isinstance(a[2], (str, bytes)):
                    return const(a[2] * b[2])
                if op == "Div":
                    return const(a[2] / b[2])
                if op == "Pow" and abs(b[2]) < 64:
                    return const(a[2] ** b[2])
                if op == "BitOr":
                    return const(a[2] | b[2])
            except Exception:
                pass
        if op == "Add" and a[0] == b[0] == "tuple":
            return ("tuple", a[1] + b[1])
        return ("bin", op, a, b)

    def e_BinOp(self, e, st, fr):
        out = []
        for s, vs in self.evs([e.left, e.right], st, fr):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            a, b = vs
            op = type(e.op).__name__
            if self.unroll:
                x, y = self.items_of(a, s), self.items_of(b, s)
                r = None
                if op == "Add" and x is not None and y is not None and a[0] == b[0]:
                    r = x + y
                elif op == "Mult" and (x is None) != (y is None):
                    n = b if y is None else a
                    if is_const(n) and n[1] == "int" and n[2] <= 16:
                        r = (y if x is None else x) * n[2]
                if r is not None:
                    out.append((s, ("tuple", r) if "tuple" in (a[0], b[0]) else
                                ("list", r, s.new(e))))
                    continue
            r = self.binop(op, a, b)
            if self.exact and r[0] == "bin":
                cls = self.guide.missing(s, r)
                if cls is not None:
                    exc = ("exc", cls, (), s.new(e))
                    self.emit(s, "exc", e, fr, val=exc, extra=("operation", op))
                    out.append((s, Raised(exc)))
                    continue
            if self.guide is not None and r[0] == "bin":
                self.emit(s, "binop", e, fr).res = r
            out.append((s, r))
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(v, Raised):
                out.append((s, v))
            elif isinstance(e.op, ast.Not):
                if v[0] == "const":
                    out.append((s, const(not v[2])))
                elif v[0] == "cmp":
                    out.append((s, ("cmp", v[1], not v[2])))
                elif v[0] == "not":
                    out.append((s, ("call", ("ext", "bool"), (v[1],), (), None)))
                else:
                    out.append((s, ("not", v)))
            elif isinstance(e.op, ast.USub) and is_const(v) and \
                    isinstance(v[2], (int, float)):
                out.append((s, const(-v[2])))
            else:
                out.append((s, ("un", type(e.op).__name__, v)))
        return out

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        out = []
        cur = [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s in cur:
                for s2, v in self.ev(x, s, fr):
                    if isinstance(v, Raised) or last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2, fr, x):
                        if b != isand:
                            out.append((s3, const(b) if v[0] in ("cmp", "not") else v))
                        else:
                            nxt.append(s3)
            cur = nxt
        return out

    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            return [(s, v if isinstance(v, Raised) else const(v))
                    for s, v in self.cond(e, st, fr)]
        out = []
        for s, vs in self.evs([e.left, e.comparators[0]], st, fr):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            if self.guide is not None and isinstance(e.ops[0], (ast.In, ast.NotIn)):
                ty = self.typeof(vs[1])
                m = self.p.lookup(self.p.classes[ty], "__contains__") if ty in self.p.classes \
                    else None
                if m is not None:
                    for s2, v in self.apply(("bound", m.qual, vs[1], ty), [vs[0]], {}, s, fr, e):
                        if isinstance(v, Raised):
                            out.append((s2, v))
                        elif isinstance(e.ops[0], ast.NotIn):
                            out.append((s2, ("not", v)))
                        else:
                            out.append((s2, v))
                    continue
            a, pol = atom_of_cmp(e.ops[0], vs[0], vs[1])
            kn = self.guide.decide(s, a) if self.exact else None
            if kn is None:
                kn = self.known(a, s)
            out.append((s, const(kn == pol) if kn is not None else ("cmp", a, pol)))
        return out

    def e_IfExp(self, e, st, fr):
        out = []
        for s, v in self.cond(e.test, st, fr):
            if isinstance(v, Raised):
                out.append((s, v))
            else:
                out.extend(self.ev(e.body if v else e.orelse, s, fr))
        return out

    def e_Lambda(self, e, st, fr):
        return [(st, self._closure(e, fr.fn, fr))]

    def e_Starred(self, e, st, fr):
        return [(s, v if isinstance(v, Raised) else ("star", v))
                for s, v in self.ev(e.value, st, fr)]

    def e_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            if not isinstance(v, Raised):
                self.assign(e.target, v, s, fr)
            out.append((s, v))
        return out

    def _unrolled(self, kind, e, elts, st, fr):
        """A comprehension over sequences whose elements are all known (or None)."""
        saved = dict(st.envs[fr.fid])
        cur = [(st, ())]

        def gens(k, s, acc):
            """-> [(state, items so far)] or None"""
            if k == len(e.generators):
                out = []
                for s2, vs in self.evs(elts, s, fr):
                    out.append((s2, vs if isinstance(vs, Raised) else acc + (
                        vs[0] if len(vs) == 1 else ("tuple", tuple(vs)),)))
                return out
            g = e.generators[k]
            out = []
            for s2, coll in self.ev(g.iter, s, fr):
                if isinstance(coll, Raised):
                    out.append((s2, coll))
                    continue
                known = self.items_of(coll, s2)
                size = self.guide.size(s2, coll) if known is None and self.guide is not None \
                    else None
                if known is None and size is None:
                    return None
                guided = known is None
                if guided:
                    u = s2.new(e)
                    known = tuple(elem_term(coll, (u, i)) for i in range(size))
                    self.emit(s2, "elems", e, fr, val=coll, extra=(u, size))
                elif self.guide is None:
                    self.emit(s2, "iter", e, fr, val=coll, extra="comp")
                live = [(s2, acc)]
                for el in known:
                    nxt = []
                    for s3, a in live:
                        if isinstance(a, Raised):
                            nxt.append((s3, a))
                            continue
                        for s4, c in self.assign(g.target, el, s3, fr):
                            if c[0] != "next":
                                nxt.append((s4, Raised(c[1])))
                                continue
                            picked = [(s4, True)]
                            for cexp in g.ifs:
                                n2 = []
                                for s5, v in picked:
                                    n2.extend(self.cond(cexp, s5, fr) if v is True
                                              else [(s5, v)])
                                picked = n2
                            for s5, v in picked:
                                if isinstance(v, Raised):
                                    nxt.append((s5, v))
                                elif not v:
                                    nxt.append((s5, a))
                                else:
                                    r = gens(k + 1, s5, a)
                                    if r is None:
                                        return None
                                    nxt.extend(r)
                    live = nxt
                    self._check(live)
                    if self.guide is not None and len(live) > 1:
                        live = [(s3, a) for s3, a in live if self.guide.keep(s3)]
                if not guided and self.guide is None:
                    for s3, a in live:
                        self.emit(s3, "enditer", e, fr, val=coll, extra="comp")
                out.extend(live)
            return out

        res = gens(0, cur[0][0], ())
        if res is None:
            return None
        out = []
        for s, items in res:
            s.envs[fr.fid] = saved_env(saved, s, fr)
            if isinstance(items, Raised):
                out.append((s, items))
            elif kind == "dict":
                out.append((s, ("dict", tuple(x[1] for x in items), s.new(e))))
            else:
                out.append((s, ("set" if kind == "set" else "list", items, s.new(e))))
            if self.guide is not None and not isinstance(items, Raised):
                self.emit(s, "display", e, fr, val=out[-1][1])
        return out

    def _comp(self, kind, e, elts, st, fr):
        if self.unroll:
            r = self._unrolled(kind, e, elts, st.copy(), fr)
            if r is not None:
                return r
        saved = dict(st.envs[fr.fid])
        cur = [(st, [], [])]
        for g in e.generators:
            nxt = []
            for s, its, ifs in cur:
                for s2, coll in self.ev(g.iter, s, fr):
                    if isinstance(coll, Raised):
                        nxt.append((s2, coll, None))
                        continue
                    self.emit(s2, "iter", e, fr, val=coll, extra="comp")
                    el = elem_term(coll, 0)
                    for s3, _ in self.assign(g.target, el, s2, fr):
                        c2 = [(s3, [])]
                        for cexp in g.ifs:
                            n2 = []
                            for s4, acc in c2:
                                if isinstance(cexp, (ast.BoolOp, ast.IfExp)):
                                    n2.append((s4, acc + [self._pure_cond(cexp, s4, fr)]))
                                else:
                                    for s5, v in self.ev(cexp, s4, fr):
                                        if isinstance(v, Raised):
                                            n2.append((s5, v))
                                        else:
                                            n2.append((s5, acc + [v]))
                            c2 = n2
                        for s4, acc in c2:
                            if isinstance(acc, Raised):
                                nxt.append((s4, acc, None))
                            else:
                                nxt.append((s4, its + [coll], ifs + acc))
            cur = [c for c in nxt if not isinstance(c[1], Raised)]
            bad = [c for c in nxt if isinstance(c[1], Raised)]
            if bad:
                cur = cur + bad
                if any(isinstance(c[1], Raised) for c in cur):
                    pass
        out = []
        for s, its, ifs in cur:
            if isinstance(its, Raised):
                s.envs[fr.fid] = saved_env(saved, s, fr)
                out.append((s, its))
                continue
            for s2, vs in self.evs(elts, s, fr):
                if isinstance(vs, Raised):
                    out.append((s2, vs))
                    continue
                done = self.emit(s2, "enditer", e, fr, val=its[0], extra="comp")
                elt = vs[0] if len(vs) == 1 else ("tuple", tuple(vs))
                s2.envs[fr.fid] = saved_env(saved, s2, fr)
                done.res = ("comp", kind, elt, tuple(its), tuple(ifs))
                out.append((s2, done.res))
        return out

    def _pure_cond(self, e, st, fr):
        if isinstance(e, ast.BoolOp):
            return ("bool" + type(e.op).__name__,
                    tuple(self._pure_cond(x, st, fr) for x in e.values))
        r = self.ev(e, st.copy(), fr)
        v = r[-1][1]
        return ("unknown", "cond", 0) if isinstance(v, Raised) else v

    def e_ListComp(self, e, st, fr):
        return self._comp("list", e, [e.elt], st, fr)

    def e_GeneratorExp(self, e, st, fr):
        return self._comp("gen", e, [e.elt], st, fr)

    def e_SetComp(self, e, st, fr):
        return self._comp("set", e, [e.elt], st, fr)

    def e_DictComp(self, e, st, fr):
        return self._comp("dict", e, [e.key, e.value], st, fr)

    def e_Yield(self, e, st, fr):
        if e.value is None:
            res = [(st, NONE)]
        else:
            res = self.ev(e.value, st, fr)
        out = []
        for s, v in res:
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            if v[0] == "call" and v[1][0] == "ext" and \
                    v[1][1].endswith("maybe_future") and len(v[2]) == 1:
                inner = v[2][0]
                if inner[0] in ("fut", "futexc"):
                    v = inner
            ev = self.emit(s, "yield", e, fr, val=v)
            if self.havoc_on_yield:
                self._havoc(s)
            if v[0] == "fut":
                ev.res = v[1]
                out.append((s, v[1]))
                continue
            if v[0] == "futexc":
                out.append((s, Raised(v[1])))
                continue
            r = ("yield", v, s.new(e))
            if self.exact:
                ev.res = r
            if not (v[0] == "ext" and v[1].endswith("gen.moment")):
                out.extend(self._fork_raise(s, ev, fr, e))
            ev.res = r
            out.append((s, r))
        return out

    e_Await = e_Yield

    def _havoc(self, s):
        """Other code may run here: forget what attributes hold."""
        for k in list(s.heap):
            if k[0] != "contents":
                del s.heap[k]
        self._purge(s, lambda x: x[0] == "attr")

    def _fork_raise(self, st, ev, fr, node):
        if self.guide is not None and self.guide.exact:
            cls = self.guide.raising(st)
            if cls is None:
                return []
            s = st.copy()
            exc = ("exc", cls, (), ("from", ev.name or ev.kind, s.new(node)))
            self.emit(s, "exc", node, fr, val=exc, extra=ev)
            return [(s, Raised(exc))]
        if self.no_fork_raise:
            return []
        if not (self.raise_all or st.exctries):
            return []
        if self.noraise is not None and self.noraise(ev):
            return []
        s = st.copy()
        cls = self.exc_of(ev) if self.exc_of else None
        exc = ("exc", cls, (), ("from", ev.name or ev.kind, s.new(node)))
        self.emit(s, "exc", node, fr, val=exc, extra=ev)
        return [(s, Raised(exc))]

    # -- calls ------------------------------------------------------------
    def _hidden(self, q):
        return q in self.opaque or any(
            o.endswith("*") and q.startswith(o[:-1]) or o.startswith("*.") and q.endswith(o[1:])
            for o in self.opaque)

    def should_inline(self, fi, fr):
        q = fi.qual
        if fr.depth >= self.max_depth and not self.exact:
            return False
        if q in self.callstack and not self.exact:
            return False
        if self._hidden(q):
            return False
        if fr.depth >= 60:
            raise AnalysisError("calls nested too deep in %s" % self.entry.qual)
        if matches(q, self.inline_extra):
            return True
        if "<locals>" in q:
            return True
        if q not in self.baseline:
            return True                 # helper the baseline did not have
        if self.inline_modules is not None:
            return fi.module.name in self.inline_modules
        return fi.module is self.entry.module

    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self._super(e, st, fr)
        exprs = []
        for a in e.args:
            exprs.append(a)
        out = []
        for s, f in self.ev(e.func, st, fr):
            if isinstance(f, Raised):
                out.append((s, f))
                continue
            argexprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            kwexprs = [k.value for k in e.keywords]
            for s2, vs in self.evs(argexprs + kwexprs, s, fr):
                if isinstance(vs, Raised):
                    out.append((s2, vs))
                    continue
                args = []
                for a, v in zip(e.args, vs):
                    if isinstance(a, ast.Starred):
                        known = self.items_of(v, s2) if self.unroll else None
                        if known is not None:
                            args.extend(known)
                        elif v[0] in ("tuple", "list") and v not in s2.touched:
                            args.extend(v[1])
                        else:
                            args.append(("star", v))
                    else:
                        args.append(v)
                kw = []
                for k, v in zip(e.keywords, vs[len(e.args):]):
                    if k.arg is None:
                        if v[0] == "dict" and all(is_const(x) for x, _ in v[1]) and \
                                v not in s2.touched:
                            kw.extend((x[2], y) for x, y in v[1])
                        else:
                            kw.append(("**", v))
                    else:
                        kw.append((k.arg, v))
                out.extend(self.apply(f, args, kw, s2, fr, e))
        self._check(out)
        return out

    def _super(self, e, st, fr):
        c = fr.fn.cls
        if e.args:
            d = dotted(e.args[0])
            r = self.p.resolve(fr.fn.module, d) if d else None
            if r and r[0] == "class":
                c = r[1]
            elif d in ("self.__class__",):
                c = fr.fn.cls
        f = fr
        selfterm = fr.selfterm
        dyn = self.typeof(selfterm) if selfterm else None
        if c is None:
            return [(st, ("ext", "super"))]
        return [(st, ("super", c.qual, selfterm, dyn or c.qual))]

    def target_of(self, f):
        if f[0] == "func" and f[1] in self.p.functions:
            return self.p.functions[f[1]]
        if f[0] == "bound":
            return self.p.functions.get(f[1])
        if f[0] == "closure":
            return self.closures[f[1]][0]
        return None

    def apply(self, f, args, kw, st, fr, node):
        """Call term f."""
        if self.exact and f[0] not in ("bound", "func", "ext", "class", "closure"):
            m = self.guide.obj(st, f)
            if m is not None and self.guide.term(m) is not None:
                f = self.guide.term(m)
            elif m is not None and "qual" in m.__dict__:
                f = ("bound", m.qual, self._still(("attr", f, "obj"), st, fr, node), m.cls)
        if f[0] == "attr" and is_const(f[1]) and not kw and f[2] in _PURE_STR and \
                isinstance(f[1][2], (str, bytes)) and all(is_const(a) for a in args):
            try:
                v = getattr(f[1][2], f[2])(*[a[2] for a in args])
            except Exception:
                v = NONE
            if isinstance(v, (list, tuple)):
                return [(st, ("tuple", tuple(const(x) for x in v)))]
            if v is not NONE:
                return [(st, const(v))]
        if f[0] == "partial":
            kws = dict(f[3])
            kws.update(dict(kw))
            return self.apply(f[1], list(f[2]) + list(args), sorted(kws.items()),
                              st, fr, node)
        if f[0] == "ext" and f[1].split(".")[-1] == "partial" and args and \
                f[1] in ("functools.partial", "partial"):
            return [(st, ("partial", args[0], tuple(args[1:]), tuple(kw)))]
        if self.exact and f[0] == "ext" and f[1] in ("getattr", "setattr", "hasattr") and \
                len(args) > 1 and not is_const(args[1]):
            n = self.guide.text(st, args[1])
            if n is not None:
                args = [args[0], const(n)] + list(args[2:])
        if self.exact and f == ("ext", "setattr") and len(args) == 3 and is_const(args[1]) and \
                not kw:
            self._set_attr(st, fr, node, args[0], args[1][2], args[2])
            return [(st, NONE)]
        if self.exact and f == ("ext", "hasattr") and len(args) == 2 and is_const(args[1]):
            known = self.guide.obj(st, args[0])
            if known is not None and "%whole" in known.__dict__:
                r = self.getattr_(args[0], args[1][2], st.copy(), fr, node)
                if len(r) == 1:
                    return [(st, const(not isinstance(r[0][1], Raised)))]
        if f == ("ext", "getattr") and len(args) in (2, 3) and is_const(args[1]) \
                and isinstance(args[1][2], str):
            if len(args) == 2:
                return self.getattr_(args[0], args[1][2], st, fr, node)
            known = self.guide.obj(st, args[0]) if self.exact else None
            if known is not None and "%cls" in known.__dict__:
                r = self.getattr_(args[0], args[1][2], st.copy(), fr, node)
                if len(r) == 1 and isinstance(r[0][1], Raised):
                    return [(st, args[2])]
                return self.getattr_(args[0], args[1][2], st, fr, node)
            if self.unroll and args[0][0] == "closure":
                w = self._closure_attr(args[0], args[1][2], st)
                return [(st, args[2] if w is None else w)]
            return [(st, ("attr", args[0], args[1][2]))]
        if f == ("ext", "type") and len(args) == 1:
            ty = self.typeof(args[0])
            if ty:
                return [(st, ("class", ty))]
        if f[0] == "ext" and f[1].endswith("maybe_future") and len(args) == 1 and \
                args[0][0] in ("fut", "futexc"):
            return [(st, args[0])]
        if self.unroll and f[0] == "ext":
            r = self._sequence(f[1], args, kw, st, fr, node)
            if r is not None:
                return r
            short = f[1].split(".")[-1]
            if f[1] in ("min", "max") and len(args) > 1 and not kw and all(
                    is_const(x) and x[1] == "int" for x in args):
                return [(st, const((min if f[1] == "min" else max)(x[2] for x in args)))]
            if f[1] == "hasattr" and len(args) == 2 and args[0][0] == "closure" and \
                    is_const(args[1]):
                w = self._closure_attr(args[0], args[1][2], st)
                if w is None or w[0] != "attr":
                    return [(st, const(w is not None))]
            if short == "update_wrapper" and len(args) == 2 and args[0][0] == "closure":
                st.heap[(args[0], "__wrapped__")] = args[1]
                return [(st, args[0])]
            if short in ("getfullargspec", "getargspec") and len(args) == 1 and \
                    args[0][0] == "closure":
                a = self.closure_info(args[0]).node.args
                spec = ("tuple", (
                    ("list", tuple(const(x.arg) for x in a.posonlyargs + a.args),
                     st.new(node)),
                    const(a.vararg.arg) if a.vararg else NONE,
                    const(a.kwarg.arg) if a.kwarg else NONE))
                for n, x in zip(("args", "varargs", "varkw"), spec[1]):
                    st.heap[(spec, n)] = x
                return [(st, spec)]
            if short == "is_future" and len(args) == 1:
                if args[0][0] in ("fut", "futexc"):
                    return [(st, const(True))]
                if args[0][0] in ("tuple", "list", "dict", "set", "const", "comp", "bin"):
                    return [(st, const(False))]
        target = self.target_of(f)
        name = None
        recv = None
        if f[0] == "attr":
            name, recv = f[2], f[1]
        elif f[0] == "bound":
            name, recv = f[1].split(".")[-1], f[2]
        elif f[0] in ("func", "class", "ext"):
            name = f[1].split(".")[-1]
        elif f[0] == "closure":
            name = f[2]
        elif f[0] == "param":
            name = f[1]
        elif f[0] == "localclass":
            name = f[1]
        # models first
        ev = Event("call", node, fr.fn, f=f, name=name, recv=recv,
                   args=tuple(args), kwargs=tuple(kw),
                   target=target.qual if target else
                   (f[1] if f[0] in ("class", "ext") else None))
        ev.depth = fr.depth
        ev.stack = st.stack
        if target is not None:
            ev.bound = self.bind(target, args, kw, recv, f)
        for key in (ev.target, "." + name if name else None):
            if key is not None and key in self.models:
                r = self.models[key](self, st, fr, ev)
                if r is not None:
                    return r
        if name in self.deferred and not (target is not None and
                                          self.should_inline(target, fr)):
            return self._deferred_call(ev, st, fr, node)
        # constructor
        if f[0] == "class":
            ci = self.p.classes.get(f[1])
            init = self.p.lookup(ci, "__init__") if ci else None
            if init is not None:
                ev.bound = self.bind(init, [None] + list(args), kw, None, f)
            t = ("new", f[1], tuple(args), tuple(kw), st.new(node))
            ev.res = t
            if ".<locals>." in f[1]:
                ev.scope, x = {}, fr
                while x is not None:
                    for n, v in st.envs[x.fid].items():
                        ev.scope.setdefault(n, v)
                    x = self.frames[x.parent] if x.parent is not None else None
            st.events.append(ev)
            out = []
            if init is not None and (matches(init.qual, self.inline_extra) if self.exact
                                     else init.qual in self.inline_extra) and \
                    not self._hidden(f[1]):
                for s2, r in self.call_func(init, [t] + list(args), dict(kw), st, fr,
                                            node, selfterm=t):
                    out.append((s2, r if isinstance(r, Raised) else t))
                return out
            if self.exact or not self._quiet(ev):
                out.extend(self._fork_raise(st, ev, fr, node))
            out.append((st, t))
            return out
        if target is not None and self.should_inline(target, fr):
            a = list(args)
            selfterm = None
            if f[0] == "bound":
                a = [f[2]] + a
                selfterm = f[2]
            elif target.takes_self and not \
                    target.is_static and a:
                selfterm = a[0]
            return self.call_func(target, a, kw, st, fr, node, selfterm=selfterm,
                                  closure=f if f[0] == "closure" else None)
        # reading a dict whose entries are known
        if recv is not None and recv[0] == "dict" and name in ("get", "pop") and \
                f[0] == "attr" and not kw and 1 <= len(args) <= 2 and is_const(args[0]):
            now = self.dict_now(recv, st)
            if now is not None:
                hit = [v for k, v in now if k[2] == args[0][2] and
                       isinstance(k[2], bool) == isinstance(args[0][2], bool)]
                if hit or len(args) == 2 or name == "get":
                    ev.res = hit[-1] if hit else args[1] if len(args) == 2 else NONE
                    ev.extra = "pure"
                    st.events.append(ev)
                    if hit and name == "pop":
                        st.touched = st.touched | {recv}
                        st.heap[("popped", recv)] = tuple(
                            (k, v) for k, v in now if k[2] != args[0][2])
                    return [(st, ev.res)]
        # pure builtins / methods
        pure = False
        raising = False
        if f[0] == "ext" and f[1] in _PURE:
            pure = True
            raising = f[1] in _RAISING_PURE
            if f[1] == "dict" and not args and not any(k == "**" for k, _ in kw):
                return [(st, ("dict", tuple((const(k), v) for k, v in kw), st.new(node)))]
            if f[1] in ("list", "set") and not args:
                return [(st, (f[1], (), st.new(node)))]
            if f[1] == "len" and len(args) == 1:
                c = args[0][1] if args[0][0] == "tuple" else self.dict_now(
                    args[0], st) if args[0][0] == "dict" else None
                if c is not None and not any(x[0] == "star" for x in c):
                    ev.res = const(len(c))
                    ev.extra = "pure"
                    st.events.append(ev)
                    return [(st, ev.res)]
            if f[1] == "tuple" and not args:
                return [(st, ("tuple", ()))]
            if f[1] in ("list", "tuple", "set") and len(args) == 1 and \
                    args[0][0] in ("tuple", "list") and args[0] not in st.touched:
                return [(st, ("tuple", args[0][1]) if f[1] == "tuple" else
                         (f[1], args[0][1], st.new(node)))]
        elif f[0] == "attr" and f[2] in _PURE_METHODS:
            pure = True
            raising = f[2] in _RAISING_PURE_METHODS
            if f[2] == "copy" and recv[0] in ("attr",):
                pass
        elif ev.target in self.pure_calls or ("." + (name or "")) in self.pure_calls:
            pure = True
        if pure:
            args = [self.snap(x, st) for x in args]
            t = ("call", f, tuple(args), tuple(kw), None)
            ev.res = t
            ev.extra = "pure"
            st.events.append(ev)
            out = []
            if raising or self.exact:
                out.extend(self._fork_raise(st, ev, fr, node))
            out.append((st, t))
            return out
        if recv is not None:
            c = self.contents(recv, st)
            if c is not None and recv[0] in ("list", "set"):
                if name in ("append", "add") and len(args) == 1:
                    c = c + (args[0],)
                elif name == "insert" and len(args) == 2 and args[0] == const(0):
                    c = (args[1],) + c
                elif name in ("extend", "update") and len(args) == 1:
                    a = self.snap(args[0], st)
                    c = c + (tuple(a[1]) if a[0] in ("list", "tuple") else
                             (("star", a),))
                elif name == "pop" and c and recv[0] == "list" and \
                        not any(x[0] == "star" for x in c) and \
                        (not args or (is_const(args[0]) and
                                      args[0][2] in (0, -1))):
                    i = 0 if args and args[0][2] == 0 else -1
                    x = c[i]
                    c = c[1:] if i == 0 else c[:-1]
                    st.heap[("contents", recv)] = c
                    st.touched = st.touched | {recv}
                    ev.res = x
                    st.events.append(ev)
                    return [(st, x)]
                elif name not in ("index", "count", "copy"):
                    c = None
                st.heap[("contents", recv)] = c
            st.touched = st.touched | {recv}
            st.heap.pop(("popped", recv), None)
        for x in args:
            if x[0] in ("list", "dict", "set"):
                st.heap.pop(("popped", x), None)
                if not (recv is not None and name in ("append", "add", "extend",
                                                      "put", "insert")):
                    if x[0] != "dict" and f[0] not in ("class",):
                        pass
                st.touched = st.touched | {x}
        if recv is not None and name in ("pop", "clear", "update", "popitem", "popleft", "insert",
                                         "remove", "append", "extend"):
            self._freeze(st, fr, node, lambda x: x[0] == "item" and x[1] == recv)
        t = ("call", f, tuple(args), tuple(kw), st.new(node))
        ev.res = t
        st.events.append(ev)
        out = []
        if self.exact or not self._quiet(ev):
            out.extend(self._fork_raise(st, ev, fr, node))
        if name in self.havoc_after:
            self._havoc(st)             # another thread may act here
        # dict-style mutations invalidate membership facts
        if recv is not None and name in ("pop", "add", "discard", "remove", "clear",
                                         "update", "setdefault", "append", "popitem",
                                         "popleft", "insert", "extend"):
            self._purge(st, lambda x: (x[0] == "in" and x[2] == recv) or
                        (x[0] == "truth" and x[1] == recv))
            for k in list(st.heap):
                if k[0] == "item" and k[1] == recv:
                    del st.heap[k]
        out.append((st, t))
        return out

    def dict_now(self, t, st):
        """The entries a dict display has now, if they are known."""
        c = st.heap.get(("popped", t)) if t in st.touched else t[1]
        if not isinstance(c, tuple) or not all(
                isinstance(x, tuple) and len(x) == 2 and is_const(x[0]) for x in c):
            return None
        return c

    def _deferred_call(self, ev, st, fr, node):
        """A call that hands a function to something that runs it later: the function's
        own events follow it between "defer" and "enddefer"."""
        i = self.deferred[ev.name]
        args = list(ev.args)
        cb = args[i] if len(args) > i else dict(ev.kwargs).get("callback")
        ev.res = ("call", ev.f, ev.args, ev.kwargs, st.new(node))
        st.events.append(ev)
        out = []
        if self.exact or not self._quiet(ev):
            out.extend(self._fork_raise(st, ev, fr, node))
        runnable = cb is not None and cb[0] in ("closure", "partial", "bound", "func")
        if not runnable:
            out.append((st, ev.res))
            return out
        self.emit(st, "defer", node, fr, val=cb, extra=ev)
        if self.havoc_on_yield:
            self._havoc(st)
        tries, st.exctries = st.exctries, type(st.exctries)()
        for s, r in self.apply(cb, args[i + 1:], [], st, fr, node):
            s.exctries = tries
            if isinstance(r, Raised) and r.exc is CUT:
                out.append((s, r))
                continue
            self.emit(s, "enddefer", node, fr, val=r.exc if isinstance(r, Raised) else None,
                      extra=ev)
            out.append((s, ev.res))
        return out

    def _closure_attr(self, f, attr, st):
        """An attribute of a function made on this path, or None if it has none."""
        for _ in range(8):
            if (f, attr) in st.heap:
                return st.heap[(f, attr)]
            if attr == "__wrapped__":
                return None
            w = st.heap.get((f, "__wrapped__"))
            if w is None or w[0] != "closure":
                break
            f = w
        if w is not None:
            return ("attr", w, attr)
        return const(f[2]) if attr in ("__name__", "__qualname__") else None

    def items_of(self, t, st):
        """The elements of a sequence, if they are all known."""
        if t[0] == "call" and t[1] == ("ext", "iter") and len(t[2]) == 1:
            t = t[2][0]
        if t[0] == "const" and isinstance(t[2], tuple):
            return tuple(const(x) for x in t[2])
        if t[0] not in ("tuple", "list"):
            return None
        c = self.contents(t, st)
        if c is None or len(c) > 16 or any(x[0] == "star" for x in c):
            return None
        if self.exact and t[0] == "list" and self.guide.size(st, t) != len(c):
            return None
        return c

    def _sequence(self, name, args, kw, st, fr, node):
        """Functions over sequences whose elements are known give another such."""
        short = name.split(".")[-1]
        kw = dict(kw)
        fill = kw.pop("fillvalue", NONE)
        if kw or any(x[0] == "star" for x in args):
            return None
        if name == "range" and all(is_const(x) and isinstance(x[2], int) for x in args):
            r = range(*[x[2] for x in args])
            items = tuple(const(i) for i in r) if len(r) <= 16 else None
        else:
            seqs = [self.items_of(x, st) for x in args]
            if short == "enumerate" and len(args) == 2 and is_const(args[1]):
                seqs = seqs[:1]
            if not seqs or any(x is None for x in seqs):
                return None
            if name == "len" and len(seqs) == 1:
                return [(st, const(len(seqs[0])))]
            if name in ("list", "tuple", "iter") and len(seqs) == 1:
                items = seqs[0]
            elif name == "enumerate" and len(seqs) == 1:
                start = args[1][2] if len(args) == 2 else 0
                items = tuple(("tuple", (const(i + start), x)) for i, x in enumerate(seqs[0]))
            elif name == "zip":
                items = tuple(("tuple", x) for x in zip(*seqs))
            elif short == "zip_longest":
                n = max(len(x) for x in seqs)
                items = tuple(("tuple", tuple(x[i] if i < len(x) else fill for x in seqs))
                              for i in range(n))
            elif short == "chain":
                items = sum(seqs, ())
            elif name == "reversed" and len(seqs) == 1:
                items = tuple(reversed(seqs[0]))
            else:
                return None
        if items is None:
            return None
        if name == "tuple":
            return [(st, ("tuple", items))]
        return [(st, ("list", items, st.new(node)))]

    def contents(self, t, st):
        """Items of a local list/set display, following its mutations."""
        if t[0] not in ("list", "set", "tuple"):
            return None
        k = ("contents", t)
        if k in st.heap:
            return st.heap[k]
        return tuple(t[1])

    def snap(self, t, st):
        if t[0] in ("list", "set") and ("contents", t) in st.heap:
            c = st.heap[("contents", t)]
            if c is not None:
                return (t[0], c, t[2])
        return t

    def _quiet(self, ev):
        """Calls taken not to raise."""
        if ev.name in _LOG_METHODS and ev.recv is not None:
            return True
        if ev.f[0] == "ext" and ev.f[1] in ("time.time", "get_ident",
                                            "_thread.get_ident"):
            return True
        if ev.f[0] == "bound" and ev.f[1].split(".")[-1] in _LOG_METHODS:
            return True
        return False

    def bind(self, target, args, kw, recv, f):
        """param name -> term (best effort)"""
        a = target.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if f[0] == "bound" and not target.is_static:
            vals = [f[2]] + vals
        out = {}
        star = None
        i = 0
        for v in vals:
            if v is not None and v[0] == "star":
                star = v[1]
                break
            if i < len(ps):
                out[ps[i]] = v
            i += 1
        for k, v in kw:
            if k != "**":
                out[k] = v
        nd = len(a.defaults)
        for p, d in zip(ps[len(ps) - nd:], a.defaults):
            if p not in out and star is None and isinstance(d, ast.Constant):
                out[p] = const(d.value)
        return out

    def call_func(self, fi, args, kw, st, fr, node, selfterm=None, closure=None):
        self.inlined.add(fi.qual)
        kw = dict(kw)
        a = fi.node.args
        ps = a.posonlyargs + a.args
        env = {}
        i = 0
        rest = []
        star = None
        for v in args:
            if v[0] == "star":
                star = v[1]
                if a.vararg and i >= len(ps):
                    rest.append(v)
                    star = None
                continue
            if i < len(ps) and star is None:
                env[ps[i].arg] = v
                i += 1
            else:
                rest.append(v)
        kwstar = kw.pop("**", None)
        names = {x.arg for x in ps + a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                env[k] = v
            else:
                extra[k] = v
        fid_parent = None
        if closure is not None:
            fid_parent = self.closures[closure[1]][1]
            o = self.frames[fid_parent]
            if selfterm is None:
                selfterm = o.selfterm
        nf = self._frame(fi, fid_parent, selfterm,
                         fi.cls.qual if fi.cls else None, fr.depth + 1)
        # defaults
        defs = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[x.arg] = d
        n = 0
        for x in ps + a.kwonlyargs:
            if x.arg in env:
                continue
            if star is not None:
                env[x.arg] = ("item", star, const(n))
                n += 1
            elif kwstar is not None:
                env[x.arg] = ("kwitem", kwstar, x.arg)
            elif x.arg in defs:
                env[x.arg] = self._default(defs[x.arg], fi, st, fid_parent)
            else:
                env[x.arg] = ("unbound", x.arg)
        if a.vararg:
            if star is not None:
                env[a.vararg.arg] = star if n == 0 else \
                    ("slice", star, const(n), NONE, NONE)
            elif len(rest) == 1 and rest[0][0] == "star":
                env[a.vararg.arg] = rest[0][1]
            else:
                env[a.vararg.arg] = ("tuple", tuple(rest))
        if a.kwarg:
            if kwstar is not None and not extra:
                env[a.kwarg.arg] = kwstar
            else:
                env[a.kwarg.arg] = ("dict", tuple(
                    (const(k), v) for k, v in sorted(extra.items())), st.new(node))
        st.envs[nf.fid] = env
        self.callstack.append(fi.qual)
        oldstack = st.stack
        st.stack = st.stack + (fi.qual,)
        self.emit(st, "enter", node, fr, name=fi.name, target=fi.qual,
                  args=tuple(args), bound=dict(env))
        coro = fi.is_coroutine
        try:
            if isinstance(fi.node, ast.Lambda):
                res = [(s, ("raise", v.exc) if isinstance(v, Raised) else ("return", v))
                       for s, v in self.ev(fi.node.body, st, nf)]
            else:
                saved_tries = st.exctries
                if coro:
                    st.exctries = saved_tries
                res = self.block(fi.node.body, st, nf)
        finally:
            self.callstack.pop()
        out = []
        for s, c in res:
            # gen.Return raised in a plain helper travels on to the coroutine
            # that called it; only a coroutine (or generator) turns it into
            # its result.
            if not (c[0] == "raise" and c[1][0] == "exc" and
                    c[1][1] == "tornado.gen.Return" and
                    not coro and not self._is_gen(fi)):
                c = self._leave(c, fi)
            s.stack = oldstack
            self.emit(s, "exit", node, fr, name=fi.name, target=fi.qual)
            if not any(cl[1] == nf.fid for cl in self.closures):
                s.envs.pop(nf.fid, None)
            if c[0] == "return":
                v = c[1]
                if coro:
                    v = ("fut", v)
                out.append((s, v))
            elif c[0] == "raise":
                if coro:
                    out.append((s, ("futexc", c[1])))
                else:
                    out.append((s, Raised(c[1])))
            else:  # cut
                out.append((s, Raised(CUT)))
        return out

    def _default(self, d, fi, st, parent):
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, ast.Name):
            if fi.cls and d.id in fi.cls.attrs:
                return self.res_term(("cattr", fi.cls, d.id), d.id)
            return self.global_term(fi.module, d.id)
        if isinstance(d, (ast.Attribute,)):
            dd = dotted(d)
            r = self.p.resolve(fi.module, dd) if dd else None
            if r:
                return self.res_term(r, dd)
            if fi.cls and dd and dd in fi.cls.attrs:
                return self.res_term(("cattr", fi.cls, dd), dd)
        if isinstance(d, ast.Tuple) and not d.elts:
            return ("tuple", ())
        if isinstance(d, ast.UnaryOp):
            try:
                return const(ast.literal_eval(d))
            except Exception:
                pass
        if isinstance(d, ast.BinOp):
            a = self._default(d.left, fi, st, parent)
            b = self._default(d.right, fi, st, parent)
            if a[0] == "const" and b[0] == "const" and \
                    a[1] == b[1] == "int" and type(d.op) in (ast.Add, ast.Sub):
                return const(a[2] + b[2] if isinstance(d.op, ast.Add) else a[2] - b[2])
        return ("default", fi.qual, ast.dump(d)[:60])


def saved_env(saved, s, fr):
    return dict(saved)


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(
            ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(
            ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()), t)
    return t


BASELINE = set()
RETTYPES = {
    "core.Message.request": "core.Message",
    "core.Message.reply": "core.Message",
    "core.Message.inform": "core.Message",
    "core.Message.reply_to_request": "core.Message",
    "core.Message.reply_inform": "core.Message",
    "core.MessageParser.parse": "core.Message",
}
