"""Shared vocabulary for the rules: term matchers, path queries, regex tables."""
import itertools
import re

from .consteval import CallTerm, Sym
from .engine import (NONE, FALSE, TRUE, const, cval, elem_term, is_const, item_term,
                     mentions, mentions_p, show, show_atom, strip_iter, subterms)
from .program import AnalysisError

SELF = ("param", "self")


def P(name):
    return ("param", name)


def A(base, *names):
    for n in names:
        base = ("attr", base, n)
    return base


def S(*names):
    return A(SELF, *names)


def call_name(t):
    """Last component of the callee of a call / constructor term."""
    if t[0] == "new":
        return t[1].split(".")[-1]
    if t[0] != "call":
        return None
    f = t[1]
    if f[0] == "attr":
        return f[2]
    if f[0] in ("bound", "func", "class", "ext"):
        return f[1].split(".")[-1]
    if f[0] == "closure":
        return f[2]
    if f[0] == "param":
        return f[1]
    return None


def call_target(t):
    """Qualified callee of a call / constructor term."""
    if t[0] == "new":
        return t[1]
    if t[0] == "call" and t[1][0] in ("bound", "func", "class", "ext"):
        return t[1][1]
    return None


def call_recv(t):
    if t[0] == "call":
        if t[1][0] == "attr":
            return t[1][1]
        if t[1][0] == "bound":
            return t[1][2]
    return None


def peel(t, names=("ensure_native_str", "str", "bytes", "list", "tuple")):
    """Strip representation-only wrappers."""
    while t[0] == "call" and call_name(t) in names and len(t[2]) >= 1:
        t = t[2][0]
    return t


# -- message constructions -------------------------------------------------

MSG = "core.Message"
_KIND = {0: "request", 1: "reply", 2: "inform"}


class Msg(object):
    """Canonical view of a term that builds a KATCP message."""

    def __init__(self, kind, name, args, mid, term):
        self.kind, self.name, self.args, self.mid, self.term = \
            kind, name, args, mid, term

    def __repr__(self):
        return "<%s %s %s mid=%s>" % (self.kind, show(self.name) if self.name else None,
                                     [show(a) for a in self.args]
                                     if self.args is not None else None,
                                     show(self.mid) if self.mid else None)


def as_msg(t):
    """Message(...), Message.reply(...), Message.reply_to_request(...), ... -> Msg"""
    if t is None or not isinstance(t, tuple):
        return None
    if t[0] == "new" and t[1] == MSG:
        a = list(t[2])
        kw = dict(t[3])

        def get(i, n):
            return a[i] if i < len(a) else kw.get(n)
        mt = get(0, "mtype")
        args = get(2, "arguments")
        if args is None or args == NONE:
            al = ()
        elif args[0] in ("tuple", "list"):
            al = args[1]
        else:
            al = (("star", args),)
        kind = _KIND.get(cval(mt)) if mt and is_const(mt) else None
        return Msg(kind, get(1, "name"), al, get(3, "mid") or NONE, t)
    if t[0] == "call":
        q = call_target(t)
        if q is None or not q.startswith(MSG + "."):
            return None
        m = q.split(".")[-1]
        kw = dict(t[3])
        if m in ("request", "reply", "inform"):
            if not t[2]:
                return None
            return Msg(m, t[2][0], t[2][1:], kw.get("mid", NONE), t)
        if m in ("reply_to_request", "reply_inform") and t[2]:
            r = t[2][0]
            return Msg("reply" if m == "reply_to_request" else "inform",
                       A(r, "name"), t[2][1:], A(r, "mid"), t)
    return None


# -- path queries ----------------------------------------------------------

def fact(p, atom):
    return p.facts.get(atom)


def cond_before(p, idx, pred):
    """Last branch outcome (True/False) for an atom matching pred before idx."""
    r = None
    for e in p.events[:idx]:
        if e.kind == "cond" and pred(e.extra):
            r = e.val
    return r


def holds_truth(p, t, upto=None):
    """Is t known truthy / falsy / None-ness on this path? -> True/False/None"""
    r = None
    for e in p.events[:upto]:
        if e.kind == "cond":
            a = e.extra
            if a == ("truth", t):
                r = e.val
            elif a == ("is", t, NONE):
                r = not e.val if e.val else (True if r is None else r)
    return r


def calls_to(p, *names, **kw):
    recv = kw.get("recv")
    out = []
    for e in p.events:
        if e.kind != "call":
            continue
        if e.name in names or e.target in names:
            if recv is None or e.recv == recv:
                out.append(e)
    return out


def stores_to(p, attr, base=SELF):
    return [e for e in p.events if e.kind == "store" and e.attr == attr and
            (base is None or e.base == base)]


def is_log(e):
    """A logging call."""
    from .engine import _LOG_METHODS
    return e.kind == "call" and e.name in _LOG_METHODS and e.recv is not None


def path_str(p):
    """Short description of the branch decisions of a path."""
    out = []
    for e in p.events:
        if e.kind == "cond":
            out.append(("" if e.val else "not ") + show_atom(e.extra))
        elif e.kind == "handler":
            out.append("in except at line %s" % e.node.lineno)
    return " & ".join(out) or "(straight line)"


# -- regular expression constants ------------------------------------------

def regex_of(v):
    """CallTerm('re.compile', [pattern, ...]) -> compiled pattern constant."""
    if isinstance(v, CallTerm) and v.name == "re.compile":
        flags = 0
        for f in v.args[1:]:
            if isinstance(f, int):
                flags |= f
            elif isinstance(f, Sym):
                flags |= getattr(re, f.name.split(".")[-1])
        try:
            return re.compile(v.args[0], flags)
        except re.error as e:
            raise AnalysisError("bad regular expression constant: %s" % e)
    raise AnalysisError("expected a re.compile constant, found %r" % (v,))


def byte_class(rx):
    """Set of single bytes the pattern matches on its own."""
    return {bytes([b]) for b in range(256) if rx.fullmatch(bytes([b]))}


def words(alphabet, maxlen):
    for n in range(maxlen + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield b"".join(w)


# -- byte rendering --------------------------------------------------------

def flatten_bytes(t, p=None):
    """Concatenation / % / join structure of a string term -> list of pieces.

    Pieces: ('lit', bytes/str) or ('val', term) or ('join', sep, term).
    Returns None when the structure is not understood.
    """
    out = []

    def add(x):
        if x[0] == "lit":
            if not x[1]:
                return
            if out and out[-1][0] == "lit" and type(out[-1][1]) is type(x[1]):
                out[-1] = ("lit", out[-1][1] + x[1])
                return
        out.append(x)

    def rec(t):
        if t[0] == "const" and isinstance(t[2], (bytes, str)):
            add(("lit", t[2]))
            return True
        if t[0] == "bin" and t[1] == "Add":
            return rec(t[2]) and rec(t[3])
        if t[0] == "bin" and t[1] == "Mod" and is_const(t[2]):
            fmt = t[2][2]
            isb = isinstance(fmt, bytes)
            f = fmt.decode("latin-1") if isb else fmt
            vals = t[3][1] if t[3][0] == "tuple" else (t[3],)
            parts = re.split(r"(%[sdb])", f)
            n = 0
            for x in parts:
                if re.fullmatch(r"%[sdb]", x):
                    if n >= len(vals):
                        return False
                    if not rec(vals[n]):
                        return False
                    n += 1
                else:
                    if "%" in x:
                        return False
                    add(("lit", x.encode("latin-1") if isb else x))
            return n == len(vals)
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and \
                is_const(t[1][1]) and len(t[2]) == 1:
            a = t[2][0]
            if p is not None:
                c = p.contents(a)
                if c is not None and a[0] in ("list",):
                    a = ("tuple", c)
            if a[0] in ("tuple", "list") and not any(x[0] == "star" for x in a[1]):
                sep = t[1][1]
                for i, x in enumerate(a[1]):
                    if i and not rec(sep):
                        return False
                    if not rec(x):
                        return False
                return True
            out.append(("join", t[1][1][2], a))
            return True
        out.append(("val", t))
        return True
    return out if rec(t) else None


# -- small query helpers used by the later rules ---------------------------

def events(p, kind=None, **kw):
    """Events of a path filtered by kind and attributes."""
    out = []
    for e in p.events:
        if kind is not None and e.kind != kind:
            continue
        if all(getattr(e, k) == v for k, v in kw.items()):
            out.append(e)
    return out


def mid_at(p, m, idx=None):
    """Message id of Msg m as of event idx (stores to .mid included)."""
    v = m.mid
    for e in p.events[:idx]:
        if e.kind == "store" and e.attr == "mid" and e.base == m.term:
            v = e.val
    return v


def tested(p, pred, val=None, upto=None):
    """Was a branch atom matching pred decided (to val) on this path?"""
    for e in p.events[:upto]:
        if e.kind == "cond" and pred(e.extra) and (val is None or e.val == val):
            return True
    return False


def has(t, pred):
    """Does a sub-term satisfy pred?"""
    return any(pred(x) for x in subterms(t))


def uses(t, x):
    return any(y == x for y in subterms(t))


def exits(ps):
    return [p for p in ps if p.kind in ("return", "raise")]


def returns(ps):
    return [p for p in ps if p.kind == "return"]


def unret(t):
    """Strip gen.Return(...) / future wrappers from a returned term."""
    while t is not None and isinstance(t, tuple) and t:
        if t[0] == "fut":
            t = t[1]
        elif t[0] == "yield":
            t = t[1]
        else:
            return t
    return t


def arg(e, i, name=None, default=None):
    """i-th positional or named argument of a call event."""
    if i is not None and i < len(e.args):
        return e.args[i]
    for k, v in e.kwargs:
        if k == name:
            return v
    return default


COPYING = ("list", "tuple", "set", "frozenset", "sorted", "copy", "deepcopy")


def snapshot_kind(coll, base):
    """How an iterated term relates to attribute `base`: 'copy', 'live' or None."""
    if not uses(coll, base):
        return None
    t = coll
    while True:
        if t == base:
            return "live"
        if t[0] == "call":
            n = call_name(t)
            if n in COPYING:
                return "copy"
            if n in ("values", "keys", "items", "iter", "enumerate", "reversed",
                     "itervalues", "iteritems", "viewvalues", "viewitems", "zip", "map",
                     "filter"):
                if t[1][0] == "attr" and uses(t[1][1], base):
                    t = t[1][1]
                    continue
                c = [a for a in t[2] if uses(a, base)]
                if len(c) == 1:
                    t = c[0]
                    continue
            return "copy" if n is None else "unknown"
        if t[0] == "comp":
            return "copy"          # built completely before it is iterated
        if t[0] in ("list", "tuple", "set"):
            return "copy"
        if t[0] == "slice":
            return "copy"
        if t[0] == "bin":
            return "copy"
        return "unknown"


def attr_stores(ctx, attr):
    """Every syntactic store / mutation site of attribute attr: (function qual, node)."""
    import ast
    idx = getattr(ctx.p, "_store_index", None)
    if idx is None or idx[0] != len(ctx.p.functions):
        idx = (len(ctx.p.functions), {})
        for q, fi in ctx.p.functions.items():
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    idx[1].setdefault(n.attr, []).append((q, n))
        ctx.p._store_index = idx
    out = idx[1].get(attr, ())
    seen = {}
    for q, n in out:      # innermost function wins
        k = id(n)
        if k not in seen or len(q) > len(seen[k][0]):
            seen[k] = (q, n)
    return list(seen.values())


def attr_loads(ctx, attr):
    import ast
    seen = {}
    for q, fi in ctx.p.functions.items():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and \
                    isinstance(n.ctx, ast.Load):
                if id(n) not in seen or len(q) > len(seen[id(n)][0]):
                    seen[id(n)] = (q, n)
    return list(seen.values())


# -- which functions a helper belongs to ----------------------------------------

def outermost(fq):
    return fq.split(".<locals>.")[0]


def mentions_of(ctx, name):
    """The outermost functions whose text mentions an attribute or name."""
    import ast
    idx = getattr(ctx, "_mention_index", None)
    if idx is None:
        idx = ctx._mention_index = {}
        for fq, fi in ctx.p.functions.items():
            if fq.startswith(("testutils.", "fake_clients.", "example")):
                continue
            for n in ast.walk(fi.node):
                nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", None)
                if nm:
                    idx.setdefault(nm, set()).add(outermost(fq))
    return idx.get(name, set())


def entries(ctx, quals):
    """The functions of the original program that the given ones are analysed in: helpers
    which were added are followed to their callers."""
    from .engine import BASELINE
    out, todo, seen = set(), [outermost(q) for q in quals], set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        if q in BASELINE:
            out.add(q)
        else:
            todo.extend(mentions_of(ctx, q.rsplit(".", 1)[1]) - {q})
    return out


def within(ctx, fq, allowed):
    """Is function fq one of the allowed ones, or a helper which was added and is only used
    from those?  True, False, or None when a helper's users are not all allowed."""
    from .engine import BASELINE
    if fq in allowed or outermost(fq) in allowed:
        return True
    if outermost(fq) in BASELINE:
        return False
    users = entries(ctx, [fq])
    return True if users and users <= set(allowed) else None


# -- callables passed around -------------------------------------------------

def callee(p, t):
    """(qual, leading args) of a function value on path p, or None."""
    if t is None:
        return None
    if t[0] == "closure":
        return p.engine.closures[t[1]][0].qual, ()
    if t[0] == "func":
        return t[1], ()
    if t[0] == "bound":
        return t[1], ()
    if t[0] == "partial":
        r = callee(p, t[1])
        return (r[0], r[1] + tuple(t[2])) if r else None
    if t[0] == "call" and call_name(t) in ("partial", "wrap", "stack_context_wrap") and t[2]:
        r = callee(p, t[2][0])
        return (r[0], r[1] + tuple(t[2][1:])) if r else None
    return None


def raised(p, e):
    """Did this call raise on this path?"""
    return any(x.kind == "exc" and x.extra is e for x in p.events[e.idx:])


def handlers_for(p, upto=None):
    return [e for e in p.events[:upto] if e.kind == "handler"]


def always_raises(ctx, qual):
    if not ctx.p.has_func(qual):
        return None
    return all(x.kind == "raise" for x in ctx.paths(qual, no_fork_raise=True))


def excisa(p, cls, exc=None):
    """Is the caught exception known to be (not) an instance of cls?"""
    for a, v in p.facts.items():
        if a[0] == "excisa" and (exc is None or a[1] == exc):
            if str(a[2]).split(".")[-1].rstrip("'),") == cls.split(".")[-1]:
                return v
    return None


def method_of(ctx, cls, name):
    """Qualified name of the method found on cls, or None."""
    r = ctx.p.lookup(ctx.p.cls(cls), name)
    return r


def reaches(ctx, p, t, name, depth=3):
    """Does calling function value t run (perhaps through a lambda or a helper the
    original tree did not have) a method called `name`?  True / False / None (unknown)."""
    import ast
    from . import engine
    c = callee(p, t)
    if c is None:
        if t is not None and t[0] == "attr":
            return True if t[2] == name else (None if t[2] not in _all_names(ctx) else False)
        return None

    def walk(q, d):
        if q.split(".")[-1] == name:
            return True
        if "<lambda" not in q and q in engine.BASELINE and "<locals>" not in q:
            return False
        if not ctx.p.has_func(q) or d == 0:
            return None
        r = False
        for n in ast.walk(ctx.p.func(q).node):
            f = n.func if isinstance(n, ast.Call) else None
            m = f.attr if isinstance(f, ast.Attribute) else (
                f.id if isinstance(f, ast.Name) else None)
            if m == name:
                return True
            if m:
                for q2 in ctx.p.functions:
                    if q2.split(".")[-1] == m and q2 not in engine.BASELINE:
                        r = walk(q2, d - 1) or r
        return r
    return walk(c[0], depth)


def _all_names(ctx):
    return {q.split(".")[-1] for q in ctx.p.functions}


def decided(p, atom_pred, upto=None):
    """Outcome of the first branch on an atom matching pred (None: not branched on)."""
    for e in p.events[:upto]:
        if e.kind == "cond" and atom_pred(e.extra):
            return e.val
    return None


def isnone(p, t, upto=None):
    """Is t known to be (not) None from the branches taken?"""
    if is_const(t):
        return t[2] is None
    r = decided(p, lambda a: a[0] == "is" and set(a[1:]) == {t, NONE}, upto)
    if r is None and decided(p, lambda a: a == ("truth", t), upto):
        r = False
    return r


def truthy(p, t, upto=None):
    """Is t known to be true / false from the branches taken?"""
    if is_const(t):
        return bool(t[2])
    r = decided(p, lambda a: a == ("truth", t), upto)
    if r is None and isnone(p, t, upto):
        r = False
    return r
