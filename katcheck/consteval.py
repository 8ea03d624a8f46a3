"""Constant folding of module / class level tables (no code is executed)."""
import ast

from .program import AnalysisError, ClassInfo, dotted


# library constants used inside tables
EXT = {"logging." + k: v for k, v in dict(
    NOTSET=0, DEBUG=10, INFO=20, WARN=30, WARNING=30, ERROR=40, FATAL=50,
    CRITICAL=50).items()}


class Sym(object):
    """Reference to a repo/external entity used inside a table."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(("sym", self.name))

    def __repr__(self):
        return "Sym(%s)" % self.name


class CallTerm(object):
    def __init__(self, name, args, kwargs):
        self.name, self.args, self.kwargs = name, args, kwargs

    def __eq__(self, o):
        return isinstance(o, CallTerm) and (o.name, o.args, o.kwargs) == (
            self.name, self.args, self.kwargs)

    def __hash__(self):
        return hash((self.name, repr(self.args)))

    def __repr__(self):
        return "%s(%r,%r)" % (self.name, self.args, self.kwargs)


class ConstEval(object):
    def __init__(self, program):
        self.p = program
        self.depth = 0

    def module_const(self, module, name):
        m = self.p.modules[module] if isinstance(module, str) else module
        if name not in m.assigns:
            raise AnalysisError("module constant %s.%s not found" % (m.name, name))
        return self.ev(m.assigns[name], m, None, {})

    def class_attr(self, c, name):
        if isinstance(c, str):
            c = self.p.cls(c)
        r = self.p.class_attr(c, name)
        if r is None:
            raise AnalysisError("class attribute %s.%s not found" % (c.qual, name))
        return self.ev(r[1], r[0].module, r[0], {})

    def ev(self, e, m, c, loc):
        self.depth += 1
        if self.depth > 400:
            raise AnalysisError("constant folding too deep")
        try:
            return self._ev(e, m, c, loc)
        finally:
            self.depth -= 1

    def _ev(self, e, m, c, loc):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Tuple):
            return tuple(self._seq(e, m, c, loc))
        if isinstance(e, ast.List):
            return list(self._seq(e, m, c, loc))
        if isinstance(e, ast.Set):
            return set(self._seq(e, m, c, loc))
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    out.update(self.ev(v, m, c, loc))
                else:
                    out[self.ev(k, m, c, loc)] = self.ev(v, m, c, loc)
            return out
        if isinstance(e, ast.Name):
            if e.id in loc:
                return loc[e.id]
            if c is not None:
                r = self.p.class_attr(c, e.id)
                if r is not None:
                    return self.ev(r[1], r[0].module, r[0], {})
            return self._global(m, e.id)
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d:
                root = d.split(".")[0]
                if root not in loc and not (c is not None and
                                            self.p.class_attr(c, root)):
                    r = self.p.resolve(m, d)
                    if r is not None:
                        return self._res(r, d)
            b = self.ev(e.value, m, c, loc)
            if isinstance(b, Sym):
                if b.name in self.p.classes:
                    r = self.p.class_attr(self.p.classes[b.name], e.attr)
                    if r is not None:
                        return self.ev(r[1], r[0].module, r[0], {})
                return Sym(b.name + "." + e.attr)
            return Sym("?." + e.attr)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, m, c, loc), self.ev(e.right, m, c, loc)
            op = type(e.op).__name__
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b,
                        "Mult": lambda: a * b, "Div": lambda: a / b,
                        "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                        "BitOr": lambda: a | b, "BitAnd": lambda: a & b,
                        "Pow": lambda: a ** b if abs(b) < 70 else None,
                        "LShift": lambda: a << b}[op]()
            except (KeyError, TypeError):
                raise AnalysisError("cannot fold %s" % ast.dump(e)[:80])
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, m, c, loc)
            return {"USub": lambda: -v, "Not": lambda: not v, "UAdd": lambda: +v,
                    "Invert": lambda: ~v}[type(e.op).__name__]()
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, m, c, loc)
            if isinstance(b, (Sym, CallTerm)):
                raise AnalysisError("cannot fold an item of %r" % (b,))
            if isinstance(e.slice, ast.Slice):
                f = lambda x: None if x is None else self.ev(x, m, c, loc)
                return b[slice(f(e.slice.lower), f(e.slice.upper), f(e.slice.step))]
            return b[self.ev(e.slice, m, c, loc)]
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            self._comp(e, 0, m, c, dict(loc), out)
            if isinstance(e, ast.DictComp):
                return dict(out)
            if isinstance(e, ast.SetComp):
                return set(out)
            return out
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.ev(e.test, m, c, loc) else e.orelse,
                           m, c, loc)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, m, c, loc), self.ev(e.comparators[0], m, c, loc)
            return {"Eq": lambda: a == b, "NotEq": lambda: a != b,
                    "In": lambda: a in b, "NotIn": lambda: a not in b,
                    "Is": lambda: a is b, "IsNot": lambda: a is not b,
                    "Lt": lambda: a < b, "Gt": lambda: a > b,
                    "LtE": lambda: a <= b, "GtE": lambda: a >= b}[
                        type(e.ops[0]).__name__]()
        if isinstance(e, ast.Call):
            return self._call(e, m, c, loc)
        if isinstance(e, ast.Lambda):
            return Sym("<lambda>")
        raise AnalysisError("cannot fold %s" % type(e).__name__)

    def _comp(self, e, gi, m, c, loc, out):
        if gi == len(e.generators):
            if isinstance(e, ast.DictComp):
                out.append((self.ev(e.key, m, c, loc), self.ev(e.value, m, c, loc)))
            else:
                out.append(self.ev(e.elt, m, c, loc))
            return
        g = e.generators[gi]
        for x in self.ev(g.iter, m, c, loc):
            l2 = dict(loc)
            self._bind(g.target, x, l2)
            if all(self.ev(i, m, c, l2) for i in g.ifs):
                self._comp(e, gi + 1, m, c, l2, out)

    def _bind(self, t, v, loc):
        if isinstance(t, ast.Name):
            loc[t.id] = v
        else:
            for a, b in zip(t.elts, v):
                self._bind(a, b, loc)

    def _seq(self, e, m, c, loc):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.ev(x.value, m, c, loc))
            else:
                out.append(self.ev(x, m, c, loc))
        return out

    def _global(self, m, n):
        r = self.p.resolve(m, n)
        return self._res(r, n)

    def _res(self, r, n):
        if r is None:
            return Sym(n)
        if r[0] == "const":
            return self.ev(r[1].assigns[r[2]], r[1], None, {})
        if r[0] == "cattr":
            return self.ev(r[1].attrs[r[2]], r[1].module, r[1], {})
        if r[0] in ("class", "func"):
            return Sym(r[1].qual)
        if r[0] == "ext":
            if r[1] in ("True", "False", "None"):
                return {"True": True, "False": False, "None": None}[r[1]]
            return EXT.get(r[1], Sym(r[1]))
        return Sym(n)

    def _call(self, e, m, c, loc):
        args = [self.ev(a, m, c, loc) for a in e.args if not isinstance(a, ast.Starred)]
        kw = {k.arg: self.ev(k.value, m, c, loc) for k in e.keywords if k.arg}
        if isinstance(e.func, ast.Attribute):
            d = dotted(e.func)
            r = self.p.resolve(m, d) if d else None
            if r is None or r[0] not in ("class", "func", "ext"):
                b = self.ev(e.func.value, m, c, loc)
                a = e.func.attr
                if isinstance(b, dict) and a in ("items", "keys", "values", "copy",
                                                 "get"):
                    v = getattr(b, a)(*args)
                    return v if a in ("copy", "get") else list(v)
                if isinstance(b, (str, bytes)) and a in (
                        "encode", "decode", "lower", "upper", "format", "split",
                        "join", "strip", "replace"):
                    return getattr(b, a)(*args)
                return CallTerm("?." + a, args, kw)
        f = self.ev(e.func, m, c, loc)
        if isinstance(f, Sym):
            n = f.name
            simple = {"dict": dict, "list": list, "tuple": tuple, "set": set,
                      "frozenset": frozenset, "range": range, "range_": range,
                      "len": len, "str": str, "bytes": bytes, "sorted": sorted,
                      "zip": lambda *a: list(zip(*a)), "int": int,
                      "enumerate": lambda *a: list(enumerate(*a)),
                      "chr": chr, "ord": ord, "max": max, "min": min, "float": float}
            if n in simple:
                return simple[n](*args, **kw)
            last = n.split(".")[-1]
            if len(args) == 1 and isinstance(args[0], (str, bytes)):
                if last in ("bytes_to_native_str", "ensure_native_str", "ensure_text"):
                    return args[0].decode() if isinstance(args[0], bytes) else args[0]
                if last in ("native_str_to_bytes", "ensure_binary"):
                    return args[0].encode() if isinstance(args[0], str) else args[0]
            return CallTerm(n, args, kw)
        return CallTerm(str(f), args, kw)
