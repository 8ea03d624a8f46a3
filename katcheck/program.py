"""Loader: parses katcp's current source into modules, classes and functions.

Nothing of the analysed program is imported or executed; everything here is
derived from the syntax trees of the files under <repo>/katcp.
"""
import ast
import warnings
import builtins
import hashlib
import os

EXCLUDE_DIRS = {"test"}
EXCLUDE_FILES = set()


class AnalysisError(Exception):
    """The analysis lost its anchor: neither 'holds' nor 'violated'."""


class FuncInfo(object):
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls              # ClassInfo or None
        self.parent = parent
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d)
                           for d in getattr(node, "decorator_list", [])]
        self.local_class = False    # a method of a class made inside a function

    @property
    def takes_self(self):
        return self.cls is not None and (self.parent is None or self.local_class)

    def has_deco(self, *names):
        return any(d and d.split(".")[-1] in names for d in self.decorators)

    @property
    def is_coroutine(self):
        return self.has_deco("coroutine") or isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def is_property(self):
        return self.has_deco("property")

    @property
    def is_static(self):
        return self.has_deco("staticmethod")

    @property
    def is_classmethod(self):
        return self.has_deco("classmethod")

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def where(self):
        return "%s:%d" % (self.module.path, self.node.lineno)

    def __repr__(self):
        return "<Func %s>" % self.qual


class ClassInfo(object):
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}           # name -> FuncInfo
        self.setters = {}
        self.attrs = {}             # name -> last value expr (class level)
        self.base_exprs = node.bases
        self.bases = []             # ClassInfo or dotted str

    def __repr__(self):
        return "<Class %s>" % self.qual


class ModuleInfo(object):
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.functions = {}
        self.classes = {}
        self.assigns = {}           # module-level name -> last value expr
        self.imports = {}           # local name -> dotted origin


def _py2(test):
    """False for a test that asks for Python 3 or the like (taken to hold), True for one
    that asks for Python 2, None for another."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        v = _py2(test.operand)
        return None if v is None else not v
    d = dotted(test)
    if d and d.split(".")[-1] == "PY2":
        return True
    if d and d.split(".")[-1] == "PY3":
        return False
    return None


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + "." + node.attr if b else None
    return None


class Program(object):
    def __init__(self, root="/repo", package="katcp"):
        self.root = root
        self.modules = {}
        self.classes = {}           # qual -> ClassInfo
        self.functions = {}         # qual -> FuncInfo (incl. methods)
        self.all_funcs = []         # every FuncInfo incl nested
        pkg = os.path.join(root, package)
        names = sorted(f for f in os.listdir(pkg) if f.endswith(".py"))
        h = hashlib.sha256()
        for f in names:
            if f in EXCLUDE_FILES:
                continue
            p = os.path.join(pkg, f)
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            h.update(src.encode())
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(src, p)
            except SyntaxError as e:
                raise AnalysisError("cannot parse %s: %s" % (p, e))
            m = ModuleInfo(f[:-3], os.path.relpath(p, root), tree, src)
            self.modules[m.name] = m
        self.digest = h.hexdigest()
        for m in self.modules.values():
            self._index_module(m)
        for c in self.classes.values():
            c.bases = [self._resolve_base(c.module, b) for b in c.base_exprs]
            c.bases = [b for b in c.bases if b is not None]
        self._attr_types = None
        self.parents = {}

    # -- indexing ---------------------------------------------------------
    def _index_module(self, m):
        def toplevel(body):
            for n in body:
                if isinstance(n, ast.If) and _py2(n.test) is not None:
                    for x in toplevel(n.body if _py2(n.test) is False else n.orelse):
                        yield x
                elif isinstance(n, (ast.If, ast.Try)):
                    # what an import that succeeds gives wins over its fallback
                    for hnd in getattr(n, "handlers", []):
                        for x in toplevel(hnd.body):
                            yield x
                    for fld in ("body", "orelse", "finalbody"):
                        for x in toplevel(getattr(n, fld, [])):
                            yield x
                else:
                    yield n
        for n in toplevel(m.tree.body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(m.name + "." + n.name, n, m)
                m.functions[n.name] = fi
                self.functions[fi.qual] = fi
                self._nested(fi)
            elif isinstance(n, ast.ClassDef):
                self._index_class(m, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = n.value
                    elif isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) \
                            and len(t.elts) == len(n.value.elts):
                        for a, b in zip(t.elts, n.value.elts):
                            if isinstance(a, ast.Name):
                                m.assigns[a.id] = b
            elif isinstance(n, ast.AnnAssign) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                m.assigns[n.target.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    mod = "katcp" + ("." + mod if mod else "")
                for a in n.names:
                    m.imports[a.asname or a.name] = (mod + "." + a.name)
        # function-level imports are treated as module-level ones
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    mod = "katcp" + ("." + mod if mod else "")
                for a in n.names:
                    m.imports.setdefault(a.asname or a.name, mod + "." + a.name)

    def _nested(self, fi):
        self.all_funcs.append(fi)

        def rec(node, parent):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    sub = FuncInfo(parent.qual + ".<locals>." + ch.name, ch,
                                   parent.module, parent.cls, parent)
                    self.functions[sub.qual] = sub
                    self.all_funcs.append(sub)
                    rec(ch, sub)
                elif isinstance(ch, ast.ClassDef):
                    self._index_class(parent.module, ch, parent.qual + ".<locals>", parent)
                else:
                    rec(ch, parent)
        rec(fi.node, fi)

    def _index_class(self, m, n, prefix=None, outer=None):
        q = (prefix or m.name) + "." + n.name
        c = ClassInfo(q, n, m)
        if outer is None:
            m.classes[n.name] = c
        self.classes[q] = c
        def flat(body):
            for x in body:
                if isinstance(x, ast.If) and _py2(x.test) is not None:
                    for y in flat(x.body if _py2(x.test) is False else x.orelse):
                        yield y
                elif isinstance(x, ast.If):
                    for y in flat(x.body + x.orelse):
                        yield y
                else:
                    yield x
        for s in flat(n.body):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and \
                    len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                # a method written as a lambda
                s = ast.copy_location(ast.FunctionDef(
                    name=s.targets[0].id, args=s.value.args, decorator_list=[],
                    returns=None, type_comment=None,
                    body=[ast.copy_location(ast.Return(value=s.value.body), s)]), s)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(q + "." + s.name, s, m, c, outer)
                fi.local_class = outer is not None
                if any(d and d.endswith(".setter") for d in fi.decorators):
                    fi.qual = q + "." + s.name + ".setter"
                    c.setters[s.name] = fi
                else:
                    c.methods[s.name] = fi
                self.functions[fi.qual] = fi
                if outer is None:
                    self._nested(fi)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                if isinstance(s.value, ast.Tuple):
                                    c.attrs[e.id] = s.value.elts[i]
                                else:
                                    c.attrs[e.id] = ast.Subscript(
                                        value=s.value,
                                        slice=ast.Constant(value=i),
                                        ctx=ast.Load())
            elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                    isinstance(s.target, ast.Name):
                c.attrs[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self._index_class(m, s, q, outer)

    def _resolve_base(self, m, b):
        if isinstance(b, ast.Call) and dotted(b.func) and \
                dotted(b.func).split(".")[-1] == "with_metaclass":
            if len(b.args) > 1:
                return self._resolve_base(m, b.args[1])
            return None
        if isinstance(b, ast.Call):
            # collections.namedtuple('X', 'a b c')
            return dotted(b.func)
        d = dotted(b)
        if d is None:
            return None
        r = self.resolve(m, d)
        if r and r[0] == "class":
            return r[1]
        return d

    # -- name resolution --------------------------------------------------
    def resolve(self, m, name):
        """Resolve a dotted name as seen from module m.

        -> ('class', ClassInfo) | ('func', FuncInfo) | ('module', ModuleInfo)
           | ('const', ModuleInfo, name) | ('ext', dotted) | None
        """
        parts = name.split(".")
        cur = self._resolve1(m, parts[0])
        for p in parts[1:]:
            if cur is None:
                return None
            if cur[0] == "module":
                cur = self._resolve1(cur[1], p, export=True)
            elif cur[0] == "class":
                f = self.lookup(cur[1], p)
                if f is None:
                    a = self.class_attr(cur[1], p)
                    if a is None:
                        sub = self.classes.get(cur[1].qual + "." + p)
                        cur = ("class", sub) if sub else None
                    else:
                        cur = ("cattr", a[0], p)
                else:
                    cur = ("func", f)
            elif cur[0] == "ext":
                cur = ("ext", cur[1] + "." + p)
            else:
                return None
        return cur

    def _resolve1(self, m, n, export=False, depth=0):
        if depth > 5:
            return None
        if n in m.functions:
            return ("func", m.functions[n])
        if n in m.classes:
            return ("class", m.classes[n])
        if n in m.assigns:
            v = m.assigns[n]
            # alias of a class / function
            d = dotted(v)
            if d and d != n and not d.startswith("self"):
                r = self.resolve(m, d) if d.split(".")[0] != n else None
                if r and r[0] in ("class", "func"):
                    return r
            return ("const", m, n)
        if n in m.imports:
            o = m.imports[n]
            return self.resolve_abs(o, depth + 1)
        if n in self.modules and export and m.name == "__init__":
            return ("module", self.modules[n])
        if not export and hasattr(builtins, n):
            return ("ext", n)
        return None

    def resolve_abs(self, o, depth=0):
        parts = o.split(".")
        if parts[0] == "katcp":
            if len(parts) == 1:
                return ("module", self.modules["__init__"])
            if parts[1] in self.modules:
                cur = ("module", self.modules[parts[1]])
                rest = parts[2:]
            else:
                cur = ("module", self.modules["__init__"])
                rest = parts[1:]
            for p in rest:
                if cur[0] == "module":
                    nx = self._resolve1(cur[1], p, export=True, depth=depth + 1)
                elif cur[0] == "class":
                    f = self.lookup(cur[1], p)
                    nx = ("func", f) if f else None
                else:
                    nx = None
                if nx is None:
                    return None
                cur = nx
            return cur
        if parts[0] == "builtins" and len(parts) == 2:
            return ("ext", parts[1])
        return ("ext", o)

    # -- classes ----------------------------------------------------------
    def mro(self, c, _seen=None):
        """C3 linearisation restricted to repo classes (externals kept as str)."""
        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                res.append(h)
                seqs = [[x for x in s if x is not h and x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        if not isinstance(c, ClassInfo):
            return [c]
        return [c] + merge([self.mro(b) for b in c.bases] + [list(c.bases)])

    def lookup(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassInfo):
                if name in k.methods:
                    return k.methods[name]
                if name in k.attrs:
                    # alias: name = other_method
                    d = dotted(k.attrs[name])
                    if d and d in k.methods:
                        return k.methods[d]
                    if d and d in k.module.functions:
                        return k.module.functions[d]
                    # partial / property(...) left to the caller
                    return None
        return None

    def lookup_after(self, c, after, name):
        m = self.mro(c)
        if after in m:
            m = m[m.index(after) + 1:]
        for k in m:
            if isinstance(k, ClassInfo) and name in k.methods:
                return k.methods[name]
        return None

    def class_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassInfo) and name in k.attrs:
                return (k, k.attrs[name])
        return None

    def subclasses(self, c, strict=False):
        return [k for k in self.classes.values()
                if c in self.mro(k) and not (strict and k is c)]

    def is_subclass(self, c, d):
        return d in self.mro(c)

    def cls(self, qual):
        try:
            return self.classes[qual]
        except KeyError:
            raise AnalysisError("anchor class %s not found" % qual)

    def func(self, qual):
        """Find function by 'module.Class.method' (following inheritance)."""
        if qual in self.functions:
            return self.functions[qual]
        mod, _, rest = qual.partition(".")
        if "." in rest:
            cq, _, meth = qual.rpartition(".")
            if cq in self.classes:
                f = self.lookup(self.classes[cq], meth)
                if f:
                    return f
        raise AnalysisError("anchor function %s not found" % qual)

    def has_func(self, qual):
        try:
            self.func(qual)
            return True
        except AnalysisError:
            return False

    def attr_types(self):
        """(class qual, attr) -> set of class quals, from self.x = C(...)"""
        if self._attr_types is None:
            t = {}
            for fi in self.all_funcs:
                if fi.cls is None:
                    continue
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Assign):
                        tg = list(n.targets)
                        flat = []
                        for x in tg:
                            flat.append(x)
                        for x in flat:
                            if isinstance(x, ast.Attribute) and \
                                    isinstance(x.value, ast.Name) and \
                                    x.value.id == "self":
                                q = None
                                v = n.value
                                if isinstance(v, ast.Call):
                                    d = dotted(v.func)
                                    if d:
                                        r = self.resolve(fi.module, d)
                                        if r and r[0] == "class":
                                            q = r[1].qual
                                if q:
                                    t.setdefault((fi.cls.qual, x.attr), set()).add(q)
            self._attr_types = t
        return self._attr_types


def walk_own(node):
    """Walk a function body without entering nested defs / lambdas / classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
