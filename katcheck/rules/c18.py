"""Evaluation over all paths: the handler metaclass is evaluated for names of every prefix and both
answers of check_protocol (stored in its own class's table exactly when allowed, under the converted
name); check_protocol for a grid of protocol versions, flags and restrictions; the restriction
decorators, applied in a parsed probe, must put on the handler the attribute check_protocol reads,
and every wrapping decorator must carry it on.  The handler tables are the only dispatch and help
source and nothing adds to them; the connect informs are compared per major version; ProtocolFlags
and the client refuse message ids where the protocol has none."""
import ast

from ..engine import BASELINE, NONE, const, is_const, show, subterms
from ..lib import (A, P, S, SELF, as_msg, attr_stores, call_name, call_recv, events,
                   path_str, uses)
from ..program import walk_own
from ..teval import Unknown, consistent, ev, value

MIN_OBLIGATIONS = 150
DM, DSM = "core.DeviceMetaclass", "core.DeviceServerMetaclass"
TABLES = {"request_": "_request_handlers", "inform_": "_inform_handlers",
          "reply_": "_reply_handlers"}
# (method name, table or None, name in the table)
NAMES = [("request_abc", "_request_handlers", "abc"),
         ("request_abc_def_ghi", "_request_handlers", "abc-def-ghi"),
         ("request_reply_x", "_request_handlers", "reply-x"),
         ("inform_abc_def", "_inform_handlers", "abc-def"),
         ("inform_request_x", "_inform_handlers", "request-x"),
         ("reply_abc_def", "_reply_handlers", "abc-def"),
         ("reply_inform", None, None), ("handle_request", None, None),
         ("my_request_x", None, None), ("requests", None, None), ("reply", None, None)]


def metaclass(ctx):
    q = DM + ".__init__"
    fi = ctx.p.func(q)
    mcs = P(fi.params[0])
    ps = ctx.paths(q, loop_max=1, no_fork_raise=True, max_paths=4000,
                   opaque={"*.check_protocol"})
    for p in ps:
        its = [e for e in events(p, "iter") if e.extra != "comp" and
               e.val == ("call", ("ext", "dir"), (mcs,), (), e.val[4] if len(e.val) > 4 else None)]
        if len(its) != 1:
            if p.kind == "return" and not [e for e in events(p, "iter") if e.extra != "comp"]:
                for t in TABLES.values():
                    st = [e for e in events(p, "store") if e.base == mcs and e.attr == t]
                    ok = None
                    if st:
                        v = st[-1].val
                        ok = True if v[0] == "dict" and not v[1] or v[0] == "call" and \
                            call_name(v) in ("dict", "OrderedDict") and not v[2] else \
                            False if v[0] in ("attr", "cattr") else None
                    ctx.ob("own-table", t, ok, fi.where,
                           "a class's %s must be its own, newly made table" % t)
            continue
        el = ("elem", its[0].val, 0)
        for name, table, short in NAMES:
            for allowed in (True, False):
                env = {el: name, its[0].val: [name]}
                for e in events(p, "call"):
                    if e.name == "check_protocol":
                        env[e.res] = allowed
                    elif e.name in ("callable", "hasattr"):
                        env[e.res] = True
                    elif e.name == "getattr":
                        env[A(e.res, "__doc__")] = "doc"
                ok, open_ = consistent(ctx, p, env)
                if not ok or p.kind != "return":
                    continue
                inst = "%s %s" % (name, "allowed" if allowed else "not allowed")
                adds = [e for e in events(p, "setitem")]
                upd = [e for e in events(p, "call") if e.name in ("update", "setdefault")]
                if upd:
                    ctx.ob("registration", inst, None, fi.where, "")
                    continue
                want = [(table, short)] if table and allowed else []
                got, unk = [], False
                for e in adds:
                    t = _table(p, mcs, e.base)
                    known, k = value(ctx, e.extra, env)
                    if t is None or not known:
                        unk = True
                    got.append((t, k))
                    chk = [c for c in events(p, "call") if c.name == "check_protocol"]
                    for c in chk:
                        a = c.allargs()
                        ctx.ob("registration", "handler checked is handler added", bool(
                            a) and a[-1] == e.val or (None if not a else _same(a[-1], e.val)),
                            fi.where, "%s is checked, %s is added" % (
                                [show(x) for x in a], show(e.val)))
                v = True if got == want else None if unk or open_ else False
                ctx.ob("registration", inst, v, fi.where,
                       "a method called %s %s by check_protocol is entered in %r, not %r" % (
                           name, "allowed" if allowed else "refused", got, want))
    # the plain metaclass allows everything; servers use the filtering one
    for p in ctx.paths(DM + ".check_protocol"):
        ctx.ob("registration", "no filter without protocol", True if is_const(p.val) and
               p.val[2] else None, ctx.where(DM + ".check_protocol"), show(p.val))
    ctx.ob("registration", "server metaclass filters", ctx.p.has_func(DSM + ".check_protocol"),
           fi.where, "")


def _same(a, b):
    """getattr(mcs, name) evaluated twice is the same member."""
    if a[0] == "call" and b[0] == "call" and a[1] == b[1] and a[2] == b[2] and \
            call_name(a) == "getattr":
        return True
    return None


def _table(p, mcs, base):
    for t in TABLES.values():
        if base == A(mcs, t):
            return t
    for e in events(p, "store"):
        if e.base == mcs and e.val == base:
            return e.attr
    return None


def metaclass_of(ctx):
    cls = ctx.p.cls("server.DeviceServerBase")
    found = None
    for b in ast.walk(ast.Module(body=[cls.node], type_ignores=[])):
        if isinstance(b, ast.Call) and getattr(b.func, "id", getattr(b.func, "attr", "")) == \
                "with_metaclass":
            found = getattr(b.args[0], "id", getattr(b.args[0], "attr", None))
            break
    for k in cls.node.keywords:
        if k.arg == "metaclass":
            found = getattr(k.value, "id", getattr(k.value, "attr", None))
    ctx.ob("registration", "servers use the filtering metaclass",
           None if found is None else found == "DeviceServerMetaclass", cls.module.path,
           "DeviceServerBase has metaclass %s" % found)


VERSIONS = [(4, 0), (5, 0), (5, 1), (6, 0), (4, 9)]
MINS = [None, (4, 0), (5, 0), (5, 1), (5, 2), (6, 0), (4, 5)]
FLAGS = [set(), {b"I"}, {b"M", b"I"}, {b"T"}, {b"M", b"I", b"T"}, {b"B", b"T"}]
REQ = [None, (b"T",), (b"T", b"B"), (b"M", b"I", b"T"), ()]


def checking(ctx):
    q = DSM + ".check_protocol"
    fi = ctx.p.func(q)
    mcs, h = P(fi.params[0]), P(fi.params[1])
    ps = ctx.paths(q, loop_max=3, max_paths=4000, no_fork_raise=True)
    pi = A(mcs, "PROTOCOL_INFO")
    for v in VERSIONS:
        for m in MINS:
            for fl in FLAGS:
                for rq in REQ:
                    env = {A(pi, "major"): v[0], A(pi, "minor"): v[1], A(pi, "flags"): fl,
                           A(h, "_minimum_katcp_version"): m,
                           A(h, "_has_katcp_protocol_flags"): rq}
                    # supports() is membership in the flags (checked below)
                    for p in ps:
                        for t in _supports(p, pi):
                            k, x = value(ctx, t[2][0], env)
                            if k:
                                env[t] = x in fl
                    want = (m is None or v >= m) and (rq is None or set(rq) <= fl)
                    inst = "%d.%d-%s min=%s flags=%s" % (
                        v[0], v[1], b"".join(sorted(fl)).decode(), m,
                        rq if rq is None else b"".join(rq).decode())
                    res = []
                    for p in ps:
                        ok, open_ = consistent(ctx, p, env)
                        if not ok or p.kind == "cut":
                            continue
                        if p.kind == "raise":
                            res.append(None if open_ else "raise")
                            continue
                        try:
                            res.append(None if open_ and bool(ev(ctx, p.val, env)) != want else
                                       bool(ev(ctx, p.val, env)))
                        except Unknown:
                            res.append(None)
                    vd = None if None in res or not res else all(r is want for r in res)
                    ctx.ob("check", inst, vd, fi.where, "a handler with minimum %s and flags %s "
                           "under protocol %s.%s with flags %s: %r, not %r" % (
                               m, rq, v[0], v[1], sorted(fl), res, want))


def _supports(p, pi):
    out = []
    for e in p.events:
        for x in (e.extra, e.val, e.res if e.kind == "call" else None):
            if isinstance(x, tuple):
                out += [t for t in subterms(x) if isinstance(t, tuple) and t and
                        t[0] == "call" and t[1] == A(pi, "supports") and len(t[2]) == 1]
    if isinstance(p.val, tuple):
        out += [t for t in subterms(p.val) if t and t[0] == "call" and
                t[1] == A(pi, "supports") and len(t[2]) == 1]
    return out


def decorators(ctx):
    for inst, src, attr, want in (
            ("minimum_katcp_version", "def probe_min(handler, major, minor):\n"
             "    return minimum_katcp_version(major, minor)(handler)\n",
             "_minimum_katcp_version", ("tuple", (P("major"), P("minor")))),
            ("minimum_katcp_version default minor", "def probe_min0(handler, major):\n"
             "    return minimum_katcp_version(major)(handler)\n",
             "_minimum_katcp_version", ("tuple", (P("major"), const(0)))),
            ("has_katcp_protocol_flags", "def probe_flags(handler, flags):\n"
             "    return has_katcp_protocol_flags(flags)(handler)\n",
             "_has_katcp_protocol_flags", P("flags"))):
        q = ctx.probe("kattypes", src)
        w = ctx.where("kattypes." + inst.split()[0])
        for p in ctx.paths(q):
            if p.kind == "raise":
                ctx.ob("decorator", inst + " raises", None, w, path_str(p))
                continue
            if p.kind != "return":
                continue
            st = [e for e in events(p, "store") if e.base == P("handler") and e.attr == attr]
            ctx.ob("decorator", inst, False if not st else True if _copy(st[-1].val) == want
                   else (False if is_const(st[-1].val) or st[-1].val[0] == "tuple" and
                         {P("major"), P("minor")} & set(st[-1].val[1]) else None), w,
                   "the restriction must be kept on the handler as %s: %s" % (
                       attr, [show(e.val) for e in st]))
            ctx.ob("decorator", inst + " returns the handler", True if p.val == P("handler")
                   else False if p.val == NONE else None, w, show(p.val))
    # decorators that wrap a handler keep its attributes
    for name in ("request", "return_reply", "send_reply"):
        q = "kattypes." + name
        fi = ctx.p.func(q)
        nested = [n for n in ast.walk(fi.node) if isinstance(n, ast.FunctionDef) and
                  n is not fi.node]
        inner = [n for n in nested if not any(isinstance(x, ast.FunctionDef) for x in
                                              ast.walk(n) if x is not n)]
        ctx.ob("wrapping", name + " analysed", bool(inner) or None, fi.where, "")
        calls = [c for c in ast.walk(fi.node) if isinstance(c, ast.Call)]
        upd = [c for c in calls if getattr(c.func, "id", getattr(c.func, "attr", "")) in (
            "update_wrapper", "wraps", "partial")]
        other = any(isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__wrapped__")
                    for x in ast.walk(fi.node))
        for n in inner:
            deco = [d for d in n.decorator_list if isinstance(d, ast.Call) and
                    getattr(d.func, "id", getattr(d.func, "attr", "")) == "wraps"]
            late = [c for c in upd if c.args and isinstance(c.args[0], ast.Name) and
                    c.args[0].id == n.name and c.func and getattr(
                        c.func, "id", getattr(c.func, "attr", "")) == "update_wrapper"]
            unl = [d for d in n.decorator_list if d not in deco]
            ok = bool(deco or late) and not any(
                k.arg == "updated" for d in deco + late for k in d.keywords)
            if not ok and (unl or other or upd and not (deco or late)):
                ok = None
            ctx.ob("wrapping", "%s keeps the handler's restrictions (%s)" % (name, n.name), ok,
                   "%s:%d" % (ctx.p.modules["kattypes"].path, n.lineno),
                   "@%s must carry the attributes of the handler it wraps" % name)


BUILTIN = {"server.DeviceServer.request_version_list": ("minimum_katcp_version", (5, 0)),
           "server.DeviceServer.request_request_timeout_hint":
               ("has_katcp_protocol_flags", {b"T"})}


def builtin(ctx):
    flags = {n: ctx.cconst("core.ProtocolFlags", n) for n in (
        "MULTI_CLIENT", "MESSAGE_IDS", "REQUEST_TIMEOUT_HINTS", "BULK_SET_SENSOR_SAMPLING")}
    want = {"MULTI_CLIENT": b"M", "MESSAGE_IDS": b"I", "REQUEST_TIMEOUT_HINTS": b"T",
            "BULK_SET_SENSOR_SAMPLING": b"B"}
    for n in want:
        ctx.ob("flags", n, flags[n] == want[n], ctx.p.cls("core.ProtocolFlags").module.path,
               "%s is %r" % (n, flags[n]))
    for q, (deco, w) in sorted(BUILTIN.items()):
        fi = ctx.p.func(q)
        ds = [d for d in fi.node.decorator_list if isinstance(d, ast.Call) and getattr(
            d.func, "id", getattr(d.func, "attr", "")) == deco]
        if not ds:
            ctx.ob("builtin", q, False if all(_known_deco(d) for d in fi.node.decorator_list)
                   else None, fi.where, "%s must be restricted by %s" % (fi.name, deco))
            continue
        got = None
        try:
            if deco == "minimum_katcp_version":
                a = [ast.literal_eval(x) for x in ds[0].args]
                a += [ast.literal_eval(k.value) for k in ds[0].keywords]
                got = tuple((a + [0])[:2])
            else:
                x = ds[0].args[0]
                if isinstance(x, (ast.List, ast.Tuple, ast.Set)):
                    got = {flags[e.attr] for e in x.elts}
        except (ValueError, KeyError, AttributeError, IndexError):
            got = None
        ctx.ob("builtin", q, None if got is None else got == w, fi.where,
               "%s is restricted to %r, not %r" % (fi.name, got, w))


def _known_deco(d):
    d = d.func if isinstance(d, ast.Call) else d
    return getattr(d, "id", getattr(d, "attr", "")) in (
        "request", "return_reply", "coroutine", "minimum_katcp_version", "concurrent_reply",
        "has_katcp_protocol_flags", "request_timeout_hint", "send_reply", "inform")


def tables(ctx):
    # nothing else fills or replaces the tables of a server
    ok_q = {DM + ".__init__"}
    for t in TABLES.values():
        for fq, node in attr_stores(ctx, t):
            fq = getattr(fq, "qual", fq)
            if fq.split(".")[0] in ("testutils", "fake_clients"):
                continue
            ctx.ob("tables", "%s set in %s" % (t, fq), True if fq in ok_q else
                   None if fq not in BASELINE else False, getattr(
                       node, "lineno", ""), "the handler tables are made by the metaclass only")
        for fq, fi in sorted(ctx.p.functions.items()):
            if fi.module.name in ("testutils", "fake_clients"):
                continue
            for n in walk_own(fi.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and \
                        isinstance(n.value, ast.Attribute) and n.value.attr == t or \
                        isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in ("update", "setdefault") and isinstance(
                            n.func.value, ast.Attribute) and n.func.value.attr == t:
                    ctx.ob("tables", "%s filled in %s" % (t, fq), True if fq in ok_q else
                           None if fq not in BASELINE else False,
                           "%s:%d" % (fi.module.path, n.lineno),
                           "a handler is entered without asking check_protocol")
    # dispatch and help look nowhere else
    for meth, t in (("handle_request", "_request_handlers"),
                    ("handle_inform", "_inform_handlers"), ("handle_reply", "_reply_handlers")):
        q = "server.DeviceServerBase." + meth
        fi = ctx.p.func(q)
        msg = P(fi.params[-1])
        tab = S(t)
        c = {True: 0, False: 0}
        for p in ctx.paths(q, opaque={"core.Message.*"}):
            inn = None
            for e in events(p, "cond"):
                x = e.extra
                if x[0] == "in" and x[1] == A(msg, "name") and _is_tab(x[2], t):
                    inn = e.val
                    break
                if x[0] == "is" and x[2] == NONE and call_name(x[1]) == "get" and uses(
                        x[1], tab):
                    inn = not e.val
                    break
            if inn is None:
                if any(e.kind == "exc" and isinstance(e.extra, tuple) and uses(e.extra, tab)
                       for e in p.events):
                    inn = False
            calls = [e for e in events(p, "call") if e.target is None or True]
            calls = [e for e in calls if _dynamic(e, t)]
            if inn is None:
                ctx.ob("dispatch", meth, None, fi.where, path_str(p))
                continue
            c[inn] += 1
            if inn:
                continue
            got = [e for e in events(p, "call") if e.name == "getattr" or _dynamic(e, t)]
            ctx.ob("dispatch", meth + " of a name not offered", False if got else True,
                   fi.where, "a name that is not in %s must not reach a handler: %s" % (
                       t, path_str(p)))
            if meth == "handle_request" and p.kind == "return":
                rep = [e for e in events(p, "call") if e.name in ("reply",) and
                       e.recv != ("class", "core.Message") and "Message" not in str(e.recv)]
                ok = None
                for e in rep:
                    m = as_msg(e.allargs()[0]) if e.allargs() else None
                    if m and m.args:
                        a = m.args[0]
                        ok = is_const(a) and a[2] in ("invalid", b"invalid")
                ctx.ob("dispatch", "a request not offered is refused as invalid", ok, fi.where,
                       path_str(p))
        ctx.ob("dispatch", meth + " analysed", True if c[True] and c[False] else None, fi.where,
               repr(c))


def _is_tab(t, name):
    return t == S(name) or t[0] == "call" and call_name(t) == "keys" and uses(t, S(name)) or \
        t[0] == "cattr" and t[2] == name


def _dynamic(e, t):
    """A call of something looked up at run time."""
    f = e.f
    return isinstance(f, tuple) and f and f[0] == "item" or isinstance(f, tuple) and f and \
        f[0] == "call" and call_name(f) in ("getattr", "get")


def _pinfo(major, minor, flags=frozenset()):
    env = {}
    for b in (S("PROTOCOL_INFO"), ("cattr", "server.DeviceServerBase", "PROTOCOL_INFO"),
              ("cattr", "server.DeviceServer", "PROTOCOL_INFO")):
        env[A(b, "major")] = major
        env[A(b, "minor")] = minor
        env[A(b, "flags")] = set(flags)
    return env


def _is_pinfo(t):
    if t[0] == "call" and call_name(t) in ("str", "bytes") and len(t[2]) == 1:
        t = t[2][0]
    return t == S("PROTOCOL_INFO") or t[0] == "cattr" and t[2] == "PROTOCOL_INFO"


def _is_lib(t):
    if is_const(t):
        return False
    if t[0] == "bin" and t[1] in ("Mod", "Add") and is_const(t[2]):
        f = t[2][2]
        f = f.decode() if isinstance(f, bytes) else f
        return (f == ("katcp-python-%s" if t[1] == "Mod" else "katcp-python-")) and \
            "__version__" in repr(t[3])
    if t[0] == "call" and call_name(t) == "format":
        return True if is_const(t[1][1]) and t[1][1][2] == "katcp-python-{}" and \
            "__version__" in repr(t[2]) else None
    return None


def _is_call(t, name):
    return t[0] == "call" and call_name(t) == name and call_recv(t) == SELF


def connecting(ctx):
    q = "server.DeviceServer.on_client_connect"
    fi = ctx.p.func(q)
    cc = P(fi.params[1])
    ps = ctx.paths(q, opaque={"server.DeviceServer.version", "server.DeviceServer.build_state",
                              "core.Message.*"}, loop_max=3)
    for major, minor in ((4, 0), (5, 0), (5, 1), (6, 0)):
        n = 0
        for p in ps:
            env = _pinfo(major, minor)
            env[A(S("_server"), "ioloop_thread_id")] = 1
            env.update((e.res, 1) for e in events(p, "call") if e.name in (
                "get_ident", "get_thread_ident"))
            ok, open_ = consistent(ctx, p, env)
            if not ok or p.kind != "return":
                continue
            n += 1
            got, unk = {}, False
            for e in events(p, "call"):
                if e.name in ("inform", "mass_inform", "reply_inform", "send_message") and \
                        e.recv != ("class", "core.Message") and e.allargs():
                    m = as_msg(e.allargs()[0])
                    if m is None or not is_const(m.name):
                        unk = True
                        continue
                    nm = m.name[2]
                    nm = nm.decode() if isinstance(nm, bytes) else nm
                    a = list(m.args)
                    if nm == "version-connect" and a and is_const(a[0]):
                        k = a[0][2]
                        nm += " " + (k.decode() if isinstance(k, bytes) else k)
                        a = a[1:]
                    got.setdefault(nm, []).append((e.recv, a))
            exp = {"version-connect katcp-protocol": [_is_pinfo],
                   "version-connect katcp-library": [_is_lib],
                   "version-connect katcp-device": [lambda t: _is_call(t, "version"),
                                                    lambda t: _is_call(t, "build_state")]} \
                if major >= 5 else {"version": [lambda t: _is_call(t, "version")],
                                    "build-state": [lambda t: _is_call(t, "build_state")]}
            for nm in sorted(set(exp) | set(got)):
                inst = "katcp %d.%d %s" % (major, minor, nm)
                if nm not in exp:
                    ctx.ob("connect", inst, False if nm.startswith((
                        "version", "build-state")) and not open_ else None, fi.where,
                        "a client of a katcp %d server is sent #%s" % (major, nm))
                    continue
                if nm not in got:
                    ctx.ob("connect", inst, None if unk or open_ else False, fi.where,
                           "a connecting client of a katcp %d server is not sent #%s: %s" % (
                               major, nm, path_str(p)))
                    continue
                ok = True
                for recv, a in got[nm]:
                    if recv != cc:
                        ok = None
                    elif any(x[0] == "star" for x in a):
                        ok = None
                    elif len(a) != len(exp[nm]):
                        ok = False
                    elif ok:
                        r = [f(x) for f, x in zip(exp[nm], a)]
                        ok = None if None in r else all(r) or (
                            False if any(is_const(x) or _is_call(x, "version") or _is_call(
                                x, "build_state") for x in a) else None)
                if ok and len(got[nm]) != 1:
                    ok = False
                ctx.ob("connect", inst, ok, fi.where, "#%s is sent as %r" % (
                    nm, [[show(x) for x in a] for r, a in got[nm]]))
        ctx.ob("connect", "katcp %d.%d analysed" % (major, minor), True if n else None,
               fi.where, "")
    k = ctx.const("core", "VERSION_CONNECT_KATCP_MAJOR")
    ctx.ob("connect", "version-connect starts at katcp 5", k == 5, fi.where, repr(k))


def flags(ctx):
    PF = "core.ProtocolFlags"
    q = PF + ".__init__"
    fi = ctx.p.func(q)
    names = {"multi_client": b"M", "message_ids": b"I", "request_timeout_hints": b"T",
             "bulk_set_sensor_sampling": b"B"}
    ps = ctx.paths(q, no_fork_raise=True, max_paths=4000)
    for major, minor in ((4, 0), (4, 2), (5, 0), (5, 1), (5, 2), (6, 0), (None, None)):
        for fl in (set(), {b"I"}, {b"M"}, {b"M", b"I"}, {b"T"}, {b"B"}, {b"M", b"I", b"T"},
                   {b"M", b"I", b"T", b"B"}, {b"I", b"X"}):
            env = {P(fi.params[1]): major, P(fi.params[2]): minor, P(fi.params[3]): fl}
            v = (major or 0, minor or 0)
            bad = b"I" in fl and v[0] < 5 or (b"T" in fl or b"B" in fl) and v < (5, 1)
            inst = "%s.%s-%s" % (major, minor, b"".join(sorted(fl)).decode())
            n = 0
            for p in ps:
                ok, open_ = consistent(ctx, p, env)
                if not ok or p.kind == "cut":
                    continue
                n += 1
                if p.kind == "raise":
                    ctx.ob("flags", inst, True if bad else None if open_ else False, fi.where,
                           "flags %s are refused for katcp %s.%s" % (sorted(fl), major, minor))
                    continue
                ctx.ob("flags", inst, True if not bad else None if open_ else False, fi.where,
                       "flags %s are accepted for katcp %s.%s, which does not have them" % (
                           sorted(fl), major, minor))
                if bad:
                    continue
                st = {}
                for e in events(p, "store"):
                    if e.base == SELF:
                        st[e.attr] = e.val
                for a, want in [("major", v[0]), ("minor", v[1]), ("flags", fl)] + [
                        (x, c in fl) for x, c in sorted(names.items())]:
                    if a not in st:
                        ctx.ob("flags", "%s of %s" % (a, inst), None, fi.where, "")
                        continue
                    known, got = value(ctx, st[a], env)
                    ctx.ob("flags", "%s of %s" % (a, inst), None if not known else
                           got == want if a != "flags" else set(got) == want, fi.where,
                           "%s of katcp %s is %r" % (a, inst, got))
            ctx.ob("flags", inst + " analysed", True if n else None, fi.where, "")
    # the written form
    q = PF + ".__str__"
    fi = ctx.p.func(q)
    for v in ((4, 0), (5, 0), (5, 1), (6, 12)):
        for fl in (set(), {b"M"}, {b"M", b"I"}, {b"B", b"I", b"M", b"T"}):
            env = {S("major"): v[0], S("minor"): v[1], S("flags"): fl}
            want = "%d.%d" % v + ("-" + b"".join(sorted(fl)).decode() if fl else "")
            for p in ctx.paths(q, no_fork_raise=True):
                ok, open_ = consistent(ctx, p, env)
                if not ok or p.kind != "return":
                    continue
                known, got = value(ctx, p.val, env)
                ctx.ob("flags", "written %s" % want, None if not known or open_ else
                       got == want or set(got) == set(want) and got.split("-")[0] == want.split(
                           "-")[0] and len(got) == len(want), fi.where,
                       "katcp %s is told as %r" % (want, got))
    q = PF + ".supports"
    fi = ctx.p.func(q)
    for p in ctx.paths(q):
        for fl, f in (({b"I"}, b"I"), ({b"I"}, b"M"), (set(), b"I"), ({b"M", b"T"}, b"T")):
            ok, open_ = consistent(ctx, p, {S("flags"): fl, P(fi.params[1]): f})
            if ok and p.kind == "return":
                known, got = value(ctx, p.val, {S("flags"): fl, P(fi.params[1]): f})
                ctx.ob("flags", "supports", None if not known else bool(got) == (f in fl),
                       fi.where, show(p.val))


def client_ids(ctx):
    """A client sends no message id to a server whose protocol has none."""
    q = "client.DeviceClient.send_request"
    fi = ctx.p.func(q)
    msg = P(fi.params[1])
    n = 0
    for p in ctx.paths(q, no_fork_raise=True, opaque={"client.DeviceClient.send_message"}):
        sent = [e for e in events(p, "call") if e.name in ("send_message", "_send_message")]
        if not sent:
            continue
        n += 1
        for sup in (False, True, None):
            env = {A(msg, "mid"): b"1", S("_server_supports_ids"): sup,
                   A(msg, "mtype"): ctx.cconst("core.Message", "REQUEST")}
            ok, open_ = consistent(ctx, p, env)
            ctx.ob("client-ids", "id, server support %s" % sup, True if sup or not ok else
                   None if open_ else False, fi.where,
                   "a message id is sent to a server that has none: %s" % path_str(p))
    ctx.ob("client-ids", "analysed", True if n else None, fi.where, "")


def _copy(t):
    """A term behind tuple()/set()/frozenset()/list() copies."""
    while t[0] == "call" and call_name(t) in ("tuple", "set", "frozenset", "list") and len(
            t[2]) == 1 and t[2][0] == P("flags"):
        t = t[2][0]
    return t


PARTS = [metaclass, metaclass_of, checking, decorators, builtin, tables, connecting, flags,
         client_ids]
