"""Constant folding and guarded-conversion analysis: the status, type and symbol tables are
folded from source and compared with the protocol's tables and with each other in both
directions.  Every path that converts a timestamp or sampling period is classified by its
protocol-version guard (v5 and later: seconds, before: milliseconds) and the conversion
factor on that path must match.  Version plumbing is checked by value flow: inside any
function that has a protocol version in scope, every call of a version-dependent codec is
passed that version."""
import ast

from ..consteval import CallTerm, Sym
from ..engine import NONE, const, cval, is_const, show, subterms
from ..lib import (A, P, S, SELF, arg, as_msg, call_name, call_recv, events, has, path_str,
                   returns, tested, unret, uses)
from ..program import AnalysisError

MIN_OBLIGATIONS = 60

STATUSES = ["unknown", "nominal", "warn", "error", "failure", "unreachable", "inactive"]
TYPES = {"INTEGER": "integer", "FLOAT": "float", "BOOLEAN": "boolean", "LRU": "lru",
         "DISCRETE": "discrete", "STRING": "string", "TIMESTAMP": "timestamp",
         "ADDRESS": "address"}


def _clsname(v):
    if isinstance(v, Sym):
        return v.name.split(".")[-1]
    return getattr(v, "qual", str(v)).split(".")[-1]


def tables(ctx):
    c = lambda n: ctx.cconst("core.Sensor", n)
    w = ctx.p.cls("core.Sensor").module.path
    nums = [c(s.upper()) for s in STATUSES]
    ctx.ob("status-table", "status numbers distinct", len(set(nums)) == len(nums), w,
           "status constants are %r" % nums)
    want = dict(zip(nums, STATUSES))
    raw = {k: v.encode() for k, v in want.items()}
    for n, ref in (("STATUSES", want), ("STATUSES_RAW", raw),
                   ("STATUS_NAMES", {v: k for k, v in want.items()}),
                   ("STATUS_NAMES_RAW", {v: k for k, v in raw.items()})):
        try:
            got = c(n)
        except AnalysisError as e:
            ctx.ob("status-table", n, None, w, str(e))
            continue
        if not isinstance(got, dict) or any(isinstance(x, (Sym, CallTerm))
                                            for x in list(got) + list(got.values())):
            ctx.ob("status-table", n, None, w, "not folded: %r" % (got,))
            continue
        for k in sorted(set(ref) | set(got), key=repr):
            ctx.ob("status-table", "%s[%r]" % (n, k), got.get(k) == ref.get(k), w,
                   "%s maps %r to %r, the protocol says %r" % (n, k, got.get(k),
                                                                ref.get(k)))
    tnums = {n: c(n) for n in TYPES}
    ctx.ob("type-table", "type numbers distinct", len(set(tnums.values())) == len(tnums), w,
           "sensor type constants are %r" % tnums)
    tt = c("SENSOR_TYPES")
    for n, k in tnums.items():
        v = tt.get(k)
        cn = _clsname(v[0]) if v else None
        nm = None
        if cn and "kattypes.%s" % cn in ctx.p.classes:
            nm = ctx.cconst("kattypes.%s" % cn, "name")
        ctx.ob("type-table", "SENSOR_TYPES[%s]" % n, nm == TYPES[n], w,
               "sensor type %s uses codec %s named %r, expected %r" % (n, cn, nm,
                                                                      TYPES[n]))
    try:
        look = c("SENSOR_TYPE_LOOKUP")
        if any(isinstance(x, (Sym, CallTerm)) for x in look):
            ctx.ob("type-table", "SENSOR_TYPE_LOOKUP", None, w, "not folded")
        else:
            ref = {TYPES[n]: k for n, k in tnums.items()}
            for k in sorted(set(ref) | set(look)):
                ctx.ob("type-table", "SENSOR_TYPE_LOOKUP[%r]" % k,
                       look.get(k) == ref.get(k), w, "type name %r maps to %r"
                       % (k, look.get(k)))
    except AnalysisError as e:
        ctx.ob("type-table", "SENSOR_TYPE_LOOKUP", None, w, str(e))
    sc = c("SENSOR_SHORTCUTS")
    ref = {"int": "INTEGER", "float": "FLOAT", "str": "STRING", "bool": "BOOLEAN"}
    for k, v in sc.items():
        ctx.ob("type-table", "SENSOR_SHORTCUTS[%s]" % _clsname(k),
               ref.get(_clsname(k)) is not None and v == tnums[ref[_clsname(k)]], w,
               "shortcut %s maps to %r" % (_clsname(k), v))
    m = lambda n: ctx.cconst("core.Message", n)
    kinds = {n: m(n) for n in ("REQUEST", "REPLY", "INFORM")}
    ctx.ob("message-table", "types distinct", len(set(kinds.values())) == 3, w, "")
    sym = dict(zip((kinds["REQUEST"], kinds["REPLY"], kinds["INFORM"]), (b"?", b"!", b"#")))
    names = {v: k for k, v in kinds.items()}
    for n, ref in (("TYPE_SYMBOLS", sym), ("TYPE_NAMES", names),
                   ("TYPE_SYMBOL_LOOKUP", {v: k for k, v in sym.items()})):
        got = m(n)
        ctx.ob("message-table", n, got == ref, w, "Message.%s is %r" % (n, got))
    lv = ctx.cconst("kattypes.Lru", "LRU_VALUES")
    lc = ctx.cconst("kattypes.Lru", "LRU_CONSTANTS")
    n0, e0 = ctx.cconst("kattypes.Lru", "LRU_NOMINAL"), ctx.cconst("kattypes.Lru",
                                                                   "LRU_ERROR")
    ctx.ob("lru-table", "LRU_VALUES", lv == {n0: b"nominal", e0: b"error"} and n0 != e0, w,
           "LRU_VALUES is %r" % (lv,))
    ctx.ob("lru-table", "LRU_CONSTANTS", lc == {v: k for k, v in lv.items()}, w,
           "LRU_CONSTANTS is %r" % (lc,))
    for n, v in (("SEC_TO_MS_FAC", 1000), ("MS_TO_SEC_FAC", 0.001),
                 ("SEC_TS_KATCP_MAJOR", 5), ("MID_KATCP_MAJOR", 5),
                 ("FLOAT_TS_KATCP_MAJOR", 4), ("VERSION_CONNECT_KATCP_MAJOR", 5),
                 ("INTERFACE_CHANGED_KATCP_MAJOR", 5), ("DEFAULT_KATCP_MAJOR", 5)):
        got = ctx.const("core", n)
        ctx.ob("constants", n, got == v, w, "%s is %r, must be %r" % (n, got, v))


def _outer_versions(fi):
    """Locals of the enclosing functions that are assigned a protocol version."""
    out = set()
    par = fi
    while getattr(par, "parent", None) is not None:
        par = par.parent
        for x in ast.walk(par.node):
            if not isinstance(x, ast.Assign) or len(x.targets) != 1 or not isinstance(
                    x.targets[0], ast.Name):
                continue
            for y in ast.walk(x.value):
                if (isinstance(y, ast.Constant) and y.value == "major") or (isinstance(
                        y, ast.Attribute) and y.attr == "major") or (isinstance(
                            y, ast.Name) and (y.id == "major" or y.id in out)):
                    out.add(x.targets[0].id)
    return out


def _is_version(t, outer=()):
    """A term that denotes a protocol major version."""
    if t[0] == "outer" and t[1] in outer:
        return True
    if t[0] in ("param", "outer") and t[1] in ("major", "katcp_major", "katcp_version"):
        return True
    if t[0] == "attr" and t[2] == "major":
        return True
    if t[0] == "item" and t[1][0] == "attr":
        return False
    return False


def _guard(p, upto=None):
    """Version interval known on a path: (low, high) exclusive high."""
    lo, hi = 0, 99
    for e in p.events[:upto]:
        if e.kind != "cond":
            continue
        a = e.extra
        if a[0] in ("lt", "eq") and len(a) == 3:
            x, y = a[1], a[2]
            if _is_version(x) and is_const(y) and isinstance(y[2], int):
                k = y[2]
                if a[0] == "lt":
                    lo, hi = (lo, min(hi, k)) if e.val else (max(lo, k), hi)
                elif e.val:
                    lo, hi = max(lo, k), min(hi, k + 1)
            elif _is_version(y) and is_const(x) and isinstance(x[2], int):
                k = x[2]
                if a[0] == "lt":     # k < v
                    lo, hi = (max(lo, k + 1), hi) if e.val else (lo, min(hi, k + 1))
                elif e.val:
                    lo, hi = max(lo, k), min(hi, k + 1)
        elif a[0] == "isinstance":
            continue
    return lo, hi


def _scale(t, ctx):
    """Net factor applied to the value: 'ms', 's' (seconds to ms conversions)."""
    f = 1.0
    for x in subterms(t):
        if x[0] == "bin" and x[1] in ("Mult", "Div", "FloorDiv"):
            for y, right in ((x[2], False), (x[3], True)):
                if y[0] == "gconst":
                    try:
                        y = const(ctx.const(y[1], y[2]))
                    except AnalysisError:
                        continue
                if is_const(y) and isinstance(y[2], (int, float)) and \
                        not isinstance(y[2], bool) and y[2]:
                    if x[1] == "Mult":
                        f *= y[2]
                    elif right:
                        f /= y[2]
    return f


def _truncated(t, ctx):
    """Is the value cut to an integer before it is scaled up?"""
    for x in subterms(t):
        if x[0] == "bin" and x[1] == "Mult":
            for y in x[2:4]:
                for z in subterms(y):
                    if z[0] == "call" and call_name(z) in ("int", "round", "floor", "trunc",
                                                           "ceil") and len(z[2]) == 1:
                        return True
                    if z[0] == "bin" and z[1] == "FloorDiv":
                        return True
    return False


def conversions(ctx):
    for q, ms in (("kattypes.Timestamp.encode", 1000.0),
                  ("kattypes.Timestamp.decode", 0.001),
                  ("client.DeviceClient.convert_seconds", 1000.0)):
        w = ctx.where(q)
        n = 0
        covered = set()
        for p in returns(ctx.paths(q)):
            lo, hi = _guard(p)
            if lo >= hi:
                continue
            n += 1
            f = _scale(p.val, ctx)
            vals = [v for v in (4, 5) if lo <= v < hi]
            for v in vals:
                covered.add(v)
                want = ms if v < 5 else 1.0
                ctx.ob("timestamp-scale", "%s v%d" % (q, v), abs(f - want) < 1e-9, w,
                       "for protocol version %d %s scales the time by %g, expected %g"
                       % (v, q, f, want))
            ctx.ob("timestamp-scale", "%s keeps fractions" % q,
                   not _truncated(p.val, ctx), w,
                   "%s cuts the time to whole units before scaling it: %s"
                   % (q, show(p.val)))
            src = ctx.p.func(q).params[1]
            ctx.ob("timestamp-scale", "%s converts its argument" % q,
                   uses(p.val, P(src)), w, "returns %s" % show(p.val))
        ctx.ob("timestamp-scale", "%s covers both versions" % q, {4, 5} <= covered, w,
               "versions handled: %s" % sorted(covered))
    q = "server.DeviceServerBase.create_log_inform"
    w = ctx.where(q)
    for p in returns(ctx.paths(q, opaque={"core.Message.*"})):
        g = as_msg(p.val)
        if g is None or len(g.args) < 2:
            ctx.ob("timestamp-scale", "log inform", None, w, show(p.val))
            continue
        lo, hi = _guard(p)
        f = _scale(g.args[1], ctx)
        for v in (4, 5):
            if lo <= v < hi:
                want = 1000.0 if v < 5 else 1.0
                ctx.ob("timestamp-scale", "log inform v%d" % v, abs(f - want) < 1e-9, w,
                       "log timestamps are scaled by %g in version %d" % (f, v))
        ctx.ob("timestamp-scale", "log inform keeps fractions",
               not _truncated(g.args[1], ctx), w, "timestamp is %s" % show(g.args[1]))
        given = p.facts.get(("is", P("timestamp"), NONE))
        ok = uses(g.args[1], P("timestamp")) or has(
            g.args[1], lambda x: x[0] == "call" and call_name(x) == "time")
        ctx.ob("timestamp-scale", "log inform time", ok, w, "timestamp is %s"
               % show(g.args[1]))
        if given is False:
            ctx.ob("timestamp-scale", "log inform uses the given time",
                   uses(g.args[1], P("timestamp")), w, "a given timestamp is replaced")


CODECS = {"encode", "decode", "pack", "unpack", "check", "parse_value", "read_formatted",
          "format_reading", "set_formatted", "parse_params", "unpack_types", "pack_types",
          "make_reply", "async_make_reply", "_formatter", "_parser", "Parameter"}


def _codec_call(e):
    """Is this a call of a version-dependent codec (and not bytes.decode)?"""
    if e.kind != "call" or e.name not in CODECS:
        return False
    if e.name in ("make_reply", "async_make_reply") and e.f[0] not in ("func",):
        return False          # method of the request connection
    if e.name in ("encode", "decode"):
        # str.encode/bytes.decode take a codec name only
        al = e.allargs()
        if not al or (is_const(al[0]) and isinstance(al[0][2], str)):
            return False
        return True
    if e.name in ("pack", "unpack") and e.recv is not None and \
            e.recv in (("ext", "struct"), ("module", "struct")):
        return False
    if e.target and e.target.startswith("struct."):
        return False
    if e.f and e.f[0] == "ext":
        return False
    return True


def plumbing(ctx):
    """Version-dependent calls are passed the version in force."""
    n = 0
    for q, fi in sorted(ctx.p.functions.items()):
        mod = q.split(".")[0]
        if mod not in ("core", "kattypes", "server", "sampling", "inspecting_client",
                       "resource_client", "client", "resource"):
            continue
        own = [x for x in ast.walk(fi.node) if isinstance(x, ast.Call)]
        names = {x.func.attr if isinstance(x.func, ast.Attribute) else
                 getattr(x.func, "id", None) for x in own}
        if not (names & CODECS):
            continue
        inscope = [a for a in fi.params if a in ("major", "katcp_major", "katcp_version")]
        par = fi
        outer = False
        while getattr(par, "parent", None) is not None:
            par = par.parent
            outer = True
        outers = _outer_versions(fi)
        src = ast.unparse(fi.node) if not outer else ast.unparse(par.node)
        scoped = bool(inscope) or "major" in src
        if not scoped:
            continue
        try:
            pths = ctx.paths(q, loop_max=1, max_paths=2000,
                             opaque={"core.*", "kattypes.*", "server.*", "sampling.*",
                                     "compat.*", "inspecting_client.*", "resource.*"})
        except AnalysisError as e:
            ctx.ob("version-passed", q, None, ctx.where(q), str(e))
            continue
        if q in ("core.Sensor.__init__", "core.Sensor.__repr__"):
            continue
        for p in pths:
            for e in p.events:
                if not _codec_call(e):
                    continue
                al = e.allargs()
                if "Parameter" in names and e.name in ("pack", "unpack") and len(al) == 1:
                    continue      # the Parameter object carries the version
                n += 1
                okv = [a for a in al if any(_is_version(x, outers) for x in subterms(a))]
                lit = [a for a in al if is_const(a) and a[2] in (4, 5) and
                       not isinstance(a[2], bool)]
                if okv:
                    ok = True
                elif q.startswith("sampling.format_inform_v"):
                    ok = bool(lit) and lit[0][2] == int(q[-1])
                elif any(a[0] == "star" for a in al):
                    ok = None
                elif e.name == "Parameter" and len(al) < 4:
                    ok = False
                else:
                    ok = False
                ctx.ob("version-passed", "%s -> %s" % (q, e.name), ok, e.where,
                       "%s calls %s(%s) without the protocol version in force"
                       % (q, e.name, ", ".join(show(a) for a in al)))
    ctx.ob("version-passed", "sites", n >= 25, "", "only %d codec calls found" % n)
    q = "kattypes.Parameter.__init__"
    for p in returns(ctx.paths(q)):
        st = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
        ctx.ob("version-passed", "Parameter keeps its version",
               st.get("major") == P("major"), ctx.where(q), "")


def sampling_versions(ctx):
    """The sensor-status formatter and period unit used by the sampling request."""
    for v in (4, 5):
        q = "sampling.format_inform_v%d" % v
        if not ctx.p.has_func(q):
            continue
        w = ctx.where(q)
        for p in returns(ctx.paths(q, opaque={"core.*"})):
            g = as_msg(p.val)
            if g is None:
                ctx.ob("status-inform", q, None, w, show(p.val))
                continue
            fr = [e for e in events(p, "call") if e.name == "format_reading"]
            al = g.args
            ok = g.kind == "inform" and g.name == const("sensor-status") and \
                len(al) == 5 and len(fr) >= 1
            if ok:
                r = fr[0].res
                ok = al[0] == ("item", r, const(0)) and is_const(al[1]) and \
                    al[1][2] in ("1", b"1", 1) and al[2] == A(P("sensor"), "name") and \
                    al[3] == ("item", r, const(1)) and al[4] == ("item", r, const(2))
            ctx.ob("status-inform", "%s fields" % q, ok, w,
                   "#sensor-status has %s" % [show(a) for a in al])
            lits = {a[2] for e in fr for a in e.allargs()
                    if is_const(a) and isinstance(a[2], int) and
                    not isinstance(a[2], bool)}
            ctx.ob("status-inform", "%s version" % q, lits == {v} if lits else
                   v == 5 if fr and all(len(e.allargs()) < 2 for e in fr) else None, w,
                   "%s formats the reading for version %s" % (q, sorted(lits)))
    q = "server.DeviceServer.request_sensor_sampling"
    q2 = [x for x in ctx.p.functions if x.startswith("server.DeviceServer.") and
          "sensor_sampling" in x and "<locals>" not in x]
    n = 0
    for q in sorted(q2):
        src = ast.unparse(ctx.p.func(q).node)
        if "get_strategy" not in src:
            continue
        w = ctx.where(q)
        for p in ctx.paths(q, loop_max=1, opaque={"core.*", "kattypes.*", "sampling.*"},
                           max_paths=4000,
                           relevant=lambda e: True):
            lo, hi = _guard(p)
            vers = [v for v in (4, 5) if lo <= v < hi]
            if "bulk" in q:
                vers = [5]
            for e in events(p, "call"):
                if e.name in ("get_strategy",) and len(e.args) >= 3:
                    if is_const(e.args[0]) and e.args[0][2] in ("none", b"none"):
                        continue
                    isperiod = tested(p, lambda a: a[0] == "eq" and
                                      const(b"period") in a[1:], True, e.idx)
                    notperiod = tested(p, lambda a: a[0] == "eq" and
                                       const(b"period") in a[1:], False, e.idx)
                    scaled = any(abs(_scale(a, ctx) - 0.001) < 1e-9 for a in e.args[3:])
                    anyscale = any(abs(_scale(a, ctx) - 1) > 1e-9 for a in e.args[3:])
                    lo2, hi2 = _guard(p, e.idx)
                    n += 1
                    if hi2 <= 5 and isperiod:
                        ctx.ob("period-unit", "v4 periods are milliseconds", scaled,
                               e.where, "a v4 period is passed on as %s"
                               % [show(a) for a in e.args[3:]])
                    elif lo2 >= 5 or notperiod:
                        ctx.ob("period-unit", "v5 parameters are seconds", not anyscale,
                               e.where, "parameters passed on as %s"
                               % [show(a) for a in e.args[3:]])
            fm = [e for e in events(p, "call") if e.name and
                  e.name.startswith("format_inform")]
        # formatter choice: nested callbacks
        for p in ctx.paths(q, loop_max=1, max_paths=4000,
                           opaque={"core.*", "kattypes.*", "sampling.*"}):
            for e in events(p, "call"):
                if e.name != "get_strategy" or len(e.args) < 3:
                    continue
    ctx.ob("period-unit", "strategy creation found", n >= 2, "", "")
    # choice of formatter: conditional expression or statement on the version
    for q in sorted(q2):
        fi = ctx.p.func(q)
        for node in ast.walk(fi.node):
            if not isinstance(node, (ast.IfExp, ast.If)):
                continue
            body = ast.unparse(node.body) if isinstance(node, ast.IfExp) else \
                "\n".join(ast.unparse(b) for b in node.body)
            other = ast.unparse(node.orelse) if isinstance(node, ast.IfExp) else \
                "\n".join(ast.unparse(b) for b in node.orelse)
            bv = {v for v in (4, 5) if "format_inform_v%d" % v in body}
            ov = {v for v in (4, 5) if "format_inform_v%d" % v in other}
            if not (len(bv) == 1 and len(ov) == 1):
                continue
            sense = _cmp_sense(ctx, fi, node.test)
            if sense is None:
                ctx.ob("status-inform", "formatter choice in %s" % q, None, ctx.where(q),
                       ast.unparse(node.test))
                continue
            ctx.ob("status-inform", "formatter choice in %s" % q,
                   sense != "same" and (bv == {5}) == sense and bv != ov, ctx.where(q),
                   "v%d format is used when %s" % (list(bv)[0], ast.unparse(node.test)))


def _cmp_sense(ctx, fi, test):
    """True: test means 'version >= 5'; False: 'version < 5'; None: unknown."""
    neg = False
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test = test.operand
        neg = not neg
    if not isinstance(test, ast.Compare) or len(test.ops) != 1:
        return None

    def val(x):
        if isinstance(x, ast.Constant):
            return x.value
        if isinstance(x, ast.Name):
            for mod in (fi.module.name, "core"):
                try:
                    v = ctx.const(mod, x.id)
                except AnalysisError:
                    continue
                if isinstance(v, int):
                    return v
        return None
    l, r = test.left, test.comparators[0]
    op = type(test.ops[0]).__name__
    k = val(r)
    if k is None:
        k = val(l)
        op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
    if k is None:
        return None
    f = {"Lt": lambda v: v < k, "Gt": lambda v: v > k, "LtE": lambda v: v <= k,
         "GtE": lambda v: v >= k, "Eq": lambda v: v == k,
         "NotEq": lambda v: v != k}.get(op)
    if f is None:
        return None
    r4, r5 = f(4) != neg, f(5) != neg
    if r4 == r5:
        return "same" if any("version" in ast.unparse(x) or "major" in ast.unparse(x)
                             for x in (l, r)) else None
    return r5


def in_force(ctx):
    """The version used on the wire is the one of the protocol in force."""
    for q, name, want in (
            ("server.DeviceServer.request_sensor_value", "read_formatted",
             A(S("PROTOCOL_INFO"), "major")),
            ("inspecting_client.InspectingClientAsync.update_sensor", "set_formatted",
             A(S("katcp_client"), "protocol_flags", "major"))):
        n = 0
        for p in ctx.paths(q, loop_max=1, opaque={"core.*", "kattypes.*",
                                                  "server.construct_name_filter"}):
            for e in events(p, "call"):
                if e.name in (name, "format_reading", "set_formatted", "read_formatted"):
                    n += 1
                    ok = any(uses(a, want) or a == want or has(
                        a, lambda x: x[0] == "attr" and x[2] == "major" and
                        x[1][0] in ("cattr", "attr") and x[1][-1] == want[1][-1])
                        for a in e.allargs())
                    alt = any(_is_version(x) for a in e.allargs() for x in subterms(a))
                    ctx.ob("version-in-force", q, True if ok else (None if alt else False),
                           e.where, "%s(%s)" % (e.name, ", ".join(
                               show(a) for a in e.allargs())))
        ctx.ob("version-in-force", q + " site", n > 0 or None, ctx.where(q), "")


def codec_use(ctx):
    """set_formatted / format_reading pair the right field with the right codec."""
    q = "core.Sensor.format_reading"
    w = ctx.where(q)
    r = P("reading")
    for p in returns(ctx.paths(q)):
        t = p.val
        if t[0] != "tuple" or len(t[1]) != 3:
            ctx.ob("reading-codec", "format_reading", None, w, show(t))
            continue

        def fld(i, n):
            return lambda x: x in (("item", r, const(i)), A(r, n))
        f = list(t[1])
        ok0 = has(f[0], fld(0, "timestamp")) and call_name(f[0]) == "encode" and \
            any("TIMESTAMP_TYPE" in repr(x) for x in subterms(f[0]))
        ok1 = has(f[1], fld(1, "status")) and "STATUSES_RAW" in repr(f[1]) or \
            has(f[1], fld(1, "status")) and "STATUSES" in repr(f[1]) and \
            "encode" in repr(f[1])
        ok2 = has(f[2], fld(2, "value")) and ("_formatter" in repr(f[2]) or
                                              "pack" in repr(f[2]) or
                                              "encode" in repr(f[2]))
        for i, (n, ok) in enumerate((("timestamp", ok0), ("status", ok1),
                                     ("value", ok2))):
            wrong = any(has(f[i], fld(j, m)) for j, m in enumerate(
                ("timestamp", "status", "value")) if j != i)
            ctx.ob("reading-codec", "format_reading %s" % n,
                   True if ok and not wrong else False if wrong else None
                   if not ok and has(f[i], fld(i, n)) and i == 2 else ok, w,
                   "%s is formatted as %s" % (n, show(f[i])))
    q = "core.Sensor.set_formatted"
    w = ctx.where(q)
    for p in returns(ctx.paths(q, opaque={"core.Sensor.set", "core.Sensor.parse_value"})):
        for e in events(p, "call"):
            if e.name != "set" or e.recv != SELF:
                continue
            al = [arg(e, i, n) for i, n in enumerate(("timestamp", "status", "value"))]
            if None in al:
                ctx.ob("reading-codec", "set_formatted", None, e.where, "")
                continue
            ok = call_name(al[0]) == "decode" and "TIMESTAMP_TYPE" in repr(al[0]) and \
                uses(al[0], P("raw_timestamp"))
            ctx.ob("reading-codec", "set_formatted timestamp", ok, e.where,
                   "timestamp decoded as %s" % show(al[0]))
            ok = uses(al[1], P("raw_status")) and "STATUS_NAMES" in repr(al[1])
            ctx.ob("reading-codec", "set_formatted status", ok, e.where,
                   "status decoded as %s" % show(al[1]))
            ok = uses(al[2], P("raw_value")) and call_name(al[2]) in (
                "parse_value", "_parser", "unpack", "decode")
            ctx.ob("reading-codec", "set_formatted value", ok, e.where,
                   "value decoded as %s" % show(al[2]))
    q = "core.Sensor.parse_type"
    for p in ctx.paths(q):
        if p.kind == "raise":
            ctx.ob("reading-codec", "unknown type refused",
                   p.val[1] == "core.KatcpSyntaxError", ctx.where(q),
                   "raises %s" % p.val[1])
    q = "core.Sensor.__init__"
    for p in returns(ctx.paths(q, loop_max=1, max_paths=4000)):
        st = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
        f, u = st.get("_formatter"), st.get("_parser")
        if f is None or u is None:
            ctx.ob("reading-codec", "codec of the sensor", None, ctx.where(q), "")
            continue
        ctx.ob("reading-codec", "formatter packs", f[-1] == "pack" or "pack" in repr(f)
               and "unpack" not in repr(f), ctx.where(q), show(f))
        ctx.ob("reading-codec", "parser unpacks", "unpack" in repr(u), ctx.where(q),
               show(u))


PARTS = [tables, conversions, plumbing, sampling_versions, in_force, codec_use]
