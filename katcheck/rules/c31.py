"""Table agreement and per-level evaluation: the level names, numbers and Python levels are folded
from source and compared in every direction; for every pair of a message's level and the device's
level the paths of the logging methods whose conditions hold are enumerated, and the message must
be sent to the clients exactly when its level is at or above the device's; the same enumeration
over all level names (text and bytes) and over unknown names decides what the log-level request
accepts, stores and replies.  The fields of the inform are traced to their sources, and logging is
evaluated with every kind of text, arguments, timestamp, logger name, Python logger and protocol
version: the inform that reaches the clients is compared with what was logged."""
import itertools

from ..engine import NONE, const, is_const, show, subterms
from ..machine import Tally, Thing, Undecided, World
from ..lib import (A, P, S, SELF, as_msg, call_name, decided, events, has, path_str, returns,
                   uses)
from ..program import AnalysisError
from ..teval import Record, Unknown, consistent, value
from ..walk import Fun, Obj

MIN_OBLIGATIONS = 150
DL = "server.DeviceLogger"
NAMES = ["all", "trace", "debug", "info", "warn", "error", "fatal", "off"]
PY = {"debug": 10, "info": 20, "warn": 30, "error": 40, "fatal": 50}
QUIET = ("ValueError", "FailReply", "str", "get", "make_reply", "setLevel", "log", "join",
         "format", "strip", "mass_inform", "create_log_inform")


def _noraise(e):
    return e.name in QUIET


def _exc_of(e):
    return {"index": "ValueError", "ensure_native_str": "UnicodeDecodeError"}.get(e.name)


def _numbers(ctx):
    return [ctx.cconst(DL, n.upper()) for n in NAMES]


def tables(ctx):
    w = ctx.p.cls(DL).module.path
    nums = _numbers(ctx)
    ctx.ob("tables", "numbers are in order", nums == sorted(set(nums)), w,
           "the level numbers are %r" % nums)
    lv = ctx.cconst(DL, "LEVELS")
    for n, k in zip(NAMES, nums):
        try:
            got = lv[k]
        except (IndexError, KeyError, TypeError):
            got = None
        ctx.ob("tables", "level %s" % n, got == n, w, "level %s (%s) is called %r" % (
            n, k, got))
    ctx.ob("tables", "number of levels", len(lv) == len(NAMES), w, repr(lv))
    try:
        py = ctx.cconst(DL, "PYTHON_LEVEL")
    except AnalysisError as e:
        ctx.ob("tables", "PYTHON_LEVEL", None, w, str(e))
        return
    last = -1
    for n, k in zip(NAMES, nums):
        got = py.get(k)
        ctx.ob("tables", "Python level of %s" % n, isinstance(got, int) and got >= last and
               got == PY.get(n, got), w, "level %s is Python level %r" % (n, got))
        last = got if isinstance(got, int) else last
    ctx.ob("tables", "off is above every message", isinstance(py.get(nums[7]), int) and
           py[nums[7]] > 50, w, "level off is Python level %r" % py.get(nums[7]))
    # from katcp log informs to Python
    q = DL + ".log_to_python"
    fi = ctx.p.func(q)
    lg, msg = P(fi.params[-2]), P(fi.params[-1])
    for n, k in list(zip(NAMES, nums))[1:7]:
        env = {A(msg, "arguments"): [n.encode(), b"1", b"root", b"text"]}
        c = 0
        for p in ctx.paths(q, no_fork_raise=True):
            ok, open_ = consistent(ctx, p, env)
            if not ok or p.kind == "cut":
                continue
            c += 1
            ev = [e for e in events(p, "call") if e.recv == lg and e.name == "log"]
            if not ev:
                ctx.ob("tables", "inform level %s" % n, None if open_ else False, fi.where,
                       path_str(p))
                continue
            known, got = value(ctx, ev[-1].allargs()[0], env)
            ctx.ob("tables", "inform level %s" % n, got == py.get(k) if known else None,
                   fi.where, "a log inform of level %s is logged at Python level %r, not %r"
                   % (n, got, py.get(k)))
        ctx.ob("tables", "inform level %s analysed" % n, c >= 1 or None, fi.where, "")


def sending(ctx):
    nums = _numbers(ctx)
    lv = ctx.cconst(DL, "LEVELS")
    for n, k in list(zip(NAMES, nums))[1:7]:
        for q, env0 in ((DL + "." + n, {}), (DL + ".log", {})):
            fi = ctx.p.func(q)
            if q.endswith(".log"):
                env0 = {P(fi.params[1]): k}
            ps = ctx.paths(q, no_fork_raise=True)
            for setting, c in zip(NAMES, nums):
                env = dict(env0)
                env[S("_log_level")] = c
                cnt = 0
                for p in ps:
                    ok, open_ = consistent(ctx, p, env)
                    if not ok or p.kind != "return":
                        continue
                    cnt += 1
                    snt = [e for e in events(p, "call") if e.name in (
                        "mass_inform", "mass_send_message", "mass_send_message_from_thread")]
                    want = k >= c
                    inst = "%s %s message at level %s" % (
                        "log()" if q.endswith(".log") else "method", n, setting)
                    good = (len(snt) == 1) if want else not snt
                    ctx.ob("sending", inst, good or (None if _lvl_open(ctx, p, env)
                                                     else False), fi.where,
                           "a %s message is sent to clients %d times when the device's level "
                           "is %s (path: %s)" % (n, len(snt), setting, path_str(p)))
                    for e in snt:
                        g = [x for x in events(p, "call") if x.name == "create_log_inform"
                             and x.res == e.allargs()[0]]
                        if not g:
                            ctx.ob("sending", "log inform", None, e.where, "")
                            continue
                        known, got = value(ctx, g[-1].allargs()[0], env)
                        ctx.ob("sending", "a %s inform names its level" % n, got == n or
                               got == n.encode() if known else None, e.where,
                               "a %s message is sent as %r" % (n, got))
                ctx.ob("sending", "%s/%s analysed" % (q, setting), cnt >= 1 or None, fi.where,
                       "")
    _inform(ctx)


def _lvl_open(ctx, p, env):
    """A condition on the levels that could not be evaluated."""
    from ..teval import atom
    return any(e.kind == "cond" and atom(ctx, e.extra, env) is None and any(
        has(e.extra, lambda x, t=t: x == t) for t in env) for e in p.events)


def _inform(ctx):
    q = DL + ".log"
    fi = ctx.p.func(q)
    kw = P("**kwargs")
    n = 0
    for p in ctx.paths(q, no_fork_raise=True):
        for g in events(p, "call"):
            if g.name != "create_log_inform":
                continue
            n += 1
            f2 = ctx.p.func("server.DeviceServerBase.create_log_inform")
            a = dict(zip(f2.params[1:], g.args))
            a.update(dict(g.kwargs))
            text = a.get("msg", NONE)
            ctx.ob("sending", "the text is the message", has(
                text, lambda x: x == P(fi.params[2])) and (has(
                    text, lambda x: x == P("*args")) or decided(
                        p, lambda y: y == ("truth", P("*args"))) is False or None), g.where,
                "the text sent is %s" % show(text))
            nm = a.get("name", NONE)
            given = [x for x in subterms(nm) if x == const("name")]
            isn = decided(p, lambda x: x[0] == "is" and x[2] == NONE and has(
                x[1], lambda y: y == const("name")))
            ctx.ob("sending", "the logger's name", nm == S("_root_logger_name") if isn else
                   bool(given) or None, g.where, "the name sent is %s" % show(nm))
            ts = a.get("timestamp", NONE)
            ctx.ob("sending", "the timestamp given is used", has(
                ts, lambda y: y == const("timestamp")), g.where,
                "the timestamp sent is %s" % show(ts))
    ctx.ob("sending", "informs found", n >= 2, fi.where, "")
    q = "server.DeviceServerBase.create_log_inform"
    fi = ctx.p.func(q)
    L, M, N = [P(x) for x in fi.params[1:4]]
    for p in returns(ctx.paths(q, no_fork_raise=True, opaque={"core.*"})):
        g = as_msg(p.val)
        if g is None:
            ctx.ob("sending", "create_log_inform", None, fi.where, show(p.val))
            continue
        al = g.args
        nm = g.name[2] if is_const(g.name) else None
        ok = g.kind == "inform" and nm in ("log", b"log") and len(al) == 4 and al[0] == L and \
            al[2] == N and al[3] == M and has(
                al[1], lambda x: x == P("timestamp") or call_name(x) == "time")
        ctx.ob("sending", "create_log_inform fields", ok, fi.where,
               "#%s %s" % (nm, [show(x) for x in al]))


def setting(ctx):
    nums = _numbers(ctx)
    q = "server.DeviceServer.request_log_level"
    fi = ctx.p.func(q)
    w, req, msg = fi.where, P(fi.params[1]), P(fi.params[2])
    LOG = A(S("log"), "_log_level")
    ps = [p for p in ctx.paths(q, noraise=_noraise, exc_of=_exc_of) if p.kind != "cut"]
    env_ok = {n: ctx for n in NAMES}
    cases = [(n, k, v) for n, k in zip(NAMES, nums) for v in (n.encode(), n)]
    cases += [(None, None, v) for v in (b"no-such-level", b"", b"WARN ", b"0")]
    for n, k, v in cases:
        env = {A(msg, "arguments"): [v], msg: True}
        cnt = 0
        for p in ps:
            ok, open_ = consistent(ctx, p, env)
            if not ok or _decode_fail(p):
                continue
            cnt += 1
            bad = None if _open_on(ctx, p, env) else False
            st = [e for e in events(p, "store") if e.attr == "_log_level"]
            if n is None:
                ctx.ob("setting", "unknown level %r" % (v,), _refused(p, req) or bad, w,
                       "the unknown level %r is accepted (path: %s)" % (v, path_str(p)))
                ctx.ob("setting", "unknown level %r changes nothing" % (v,), not st or bad, w,
                       "the unknown level %r changes the level" % (v,))
                continue
            if p.kind != "return" or _refused(p, req):
                ctx.ob("setting", "level %r" % (v,), bad, w, "level %r is refused (path: %s)"
                       % (v, path_str(p)))
                continue
            known, got = value(ctx, st[-1].val, env) if st else (True, None)
            ctx.ob("setting", "level %r is set" % (v,), got == k if known else None, w,
                   "for %r the level becomes %r" % (v, got))
            if st:
                ctx.ob("setting", "the device's level is set", st[-1].base == S("log") or
                       None, w, show(st[-1].base))
            a = p.val[2] if p.val[0] == "call" else ()
            known, got = value(ctx, a[1], env) if len(a) == 2 else (True, None)
            ctx.ob("setting", "level %r is reported" % (v,), got in (n, n.encode())
                   if known else None, w, "the reply for %r is %s" % (v, show(p.val)))
        ctx.ob("setting", "level %r analysed" % (v,), cnt >= 1 or None, w, "")
    for n, k in zip(NAMES, nums):
        env = {A(msg, "arguments"): [], LOG: k}
        for p in ps:
            ok, open_ = consistent(ctx, p, env)
            if not ok or p.kind != "return":
                continue
            st = [e for e in events(p, "store") if e.attr == "_log_level"]
            ctx.ob("setting", "asking changes nothing", not st, w, path_str(p))
            a = p.val[2] if p.val[0] == "call" else ()
            known, got = value(ctx, a[1], env) if len(a) == 2 else (True, None)
            ctx.ob("setting", "level %s is reported when asked" % n, got in (n, n.encode())
                   if known else None, w, "at level %s the reply is %s" % (n, show(p.val)))
    # by number
    q = DL + ".set_log_level"
    fi = ctx.p.func(q)
    py = ctx.cconst(DL, "PYTHON_LEVEL")
    L = P(fi.params[1])
    for n, k in zip(NAMES, nums):
        for p in ctx.paths(q, no_fork_raise=True):
            if not consistent(ctx, p, {L: k})[0] or p.kind != "return":
                continue
            st = [e for e in events(p, "store") if e.attr == "_log_level"]
            known, got = value(ctx, st[-1].val, {L: k}) if st else (True, None)
            ctx.ob("setting", "level number %s is set" % n, got == k if known else None,
                   fi.where, "setting level %s leaves %r" % (n, got))
            for e in events(p, "call"):
                if e.name == "setLevel":
                    known, got = value(ctx, e.allargs()[0], {L: k})
                    ctx.ob("setting", "Python logger follows level %s" % n,
                           got == py.get(k) if known else None, e.where,
                           "the Python logger is set to %r" % (got,))


def _decode_fail(p):
    return any(e.kind == "exc" and has(e.val, lambda x: x == "ensure_native_str")
               for e in p.events) or any(
        e.kind == "exc" and isinstance(e.val, tuple) and "UnicodeDecodeError" in repr(e.val)
        for e in p.events)


def _open_on(ctx, p, env):
    from ..teval import atom
    for e in p.events:
        if e.kind == "cond" and atom(ctx, e.extra, env) is None and any(
                has(e.extra, lambda x, t=t: x == t) for t in env):
            return True
        if e.kind == "call" and e.name == "index" and not value(ctx, e.res, env)[0]:
            from ..teval import Fails, ev
            try:
                ev(ctx, e.res, env)
            except Fails:
                pass
            except Unknown:
                return True
    return False


def _refused(p, req):
    if p.kind == "raise":
        return p.val[1] in ("core.FailReply", "FailReply") or \
            (isinstance(p.val[1], str) and p.val[1].endswith("FailReply"))
    v = p.val
    return v[0] == "call" and v[1] == A(req, "make_reply") and v[2] and \
        is_const(v[2][0]) and v[2][0][2] in ("fail", b"fail")


NOW = 1500000000.25


def _text(v):
    return v.decode() if isinstance(v, bytes) else v


def _log(w, via, n, k, setting, text, args, ts, name, python, major):
    """The informs sent: their arguments."""
    def log(t, level, msg, *a, **kw):
        t.log.append(("python", level))

    pl = Thing("python logger", log=Fun("log", log), isEnabledFor=Fun("isEnabledFor", lambda t, x: False),
               setLevel=Fun("setLevel", lambda t, x: None), level=50) if python else None
    server = Obj("server.DeviceServer")
    server.PROTOCOL_INFO = Record(major=major, minor=0)
    st = {"server": server}
    o, st = w.new(st, "logger", DL, st["server"], python_logger=pl)
    if o.kind == "raise":
        raise Undecided("the logger cannot be made: %s" % (o.val,))
    server = st["server"]
    server.log = st["logger"]
    server.__dict__["%whole"] = True
    o, st = w.call(st, "logger", "set_log_level", setting)
    if o.kind == "raise":
        raise Undecided("the level cannot be set: %s" % (o.val,))
    kw = {}
    if ts is not None:
        kw["timestamp"] = ts
    if name is not None:
        kw["name"] = name
    o, st = w.call(st, "logger", via, *((text,) if via != "log" else (k, text)) + tuple(args), **kw)
    if o.kind == "raise":
        return "raises %s" % (o.val,)
    return [x[1] for x in o.log if x[0] == "inform"]


def _mass(t, e):
    a, kw = t.args(e)
    m = list(a) + list(kw.values())
    v = m[0]
    al = getattr(v, "arguments", Unknown)
    nm = getattr(v, "name", Unknown)
    t.log.append(("inform", Unknown if al is Unknown or nm is Unknown else
                  tuple(_text(x) for x in [nm] + list(al))))
    return None


def logging(ctx):
    """Logging followed from the call to the inform."""
    w = World(ctx, {"mass_inform": _mass, "mass_send_message": _mass, "time.time": lambda t, e: NOW,
                    "getLogger": lambda t, e: Thing("root")})
    nums = _numbers(ctx)
    tally = Tally(ctx, "logging", ctx.where(DL + ".log"))
    levels = list(zip(NAMES, nums))
    plain = [("text", (), "text")]
    texts = plain + [("50% of it", (), "50% of it"), ("got %d of %s", (3, "it"), "got 3 of it"),
                     ("%d", ("no number",), None), ("", (), ""), ("100%%", (), "100%"), ("100%", (), "100%")]
    cases = [(n, k, c, via, t, None, None, False, 5) for (n, k), c, via, t in itertools.product(
        levels[1:7], nums, ("log", None), plain)]
    cases += [(n, k, c, None, t, ts, name, py, major) for (n, k), c, t, ts, name, py, major in
              itertools.product(levels[1:7] if ctx.deep else (levels[3], levels[6]), nums[3:5], texts,
                                (None, 0, 1400000000.125), (None, "", "part"), (False, True), (4, 5))]
    cnt = 0
    for n, k, c, via, (text, args, out), ts, name, py, major in cases:
        cnt += 1
        sit = "%s(%r, *%r) with timestamp %s, name %r%s at level %s of a v%d device" % (
            via or n, text, args, ts, name, ", a Python logger" if py else "",
            NAMES[nums.index(c)], major)
        try:
            got = _log(w, via or n, n, k, c, text, args, ts, name, py, major)
        except Undecided as e:
            tally("logging is followed", None, "%s: %s" % (sit, e))
            continue
        if isinstance(got, str):
            tally("logging raises nothing", False, "%s %s" % (sit, got))
            continue
        tally("a message is sent exactly when its level is enabled", len(got) == (k >= c),
              "%s: %d informs are sent" % (sit, len(got)))
        for g in got:
            if g is Unknown or any(x is Unknown for x in g):
                tally("the inform is followed", None, "%s: sends %s" % (sit, g))
                continue
            t = NOW if ts is None else ts
            tally("the inform is complete", len(g) == 5 and g[0] == "log", "%s: sends %s" % (sit, g))
            if len(g) != 5:
                continue
            tally("the inform names its level", g[1] == n, "%s: sends %s" % (sit, g))
            tally("the inform carries the time", _same_time(g[2], t, major),
                  "%s: sends %s" % (sit, g))
            tally("the inform carries the name of the logger", g[3] == ("root" if name is None
                                                                        else name),
                  "%s: sends %s" % (sit, g))
            # '100%%' without arguments may be sent with or without formatting
            tally("the inform carries the text", g[4] in (out, text) if not args else
                  g[4] == out if out is not None else text in g[4], "%s: sends %s" % (sit, g))
    tally.done(cnt)


def _same_time(text, t, major):
    try:
        v = float(text)
    except (TypeError, ValueError):
        return False
    return abs(v - t) < 2e-6 if major >= 5 else abs(v - t * 1000) <= 1


PARTS = [tables, sending, setting, logging]
