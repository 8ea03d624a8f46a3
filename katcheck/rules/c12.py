"""Table agreement by constant folding and per-name evaluation of the factory: the name tables are
folded from source and compared with the protocol's names and with each other; for every protocol
name (as text and as bytes) and for unknown names, the paths of the factory whose conditions hold
for that name are enumerated: they must all build the class whose reported constant maps back to
the name, with the parameters as given, or raise.  The reported name and parameters are traced to
the stored parameters, and the sampling handlers' replies to what the strategy reports.  Beside that,
the request handlers and strategies are followed, with stand-ins which are analysed and not run, through
setting each strategy, asking for it and setting what was reported, for each protocol version."""
from .. import engine, strategies
from ..consteval import Sym
from ..engine import NONE, const, cval, is_const, show, subterms
from ..lib import (A, P, S, SELF, attr_stores, call_name, decided, events, has,
                   path_str, uses)
from ..program import AnalysisError
from ..teval import Unknown, atom, consistent, ev
from . import c10, c15

MIN_OBLIGATIONS = 60
SPEC = {b"none": "SampleNone", b"auto": "SampleAuto", b"period": "SamplePeriod",
        b"event": "SampleEvent", b"differential": "SampleDifferential",
        b"event-rate": "SampleEventRate", b"differential-rate": "SampleDifferentialRate"}
V4 = {b"none", b"auto", b"period", b"event", b"differential"}
SS = "sampling.SampleStrategy"
PARAMS = ("param", "*params")


def names(ctx):
    w = ctx.p.cls(SS).module.path
    try:
        look = ctx.cconst(SS, "SAMPLING_LOOKUP")
        rev = ctx.cconst(SS, "SAMPLING_LOOKUP_REV")
    except AnalysisError as e:
        ctx.ob("names", "tables", None, w, str(e))
        return
    ctx.ob("names", "distinct", len(set(look.values())) == len(look), w, repr(look))
    for n in sorted(set(SPEC) | set(look.values()), key=repr):
        ctx.ob("names", "%r is a strategy" % n, n in SPEC and n in look.values(), w,
               "the strategy names are %r" % sorted(look.values()))
    for n in sorted(set(look.values()) | set(rev), key=repr):
        ctx.ob("names", "%r maps back" % n, n in rev and look.get(rev[n]) == n, w,
               "SAMPLING_LOOKUP_REV[%r] is %r" % (n, rev.get(n)))
    al = ctx.cconst("core.ProtocolFlags", "STRATEGIES_ALLOWED_BY_MAJOR_VERSION")
    w = ctx.p.cls("core.ProtocolFlags").module.path
    for v, ref in ((4, V4), (5, set(SPEC))):
        got = set(al.get(v, ()))
        for n in sorted(got | ref):
            ctx.ob("names", "v%d %r" % (v, n), n in got and n in ref, w,
                   "strategy %r is %sallowed for version %d" % (
                       n, "" if n in got else "not ", v))


def _build(ctx, t, env):
    """(class name, args, kwargs) a returned term constructs."""
    if t[0] == "new":
        return t[1], t[2], t[3]
    if t[0] == "call":
        try:
            k = ev(ctx, t[1], env)
        except Unknown:
            return None
        if isinstance(k, Sym):
            return k.name, t[2], t[3]
        q = getattr(k, "qual", None)
        if q:
            return q, t[2], t[3]
    return None


def factory(ctx):
    q = SS + ".get_strategy"
    fi = ctx.p.func(q)
    w = fi.where
    nm = [x for x in fi.params if x not in ("cls", "self")][0]
    ps = ctx.paths(q, no_fork_raise=True, subscript_raises=True)
    for n in sorted(SPEC):
        for val in (n, n.decode()):
            env = {P(nm): val}
            k = 0
            for p in ps:
                ok, open_ = consistent(ctx, p, env)
                if not ok or p.kind == "cut":
                    continue
                k += 1
                bad = None if open_ else False
                if p.kind != "return":
                    ctx.ob("factory", "%r is accepted" % (val,), bad, w,
                           "strategy %r is refused (path: %s)" % (val, path_str(p)))
                    continue
                b = _build(ctx, p.val, env)
                if b is None:
                    ctx.ob("factory", "%r is built" % (val,), bad if is_const(p.val) else None,
                           w, "for %r the factory returns %s" % (val, show(p.val)))
                    continue
                cls = b[0].rsplit(".", 1)[-1]
                ctx.ob("factory", "%r is the right class" % (val,), cls == SPEC[n] or (
                    bad if cls in SPEC.values() else None), w,
                       "strategy %r builds a %s" % (val, cls))
                ctx.ob("factory", "%r gets its arguments" % (val,), tuple(b[1]) == (
                    P(fi.params[2]), P(fi.params[3]), ("star", PARAMS)) and
                    b[2] == (("**", P("**kwargs")),) or (
                        None if not uses_all(b, fi) else False), w,
                    "%s(%s)" % (cls, ", ".join(show(x) for x in b[1])))
            ctx.ob("factory", "%r analysed" % (val,), k >= 1 or None, w, "")
    for val in (b"no-such-strategy", "no-such-strategy", b"", b"NONE "):
        env = {P(nm): val}
        k = 0
        for p in ps:
            ok, open_ = consistent(ctx, p, env)
            if not ok or p.kind == "cut":
                continue
            k += 1
            ctx.ob("factory", "unknown %r refused" % (val,), p.kind == "raise" or (
                None if open_ else False), w, "for the unknown name %r the factory returns %s"
                % (val, show(p.val) if p.val else None))
        ctx.ob("factory", "unknown %r analysed" % (val,), k >= 1 or None, w, "")


def uses_all(b, fi):
    """Are the arguments spelled with the factory's own parameters only?"""
    own = {P(x) for x in fi.params} | {PARAMS, P("**kwargs")}
    return all(s in own or s[0] in ("star", "slice", "item", "const", "tuple", "list")
               for a in b[1] for s in subterms(a) if isinstance(s, tuple) and s and
               isinstance(s[0], str))


def reported(ctx):
    look = ctx.cconst(SS, "SAMPLING_LOOKUP")
    for q, node in attr_stores(ctx, "_params"):
        if q.startswith("sampling."):
            ctx.ob("reported", "parameters are set once: %s" % q, q.endswith(".__init__") or (
                None if q not in engine.BASELINE else False), ctx.where(q),
                "%s changes the parameters of a strategy" % q)
    for cq in c10.classes(ctx):
        cls = cq.rsplit(".", 1)[-1]
        want = [n for n, c in SPEC.items() if c == cls]
        m = c10._methods(ctx, cq)
        if not want:
            ctx.ob("reported", "%s known" % cls, None, cq, "")
            continue
        fi = m["get_sampling"]
        for p in ctx.paths(fi.qual, selfcls=cq, no_fork_raise=True):
            got = None
            if p.kind == "return":
                try:
                    got = look.get(ev(ctx, p.val, {}))
                except (Unknown, TypeError):
                    ctx.ob("reported", "%s constant" % cls, None, fi.where, show(p.val))
                    continue
            ctx.ob("reported", "%s constant" % cls, got == want[0], fi.where,
                   "%s reports itself as %r" % (cls, got))
        # the parameters stored are those given
        fi = m["__init__"]
        k = 0
        for p in ctx.paths(fi.qual, selfcls=cq, no_fork_raise=True):
            if p.kind != "return":
                continue
            k += 1
            st = [e.val for e in events(p, "store") if e.base == SELF and
                  e.attr == "_params"]
            v = st[-1] if st else NONE
            same = v == PARAMS or v == ("slice", PARAMS, NONE, NONE, NONE) or \
                call_name(v) in ("tuple", "list") and v[2] == (PARAMS,)
            ctx.ob("reported", "%s keeps its parameters" % cls, same, fi.where,
                   "the parameters reported for %s are %s" % (cls, show(v)))
        ctx.ob("reported", "%s constructor" % cls, k >= 1, fi.where, "")
        fi = m["get_sampling_formatted"]
        w = fi.where
        k = 0
        for p in ctx.paths(fi.qual, selfcls=cq, no_fork_raise=True, loop_max=2):
            if p.kind != "return":
                continue
            v = p.val
            if v[0] != "tuple" or len(v[1]) != 2:
                ctx.ob("reported", "%s formatted" % cls, None, w, show(v))
                continue
            k += 1
            try:
                got = ev(ctx, v[1][0], {})
            except Unknown:
                got = None
            ctx.ob("reported", "%s formatted name" % cls, got == want[0] or (
                None if got is None else False), w, "%s is reported as %r" % (cls, got))
            _params_list(ctx, cls, p, v[1][1], w)
        ctx.ob("reported", "%s formatted" % cls, k >= 1, w, "")


def _elem_ok(t, el, p):
    """Is t the parameter el as a byte string?"""
    if t == el:
        return True
    if t[0] == "call":
        f = t[1]
        if f[0] == "attr" and f[2] == "encode":
            return _elem_ok(f[1], el, p)
        n = call_name(t)
        if n in ("str", "bytes", "ensure_native_str", "repr", "byte_str") and t[2]:
            return _elem_ok(t[2][0], el, p)
        return None
    if t[0] == "bin" or is_const(t):
        return False
    return None


def _params_list(ctx, cls, p, v, w):
    iters = [e for e in events(p, "iter")]
    src = {e.val for e in p.events if e.kind in ("iter", "enditer")}
    if v[0] == "list":
        ap = [e for e in events(p, "call") if e.recv == v]
        if any(e.name not in ("append",) for e in ap) or v[1]:
            ctx.ob("reported", "%s formatted parameters" % cls, None, w, path_str(p))
            return
        ctx.ob("reported", "%s formats its own parameters" % cls, src == {S("_params")} or (
            None if not src or not any(has(x, lambda y: y == S("_params")) for x in src)
            else False), w, "the parameters reported are taken from %s"
            % [show(x) for x in src])
        ctx.ob("reported", "%s every parameter once" % cls, len(ap) == len(iters), w,
               "%d of %d parameters are reported (path: %s)" % (
                   len(ap), len(iters), path_str(p)))
        for i, e in enumerate(ap):
            el = [s for s in subterms(e.allargs()[0]) if s[0] == "elem" and
                  s[1] == S("_params")]
            ctx.ob("reported", "%s parameters are unchanged" % cls, _elem_ok(
                e.allargs()[0], el[0], p) if el else None, e.where,
                "a parameter is reported as %s" % show(e.allargs()[0]))
        return
    ctx.ob("reported", "%s formatted parameters" % cls,
           None if v[0] != "tuple" else False, w, show(v))


def handlers(ctx):
    n = 0
    qs = [x for x in ctx.p.functions if x.startswith("server.DeviceServer.") and
          "sensor_sampling" in x and "<locals>" not in x and
          "get_sampling_formatted" in _src(ctx, x)]
    for q in sorted(qs):
        fi = ctx.p.func(q)
        w = fi.where
        req = P(fi.params[1])
        for p in ctx.paths(q, loop_max=2, no_fork_raise=True, max_paths=6000,
                           opaque={"core.*", "kattypes.*", "sampling.*"}):
            makes = [e for e in events(p, "call") if e.name == "get_strategy"]
            real = [e for e in makes if not (is_const(e.allargs()[0]) and e.allargs()[0][2] in (
                "none", b"none"))]
            for e in real:
                al = [x for x in p.events[:e.idx] if x.kind == "cond" and
                      x.extra[0] == "truth" and call_name(x.extra[1]) == "strategy_allowed"]
                al = [x for x in al if list(x.extra[1][2][:1]) == list(e.allargs()[:1])]
                ctx.ob("handlers", "%s version allows the strategy" % q, bool(al) and
                       al[-1].val, e.where, "a strategy is created that this protocol "
                       "version does not allow (path: %s)" % path_str(p))
                arg0 = e.allargs()[0]
                ctx.ob("handlers", "%s the requested strategy" % q, _msgarg(arg0, 1), e.where,
                       "the strategy made is %s" % show(arg0))
            if p.kind != "return" or p.val == NONE:
                continue
            g = [e for e in events(p, "call") if e.name == "make_reply"]
            if not g:
                ctx.ob("handlers", "%s reply" % q, None, w, path_str(p))
                continue
            n += 1
            fm = [e for e in events(p, "call") if e.name == "get_sampling_formatted"]
            if not fm:
                ctx.ob("handlers", "%s reports what the strategy says" % q, False, w,
                       "the reply does not come from the strategy (path: %s)" % path_str(p))
                continue
            r = fm[-1].res
            st, pa = ("item", r, const(0)), ("item", r, const(1))
            a = g[-1].allargs()
            ctx.ob("handlers", "%s reports the strategy's name" % q, any(
                has(x, lambda y: y == st) for x in a), w,
                "reply: %s" % [show(x) for x in a])
            ctx.ob("handlers", "%s reports the strategy's parameters" % q, any(
                has(x, lambda y: y == pa) for x in a), w,
                "reply: %s" % [show(x) for x in a])
            src = fm[-1].recv
            own = src is not None and (
                any(e.res == src for e in makes) or call_name(src) == "get" or
                has(src, lambda y: y == S("_strategies")) or src[0] in ("item", "elem"))
            if real and src is not None and any(e.res == src for e in makes) and \
                    not any(e.res == src for e in real) and "bulk" in q:
                own = False
            ctx.ob("handlers", "%s reports the strategy in force" % q, own or None, w,
                   "reported: %s" % (src and show(src)))
            # the unit of a period before version 5
            if "bulk" in q:
                continue
            lo, hi = c15._guard(p)
            isp = decided(p, lambda x: x[0] == "eq" and const(b"period") in x[1:] and
                          st in x[1:])
            if lo >= 5 or hi > 5:
                continue
            pars = [x for x in a if has(x, lambda y: y == pa)]
            scale = [c15._scale(s, ctx) for x in pars for s in subterms(x)
                     if isinstance(s, tuple) and s and s[0] == "bin"]
            if isp:
                ctx.ob("handlers", "v4 periods are reported in milliseconds", any(
                    abs(s - 1000) < 1e-6 for s in scale), w,
                    "a v4 period is reported as %s" % [show(x) for x in pars])
            elif isp is False:
                ctx.ob("handlers", "other parameters are reported unscaled", not any(
                    abs(s - 1) > 1e-9 for s in scale), w,
                    "parameters are reported as %s" % [show(x) for x in pars])
    ctx.ob("handlers", "replies found", n >= 2 or None, "", "")
    q = "core.ProtocolFlags.strategy_allowed"
    fi = ctx.p.func(q)
    al = ctx.cconst("core.ProtocolFlags", "STRATEGIES_ALLOWED_BY_MAJOR_VERSION")
    for p in ctx.paths(q, no_fork_raise=True):
        if p.kind == "return":
            v = p.val
            for maj in (4, 5):
                for n in sorted(SPEC):
                    env = {S("major"): maj, P(fi.params[1]): n}
                    got = _truth(ctx, v, env)
                    if not consistent(ctx, p, env)[0]:
                        continue
                    ctx.ob("handlers", "strategy_allowed(%r) v%d" % (n, maj),
                           got if got is None else got == (n in al.get(maj, ())), fi.where,
                           "%r is %sallowed for version %d" % (n, "" if got else "not ", maj))


def _truth(ctx, v, env):
    try:
        return bool(ev(ctx, v, env))
    except Unknown:
        return None


def _src(ctx, q):
    import ast
    return ast.unparse(ctx.p.func(q).node)


def _msgarg(t, i):
    """Is t the i-th argument of the message?"""
    if t[0] == "item" and is_const(t[2]) and t[2][2] == i and t[1][0] == "attr" and \
            t[1][2] == "arguments":
        return True
    if t[0] == "call" and call_name(t) in ("ensure_native_str",) and t[2]:
        return _msgarg(t[2][0], i)
    return False if t[0] in ("item", "const") else None


def requests(ctx):
    """What a sampling request answers, asked again and set again."""
    strategies.reports(ctx, "requests")


PARTS = [names, factory, reported, handlers, requests]
