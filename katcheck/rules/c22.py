"""Scenario evaluation over the paths of the request wrappers: for every request class that can be
called, an active resource sends exactly the request asked for and an inactive one raises the inactive
error before anything is sent; the activity tested is that of the resource the request was made for.
Which requests are reachable is evaluated for every combination of control, exclusion, allowance and
spelling of the name, through the constructor's normalisation and the add and remove steps; other
writers of the request map are looked for.  The reply wrapper's truth is evaluated for every kind of
reply, and its construction is followed from the request's future."""
import ast

from ..engine import BASELINE, NONE, const, is_const, show
from ..lib import (A, P, S, SELF, arg, attr_stores, call_name, events, path_str, uses)
from ..teval import Fails, Record, Sentinel, Unknown
from ..walk import walk

MIN_OBLIGATIONS = 60
RC = "resource_client.KATCPClientResource"
REQ = "resource.KATCPRequest"
CRQ = "resource_client.KATCPClientResourceRequest"
INACTIVE = "resource.KATCPResourceInactive"


def _request_classes(ctx):
    for q, c in sorted(ctx.p.classes.items()):
        if q != REQ and any(getattr(b, "qual", b) == REQ for b in ctx.p.mro(c)):
            yield q, c


def _flag(ctx):
    """The attribute in which a request keeps the activity callable."""
    q = REQ + ".__init__"
    names = set()
    for p in ctx.paths(q):
        for e in p.events:
            if e.kind == "store" and e.base == SELF and e.val == P("is_active"):
                names.add(e.attr)
    return names.pop() if len(names) == 1 else None


def gate(ctx):
    flag = _flag(ctx)
    ctx.ob("gate", "the activity callable is kept", True if flag else None, ctx.where(
        REQ + ".__init__"), "")
    args, kw = ("a", "b"), {"timeout": 3.0}
    for cq, c in [(REQ, ctx.p.cls(REQ))] + list(_request_classes(ctx)):
        f = ctx.p.lookup(c, "__call__")
        if f is None:
            continue
        q, w = f.qual, f.where
        for active in (True, False, 1, 0):
            def issue(t, e):
                t.log.append(t.args(e))
                return Sentinel("the reply future")
            o, why = walk(ctx, q, {P("*args"): args, P("**kwargs"): dict(kw)},
                          {flag: lambda t, e: active, "issue_request": issue},
                          opaque={"*.issue_request"}, selfcls=cq)
            i = "%s, %s" % (cq, "active" if active else "inactive")
            if o is None:
                ctx.ob("gate", i, None, w, why)
                continue
            if active:
                ctx.ob("gate", i + ": sent once", o.kind == "return" and len(o.log) == 1, w,
                       "an active resource: %s %s after %d requests" % (o.kind, o.val, len(o.log)))
                if len(o.log) == 1:
                    a, k = o.log[0]
                    ctx.ob("gate", i + ": with the given arguments", tuple(a) == args and
                           k == kw, w, "issues %r %r for %r %r" % (a, k, args, kw))
                ctx.ob("gate", i + ": the reply is passed on", None if o.val is Unknown else
                       isinstance(o.val, Sentinel), w, "gives %r" % (o.val,))
            else:
                ctx.ob("gate", i + ": nothing sent", not o.log, w,
                       "an inactive resource's request is issued")
                ctx.ob("gate", i + ": inactive error", o.kind == "raise" and o.val == INACTIVE, w,
                       "an inactive resource's request ends with %s %s" % (o.kind, o.val))
    # nothing else issues requests
    ok = {REQ + ".__call__"}
    for fq, f in sorted(ctx.p.functions.items()):
        if fq in ok or ".test." in fq or fq.endswith(".issue_request"):
            continue
        hit = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(
            n.func, ast.Attribute) and n.func.attr == "issue_request"]
        if not hit or any(g.startswith(fq + ".<locals>") and any(
                n in ast.walk(ctx.p.functions[g].node) for n in hit) for g in ctx.p.functions):
            continue
        if f.cls is not None and f.name == "__call__":
            continue                    # judged above
        ctx.ob("gate", "%s issues a request directly" % fq,
               None if f.name.startswith("_") or fq not in BASELINE else False, f.where,
               "the activity of the resource is not consulted")


def activity(ctx):
    """The activity a request consults is the resource's, which set_active() sets."""
    q = RC + "._request_factory"
    w = ctx.where(q)
    for p in ctx.paths(q):
        if p.kind != "return":
            continue
        v = p.val
        if v is None or v[0] != "new":
            ctx.ob("activity", "request factory", None, w, show(v or NONE))
            continue
        init = ctx.p.lookup(ctx.p.cls(v[1]), "__init__")
        names = [x for x in init.params if x != "self"] if init else []
        t = dict(v[3]).get("is_active")
        if t is None and "is_active" in names and len(v[2]) > names.index("is_active"):
            t = v[2][names.index("is_active")]
        if t is None:
            ctx.ob("activity", "requests get the resource's activity", False if
                   not any(k == "**" for k, _ in v[3]) else None, w,
                   "the request is made without its resource's activity")
            continue
        ctx.ob("activity", "requests get the resource's activity", _is_activity(ctx, t), w,
               "the request consults %s" % show(t))
    q = CRQ + ".__init__"
    w = ctx.where(q)
    flag = _flag(ctx)
    for p in ctx.paths(q, inline={REQ + ".__init__"}):
        if p.kind == "raise":
            continue
        st = [e for e in p.events if e.kind == "store" and e.base == SELF and e.attr == flag]
        ctx.ob("activity", "client requests keep it", None if not st else
               st[-1].val == P("is_active") or None if uses(st[-1].val, P("is_active")) else False,
               w, "keeps %s" % [show(e.val) for e in st])
    # the factory is installed before anything is inspected
    q = RC + ".start"
    w = ctx.where(q)
    for p in ctx.paths(q, opaque={"*"}):
        if p.kind == "raise":
            continue
        inst = [e for e in p.events if e.kind == "store" and e.attr == "request_factory"]
        conn = [e for e in p.events if e.kind == "call" and e.name == "connect"]
        if not conn:
            continue
        i = p.events.index(conn[0])
        good = [e for e in inst if p.events.index(e) < i and "_request_factory" in show(e.val)]
        ctx.ob("activity", "the factory is installed before connecting", bool(good) or (
            None if inst else False), w, "requests are made by the inspecting client's own "
            "factory: " + path_str(p))
    R = "resource.KATCPResource"
    for cq, c in sorted(ctx.p.classes.items()):
        if not any(getattr(b, "qual", b) == R for b in ctx.p.mro(c)):
            continue
        f = ctx.p.lookup(c, "is_active")
        for v in (True, False):
            o, why = walk(ctx, f.qual, {S("_active"): v}, selfcls=cq)
            ctx.ob("activity", "%s.is_active() %s" % (cq, v), None if o is None or
                   o.val is Unknown else o.kind == "return" and bool(o.val) == v, f.where, why)
        f = ctx.p.lookup(c, "set_active")
        if cq == R:
            continue
        kids = {"x": Sentinel("x"), "y": Sentinel("y")}
        for v in (True, False, 0, 1):
            def sub(t, e):
                t.log.append((t.ev(e.f[1]), t.args(e)[0]))
                return None
            o, why = walk(ctx, f.qual, {S("_active"): not v, S("children"): kids,
                                        S("_children"): kids, P("active"): v},
                          {"set_active": sub}, opaque={"*.set_active"}, selfcls=cq, unroll=True)
            i = "%s.set_active(%r)" % (cq, v)
            if o is None or o.get(S("_active")) is Unknown:
                ctx.ob("activity", i, None, f.where, why)
                continue
            ctx.ob("activity", i, o.kind == "return" and bool(o.get(S("_active"))) == bool(v),
                   f.where, "the resource's activity is %r" % (o.get(S("_active")),))
            if _has_children(ctx, c):
                seen = {id(k) for k, a in o.log if len(a) == 1 and bool(a[0]) == bool(v)}
                ctx.ob("activity", i + ": every child", seen == {id(k) for k in kids.values()},
                       f.where, "reaches %r" % (o.log,))
        f = ctx.p.lookup(c, "__init__")
        if f is not None:
            for p in ctx.paths(f.qual, selfcls=cq, opaque={"*.set_ioloop", "*._init_*",
                                                          "*.start"}, inline=INL):
                if p.kind == "raise":
                    continue
                st = [e for e in p.events if e.kind == "store" and e.base == SELF and
                      e.attr == "_active"]
                ctx.ob("activity", "%s starts active" % cq, bool(st) and
                       st[-1].val == const(True) or (None if st else False), f.where,
                       "the constructor leaves the activity undefined")
                break
    for fq, n in attr_stores(ctx, "_active"):
        base = fq.split(".<locals>")[0].rsplit(".", 1)
        c = ctx.p.classes.get(base[0])
        if c is None or not any(getattr(b, "qual", b) == R for b in ctx.p.mro(c)):
            continue
        if base[1] in ("__init__", "set_active"):
            continue
        ctx.ob("activity", "%s changes the activity" % fq, None if fq not in BASELINE else False,
               ctx.where(fq), "")


def _has_children(ctx, c):
    f = ctx.p.lookup(c, "children")
    return f is None or f.cls is None or f.cls.qual != RC


def _is_activity(ctx, t):
    if t[0] == "bound":
        return t[1].endswith(".is_active") and t[2] == SELF or (
            None if t[2] == SELF and t[1] not in BASELINE else False)
    if t == S("is_active"):
        return True
    if t[0] == "const":
        return False
    return None


# -- which requests are reachable ----------------------------------------------

INL = {"resource.escape_name", "resource.KATCPResource.__init__", REQ + ".name", REQ + ".timeout_hint"}
NAMES = ("do-it", "halt.now", "plain")


def _spec(ctx, controlled, excluded, allowed):
    spec = {"address": ("h", 1), "name": "n"}
    if controlled is not None:
        spec["controlled"] = controlled
    if excluded is not None:
        spec["always_excluded_requests"] = excluded
    if allowed is not None:
        spec["always_allowed_requests"] = allowed
    return walk(ctx, RC + ".__init__", {P("resource_spec"): spec, P("parent"): None},
                opaque={"core.*"}, unroll=True, inline=INL)


def reachable(ctx):
    q = RC + "._add_requests"
    w = ctx.where(q)
    esc = lambda n: n.replace(".", "_").replace("-", "_")
    sets = [None, ["do-it"], ["do_it"], ["halt.now", "plain"], ["halt_now"], list(NAMES)]
    for controlled in (None, False, True):
        for ex in sets:
            for al in sets:
                i = "controlled %s, excluded %s, allowed %s" % (controlled, ex, al)
                o, why = _spec(ctx, controlled, ex, al)
                if o is None:
                    ctx.ob("reachable", i, None, ctx.where(RC + ".__init__"), why)
                    continue
                st = {k: v for k, v in o.env.items() if k[0] == "attr" and k[1] == SELF}
                xs = {esc(x) for x in ex or ()}
                ls = {esc(x) for x in al or ()}
                want = {esc(n) for n in NAMES if esc(n) not in xs and (
                    controlled or esc(n) in ls)}
                for parent in (None, Sentinel("parent")):
                    _reach(ctx, q, w, i, st, want, esc, parent)


def _reach(ctx, q, w, i, st, want, esc, parent):
    objs = {n: Sentinel("request " + n) for n in NAMES}

    def get(t, e):
        return Record(of=t.args(e)[0][0])

    def yields(t, e):
        try:
            v = t.ev(e.val)
        except Unknown:
            return None
        if isinstance(v, dict):
            return {k: objs[f.of] for k, f in v.items()}
        if isinstance(v, list):
            return [objs[f.of] for f in v]
        if isinstance(v, Record):
            return objs[v.of]
        return None

    def told(t, e):
        t.log.append(t.args(e)[0])
        return None

    env = dict(st)
    env.update({P("request_keys"): list(NAMES), S("_parent"): parent, S("_req"): {}})
    o, why = walk(ctx, q, env, {"future_get_request": get, "time_to_yield": lambda t, e: False,
                                "check_future": lambda t, e: None,
                                "_child_add_requests": told}, yields, unroll=True,
                  opaque={"core.LatencyTimer*", "*.future_get_request", "*._child_add_requests"},
                  inline=INL)
    if o is None or o.kind != "raise" and o.get(S("_req")) is Unknown:
        ctx.ob("reachable", i, None, w, why)
        return
    if o.kind == "raise":
        ctx.ob("reachable", i, False, w, "raises %s" % o.val)
        return
    got = o.get(S("_req"))
    ctx.ob("reachable", i, o.kind == "return" and set(got) == want, w,
           "reachable: %s, expected %s" % (sorted(got), sorted(want)))
    bad = [k for k, v in got.items() if v not in [objs[n] for n in NAMES if esc(n) == k]]
    ctx.ob("reachable", i + ": each under its own name", not bad, w, "%s" % bad)
    if parent is not None:
        told_ = set()
        for a in o.log:
            told_ |= set(a[1])
        ctx.ob("reachable", i + ": the parent hears of them", told_ == want, w,
               "told of %s" % sorted(told_))


def removal(ctx):
    q = RC + "._remove_requests"
    w = ctx.where(q)
    for gone in (["do-it"], ["do-it", "unknown"], ["halt.now", "plain"], []):
        have = {"do_it": Sentinel("a"), "halt_now": Sentinel("b"), "plain": Sentinel("c")}

        def told(t, e):
            t.log.append(t.args(e)[0])
            return None
        o, why = walk(ctx, q, {P("request_keys"): gone, S("_req"): have,
                               S("_parent"): Sentinel("parent")},
                      {"_child_remove_requests": told}, unroll=True,
                      opaque={"*._child_remove_requests"}, inline=INL)
        i = "removing %s" % gone
        if o is None or o.kind != "raise" and o.get(S("_req")) is Unknown:
            ctx.ob("removal", i, None, w, why)
            continue
        if o.kind == "raise":
            ctx.ob("removal", i, False, w, "raises %s" % o.val)
            continue
        want = set(have) - {x.replace("-", "_").replace(".", "_") for x in gone}
        ctx.ob("removal", i, o.kind == "return" and set(o.get(S("_req"))) == want, w,
               "%s: left with %s" % (o.kind, sorted(o.get(S("_req")))))
        told_ = set()
        for a in o.log:
            told_ |= set(a[1])
        ctx.ob("removal", i + ": the parent hears of it", told_ == set(have) - want, w,
               "told of %s" % sorted(told_))
    # the property hands out the filtered map, and nobody else writes to it
    req = {"a": Sentinel("a")}
    f = ctx.p.lookup(ctx.p.cls(RC), "req")
    o, why = walk(ctx, f.qual, {S("_req"): req})
    ctx.ob("removal", "req is the filtered map", None if o is None or o.val is Unknown else
           o.kind == "return" and isinstance(o.val, dict) and set(o.val) == {"a"} and
           o.val["a"] is req["a"], f.where, why)
    allowed = {"__init__", "_add_requests", "_remove_requests"}
    for fq, f in sorted(ctx.p.functions.items()):
        if not fq.startswith(RC + ".") or f.name in allowed:
            continue
        for n in ast.walk(f.node):
            t = None
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and x.attr == "_req":
                        t = x
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "update", "setdefault", "__setitem__") and isinstance(
                        n.func.value, ast.Attribute) and n.func.value.attr in ("_req", "req"):
                t = n
            if t is not None:
                ctx.ob("removal", "%s writes to the request map" % fq,
                       None if fq not in BASELINE else False, f.where,
                       "requests are added without the exclusion and control rules")


# -- replies -------------------------------------------------------------------

def replies(ctx):
    M = "core.Message"
    reply_t = ctx.cconst(M, "REPLY")
    kinds = {"REPLY": reply_t, "INFORM": ctx.cconst(M, "INFORM"),
             "REQUEST": ctx.cconst(M, "REQUEST")}
    argss = [[b"ok"], [b"ok", b"5"], [b"fail"], [b"fail", b"ok"], [b"invalid", b"x"], [],
             [b"OK"], [b"okay"], [b""], [b"o"], [b"not ok"]]
    q = M + ".reply_ok"
    w = ctx.where(q)
    for a in argss:
        for kn, k in kinds.items():
            o, why = walk(ctx, q, {S("mtype"): k, S("arguments"): a})
            want = kn == "REPLY" and bool(a) and a[0] == b"ok"
            ctx.ob("reply", "reply_ok of %s %r" % (kn, a), None if o is None or o.val is Unknown
                   else o.kind == "return" and bool(o.val) == want, w,
                   "%s" % (why or "gives %r" % (o.val,)))
    for name in ("__bool__", "succeeded"):
        q = "resource.KATCPReply." + name
        if not ctx.p.has_func(q):
            ctx.ob("reply", name, False if name == "succeeded" else None, "resource.KATCPReply", "")
            continue
        w = ctx.where(q)
        for a in argss:
            for inf in ([], [[b"ok"]], [[b"fail"], [b"ok"]]):
                rep = Record(mtype=reply_t, arguments=a, name="r")
                infs = [Record(mtype=kinds["INFORM"], arguments=x, name="r") for x in inf]

                def reply_ok(t, e):
                    r = t.ev(e.f[1])
                    return r.mtype == reply_t and bool(r.arguments) and r.arguments[0] == b"ok"
                want = bool(a) and a[0] == b"ok"

                def truth(t, e):
                    return want if e.args[0] == SELF else bool(t.ev(e.args[0]))
                o, why = walk(ctx, q, {S("reply"): rep, S("informs"): infs},
                              {"reply_ok": reply_ok, "bool": truth, "__bool__": lambda t, e: want},
                              opaque={"*.reply_ok", "*.__bool__"})
                ctx.ob("reply", "%s of %r with informs %r" % (name, a, inf), None if o is None or
                       o.val is Unknown else o.kind == "return" and bool(o.val) == want, w,
                       "%s" % (why or "gives %r" % (o.val,)))


def issue(ctx):
    """What is sent is what was asked for, and the wrapper holds its reply."""
    q = CRQ + ".issue_request"
    w = ctx.where(q)
    for given in ({}, {"timeout": 2.0}, {"timeout": None}, {"mid": 5, "use_mid": True}):
        for hint in (None, 9.0):
            def sent(t, e):
                t.log.append(t.args(e))
                return Sentinel("future")
            o, why = walk(ctx, q, {P("*args"): ("a", 1), P("**kwargs"): dict(given),
                                   S("_request_description"): {"name": "do-it", "description": "",
                                                               "timeout_hint": hint}},
                          {"wrapped_request": sent}, opaque={"*.wrapped_request"}, inline=INL)
            i = "given %r, hint %s" % (given, hint)
            if o is None:
                ctx.ob("issue", i, None, w, why)
                continue
            ctx.ob("issue", i + ": once", o.kind == "return" and len(o.log) == 1 and
                   (None if o.val is Unknown else isinstance(o.val, Sentinel)), w,
                   "%d requests sent" % len(o.log))
            if len(o.log) != 1:
                continue
            a, k = o.log[0]
            t = given.get("timeout")
            want = dict(given, timeout=hint if t is None else t)
            ctx.ob("issue", i + ": the request asked for", tuple(a) == ("do-it", "a", 1) and
                   dict({"timeout": None}, **k) == want, w, "sends %r %r" % (a, k))
    q = "resource_client.ReplyWrappedInspectingClientAsync.wrapped_request"
    w = ctx.where(q)
    for bad in (False, True):
        def make(t, e):
            if bad:
                raise Fails("TypeError")
            a, k = t.args(e)
            m = Record(name=a[0], args=tuple(a[1:]), mid=k.get("mid"))
            return m

        def send(t, e):
            a, k = t.args(e)
            t.log.append((a, k))
            return Sentinel("the client's future")

        def wrap(t, e):
            a = list(e.args)
            kw = dict(e.kwargs)
            fn = a[0] if a else kw.get("transformation")
            fu = t.ev(a[1] if len(a) > 1 else kw["future"])
            t.log.append(("wrapped", show(fn), fu))
            return Sentinel("wrapped")

        def failed(t, e):
            t.log.append(("failed",))
            return None
        o, why = walk(ctx, q, {P("request"): "do-it", P("*args"): ("a",), P("**kwargs"): {
            "use_mid": True, "timeout": 4.0, "mid": "7"}},
            {"core.Message.request": make, "request": make, "future_request": send,
             "transform_future": wrap, "resource_client.transform_future": wrap,
             "set_exc_info": failed, "set_exception": failed,
             "tornado.concurrent.Future": lambda t, e: Sentinel("failed future")},
            opaque={"*.request", "*.future_request", "*.transform_future", "core.Message.*"},
            no_fork_raise=False, raise_all=True,
            noraise=lambda e: not (bad and e.name == "request"),
            exc_of=lambda e: "TypeError" if e.name == "request" else None)
        i = "message %s" % ("cannot be made" if bad else "made")
        if o is None:
            ctx.ob("wrapped", i, None, w, why)
            continue
        if bad:
            ctx.ob("wrapped", i, o.kind == "return" and o.log == [("failed",)], w,
                   "%s; %r" % (o.kind, o.log))
            continue
        sends = [x for x in o.log if x[0] != "wrapped"]
        wr = [x for x in o.log if x[0] == "wrapped"]
        ok = len(sends) == 1 and isinstance(sends[0][0][0], Record)
        ctx.ob("wrapped", i + ": sent once", ok, w, "%r" % (o.log,))
        if ok:
            (m, *rest), kw = sends[0]
            rest = dict(zip(("timeout", "use_mid"), rest), **kw)
            ctx.ob("wrapped", i + ": the request asked for", (m.name, m.args, m.mid) == (
                "do-it", ("a",), "7") and rest.get("timeout") == 4.0 and
                rest.get("use_mid") is True, w, "sends %r %r" % (vars(m), rest))
        ctx.ob("wrapped", i + ": its reply is wrapped", len(wr) == 1 and isinstance(
            wr[0][2], Sentinel) and "reply_wrapper" in wr[0][1] or None, w, "%r" % (wr,))
    q = "resource_client.transform_future.<locals>._transform"
    if not ctx.p.has_func(q):
        return
    w = ctx.where(q)
    err = ("t", "v", "tb")
    for how in ("error", "ok", "bad transformation"):
        fut = Sentinel("future")

        def trans(t, e):
            if how == "bad transformation":
                raise Fails("ValueError")
            return ("transformed", t.args(e)[0])

        def rec(t, e):
            t.log.append((e.name, t.args(e)[0]))
            return None
        o, why = walk(ctx, q, {P("f"): fut, ("outer", "future"): fut, ("param", "future"): fut},
                      {"exc_info": lambda t, e: (err if how == "error" else None) if
                       e.target != "sys.exc_info" else ("now",),
                       "sys.exc_info": lambda t, e: ("now",),
                       "exception": lambda t, e: Sentinel("error") if how == "error" else None,
                       "result": lambda t, e: "the result", "transformation": trans,
                       "set_result": rec, "set_exc_info": rec, "set_exception": rec},
                      no_fork_raise=False, raise_all=True,
                      noraise=lambda e: not (how == "bad transformation" and
                                             e.name == "transformation"),
                      exc_of=lambda e: "ValueError")
        i = "future with %s" % how
        if o is None:
            ctx.ob("wrapped", i, None, w, why)
            continue
        ctx.ob("wrapped", i + ": resolved once", o.kind == "return" and len(o.log) == 1, w,
               "%s; %r" % (o.kind, o.log))
        if len(o.log) == 1:
            name, a = o.log[0]
            want = ("set_result", [("transformed", ["the result"])]) if how == "ok" else None
            ctx.ob("wrapped", i, (name, a) == want if how == "ok" else name != "set_result", w,
                   "%s%r" % (name, a))


PARTS = [gate, activity, reachable, removal, replies, issue]
