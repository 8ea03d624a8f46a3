"""Value-flow of the request's name and id: every constructor of a reply or reply-inform is
followed (helpers inlined) on every path; the built message must take its name and id from
the request it answers, or be handed to the connection method that copies the id, and that
method must do so on every sending path.  Built-in handlers and the dispatcher are checked
at each construction and send site.  Message.copy must carry all four fields."""
import ast

from ..engine import NONE, const, cval, is_const, show, subterms
from ..lib import (A, P, S, SELF, as_msg, arg, call_name, events, exits, has, mid_at,
                   path_str, returns, tested, unret, uses)

MIN_OBLIGATIONS = 40
OP = {"core.Message.*", "server.ClientConnection.*"}


def _kind_ok(t, n):
    return t == const(n)


def constructors(ctx):
    req = P("req_msg")
    for m, code in (("reply_to_request", 1), ("reply_inform", 2)):
        q = "core.Message." + m
        fi = ctx.p.func(q)
        rq = P([a for a in fi.params if a not in ("cls", "self")][0])
        va = fi.node.args.vararg.arg if fi.node.args.vararg else "args"
        n = 0
        for p in ctx.paths(q, opaque={"core.Message.__init__", "core.Message.reply",
                                      "core.Message.inform", "core.Message.request"}):
            if p.kind != "return":
                ctx.ob("constructor", m + " total", False if p.kind == "raise" else None,
                       ctx.where(q), "%s can raise %s" % (m, p.val))
                continue
            g = as_msg(p.val)
            n += 1
            if g is None:
                ctx.ob("constructor", m, None, ctx.where(q), show(p.val))
                continue
            ctx.ob("constructor", m + " kind", g.kind == {1: "reply", 2: "inform"}[code],
                   ctx.where(q), "builds a %s" % g.kind)
            ctx.ob("constructor", m + " name", g.name == A(rq, "name"), ctx.where(q),
                   "name is %s" % show(g.name))
            ctx.ob("constructor", m + " id", mid_at(p, g) == A(rq, "mid"), ctx.where(q),
                   "message id is %s" % show(mid_at(p, g)))
            ok = len(g.args) == 1 and any(x in (P(va), P("*" + va), ("param", "*" + va))
                                          for x in subterms(g.args[0]))
            ctx.ob("constructor", m + " arguments", ok or None, ctx.where(q),
                   "arguments are %s" % [show(a) for a in g.args])
        ctx.ob("constructor", m + " analysed", n > 0, ctx.where(q), "never returns")
    for m, code in (("request", 0), ("reply", 1), ("inform", 2)):
        q = "core.Message." + m
        for p in ctx.paths(q, opaque={"core.Message.__init__"}):
            if p.kind != "return":
                continue
            g = as_msg(p.val)
            if g is None:
                ctx.ob("constructor", m, None, ctx.where(q), show(p.val))
                continue
            ctx.ob("constructor", m + " kind", g.kind == m, ctx.where(q),
                   "%s() builds a %s" % (m, g.kind))
            ctx.ob("constructor", m + " name", g.name == P("name"), ctx.where(q),
                   "name is %s" % show(g.name))
            md = mid_at(p, g)
            ok = md == P("mid") or has(md, lambda x: x == const("mid"))
            if not ok and md == NONE:
                # only where the keyword is known absent
                ok = tested(p, lambda a: uses_kw(a) and "mid" in repr(a), None)
            ctx.ob("constructor", m + " id", ok, ctx.where(q),
                   "the id given to %s() becomes %s" % (m, show(md)))
    q = "core.Message.copy"
    for p in ctx.paths(q, opaque={"core.Message.__init__"}):
        if p.kind != "return":
            continue
        t = p.val
        w = ctx.where(q)
        if t[0] != "new" or t[1] not in ("core.Message",):
            ctx.ob("copy", "message built", None, w, show(t))
            continue
        kw = dict(t[3])

        def f(i, n):
            v = t[2][i] if i < len(t[2]) else kw.get(n)
            for e in p.events:
                if e.kind == "store" and e.base == t and e.attr == n:
                    v = e.val
            return v
        for i, n in enumerate(("mtype", "name", "arguments", "mid")):
            v = f(i, n)
            ok = v is not None and (v == S(n) or (n == "arguments" and uses(v, S(n)) and
                                                  v[0] in ("call", "slice", "comp", "new")))
            ctx.ob("copy", n, ok, w, "a copied message has %s %s"
                   % (n, show(v) if v else "left out"))
    # the stored fields are the ones given
    q = "core.Message.__init__"
    for p in ctx.paths(q, opaque={"core.Message.format_argument"}, loop_max=1):
        if p.kind != "return":
            continue
        last = {}
        for e in events(p, "store"):
            if e.base == SELF:
                last[e.attr] = e.val
        for n in ("mtype", "name", "mid"):
            v = last.get(n)
            if v is None:
                ctx.ob("fields", n, False, ctx.where(q), "%s is not stored" % n)
                continue
            ok = uses(v, P(n)) or (v == NONE and p.facts.get(("is", P(n), NONE)) is True)
            ctx.ob("fields", n, ok, ctx.where(q), "%s is stored as %s (path %s)"
                   % (n, show(v), path_str(p)))


def uses_kw(a):
    return any("kwargs" in repr(x) for x in a[1:])


def request_connection(ctx):
    cc = S("client_connection")
    msg = S("msg")
    base = "server.ClientRequestConnection."

    def answers(g, p, idx, kind):
        """g is a <kind> for self.msg"""
        if g is None:
            return None
        return (g.kind in (kind, None) and g.name == A(msg, "name"), mid_at(p, g, idx))
    for m, kind, sender in (("reply", "reply", "reply"), ("inform", "inform", "inform"),
                            ("reply_with_message", "reply", "reply")):
        q = base + m
        w = ctx.where(q)
        for p in ctx.paths(q, opaque=OP):
            if p.kind != "return":
                ctx.ob("request-connection", m + " sends", None if p.kind == "cut" else
                       False, w, "%s() ends with %s instead of sending" % (m, p.val))
                continue
            sends = [e for e in events(p, "call") if e.recv is not None and
                     e.recv == cc and e.name in ("reply", "inform", "reply_inform",
                                                 "mass_inform", "send_message")]
            ctx.ob("request-connection", m + " sends once",
                   len(sends) == 1 if sends or not _other_conn_use(p, cc) else None, w,
                   "%s() sends %d messages" % (m, len(sends)))
            for e in sends:
                ctx.ob("request-connection", m + " sends a " + kind,
                       e.name == sender or (kind == "inform" and e.name == "reply_inform"),
                       e.where, "%s() calls %s()" % (m, e.name))
                x = arg(e, 0)
                if e.name in ("reply", "reply_inform"):
                    ctx.ob("request-connection", m + " answers its request",
                           arg(e, 1, "orig_req") == msg, e.where,
                           "the original request passed on is %s"
                           % (show(arg(e, 1, "orig_req")) if arg(e, 1, "orig_req") else None))
                if m == "reply_with_message":
                    ctx.ob("request-connection", m + " passes the message",
                           x == P(ctx.p.func(q).params[1]), e.where, "sends %s" % show(x))
                    continue
                r = answers(as_msg(x), p, e.idx, kind)
                if r is None:
                    ctx.ob("request-connection", m + " message", None, e.where, show(x))
                    continue
                ctx.ob("request-connection", m + " name", r[0], e.where,
                       "%s() sends %s" % (m, show(x)))
                ctx.ob("request-connection", m + " id",
                       r[1] == A(msg, "mid") or e.name in ("reply", "reply_inform"),
                       e.where, "%s() sends a message with id %s" % (m, show(r[1])))
                _args_pass(ctx, p, as_msg(x), q, m, e.where)
    q = base + "make_reply"
    for p in returns(ctx.paths(q, opaque=OP)):
        g = as_msg(p.val)
        if g is None:
            ctx.ob("request-connection", "make_reply", None, ctx.where(q), show(p.val))
            continue
        ctx.ob("request-connection", "make_reply name",
               g.kind == "reply" and g.name == A(msg, "name"), ctx.where(q),
               "make_reply() builds %s" % show(p.val))
        ctx.ob("request-connection", "make_reply id", mid_at(p, g) == A(msg, "mid"),
               ctx.where(q), "make_reply() uses id %s" % show(mid_at(p, g)))
        _args_pass(ctx, p, g, q, "make_reply", ctx.where(q))
    q = base + "__init__"
    for p in returns(ctx.paths(q, opaque=OP)):
        st = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
        ps = ctx.p.func(q).params
        ctx.ob("request-connection", "holds its connection and request",
               st.get("client_connection") == P(ps[1]) and st.get("msg") == P(ps[2]),
               ctx.where(q), "stores %s" % {k: show(v) for k, v in st.items()})


def _other_conn_use(p, cc):
    return any(uses(x, cc) for e in events(p, "call") for x in e.allargs())


def _args_pass(ctx, p, g, q, m, w):
    fi = ctx.p.func(q)
    va = fi.node.args.vararg
    if va is None:
        return
    ok = any("*" + va.arg == x[1] or va.arg == x[1] for a in g.args for x in subterms(a)
             if x[0] == "param")
    extra = [a for a in g.args if is_const(a)]
    ctx.ob("request-connection", m + " arguments", ok and not extra, w,
           "%s() builds a message with arguments %s" % (m, [show(a) for a in g.args]))


def client_connection(ctx):
    for cls in ("ClientConnection", "ThreadsafeClientConnection"):
        for m, k in (("reply", 1), ("reply_inform", 2), ("inform", 2)):
            q = "server.ClientConnection." + m
            fi = ctx.p.func(q)
            over = "server.%s.%s" % (cls, m)
            if ctx.p.has_func(over):
                q = over
                fi = ctx.p.func(q)
            ps = [P(a) for a in fi.params[1:]]
            for p in ctx.paths(q, opaque={"core.Message.*"}):
                if p.kind != "return":
                    continue
                sends = [e for e in events(p, "call") if e.name in
                         ("_send_message", "send_message", "send_message_from_thread")]
                if not sends:
                    ctx.ob("connection", m + " sends", False, ctx.where(q),
                           "a path of %s() sends nothing (%s)" % (m, path_str(p)))
                    continue
                ctx.ob("connection", m + " sends once", len(sends) == 1, ctx.where(q), "")
                for e in sends:
                    x = [a for a in e.allargs() if a == ps[0]]
                    ctx.ob("connection", m + " sends the given message", bool(x), e.where,
                           "%s() sends %s" % (m, [show(a) for a in e.allargs()]))
                    if m == "inform":
                        continue
                    mid = None
                    for s in events(p, "store")[:]:
                        if s.idx < e.idx and s.attr == "mid" and s.base == ps[0]:
                            mid = s.val
                    same = p.facts.get(("eq", A(ps[0], "mid"), A(ps[1], "mid")))
                    ctx.ob("connection", m + " sets the id of the request",
                           mid == A(ps[1], "mid") or same is True, e.where,
                           "%s() sends a message whose id is %s" % (
                               m, show(mid) if mid else "not set"))
                    nm = tested(p, lambda a: a[0] == "eq" and
                                A(ps[0], "name") in a[1:] and A(ps[1], "name") in a[1:],
                                True, e.idx) or \
                        any(s.attr == "name" and s.base == ps[0] and
                            s.val == A(ps[1], "name") for s in events(p, "store"))
                    ctx.ob("connection", m + " name is that of the request", nm, e.where,
                           "%s() sends a message whatever its name" % m)


def _reply_sites(ctx, module="server"):
    """Functions whose own body builds or sends replies."""
    names = {"reply", "reply_to_request", "reply_inform", "make_reply",
             "reply_with_message"}
    out = []
    for q, fi in sorted(ctx.p.functions.items()):
        if not q.startswith(module + ".") or "<locals>" in q:
            continue
        if ".ClientRequestConnection." in q or ".ClientConnection." in q or \
                ".ThreadsafeClientConnection." in q:
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in names:
                out.append(q)
                break
    return out


def sites(ctx):
    """Every construction and send of a reply in the server."""
    n = 0
    for q in _reply_sites(ctx):
        w = ctx.where(q)
        fi = ctx.p.func(q)
        reqs = [P(a) for a in ("msg", "req_msg", "orig_req", "message")
                if a in fi.params]
        if "req" in fi.params:
            reqs.append(A(P("req"), "msg"))
        try:
            pths = ctx.paths(q, opaque=OP | {"sampling.*", "kattypes.*",
                                             "server.ClientRequestConnection.*",
                                             "server.construct_name_filter"},
                             loop_max=1, max_paths=3000)
        except Exception as e:      # path explosion: undecided
            ctx.ob("site", q, None, w, str(e))
            continue
        # only request handlers and their helpers answer a request
        for p in pths:
            for e in events(p, "call"):
                if e.name == "reply" and len(e.args) >= 2:
                    g = as_msg(e.args[0])
                    r = e.args[1]
                    n += 1
                    if g is not None and g.name is not None:
                        ctx.ob("site", "%s: reply named as its request" % q,
                               g.name == A(r, "name") and g.kind in ("reply", None),
                               e.where, "sends %s in answer to %s"
                               % (show(e.args[0]), show(r)))
                    if reqs and r[0] == "param":
                        ctx.ob("site", "%s: answers its own request" % q, r in reqs,
                               e.where, "answers %s" % show(r))
                g = as_msg(e.res) if e.res is not None else None
                if g is not None and call_name(g.term) in ("reply_to_request",
                                                           "reply_inform"):
                    n += 1
                    r = g.term[2][0]
                    okr = reqs == [] or r in reqs or r == S("msg")
                    ctx.ob("site", "%s: reply built for the request" % q,
                           okr or None, e.where, "reply built for %s" % show(r))
            if p.kind == "return":
                g = as_msg(unret(p.val))
                if g is not None and g.kind == "reply" and reqs:
                    n += 1
                    ctx.ob("site", "%s: returns a reply to its request" % q,
                           g.name in [A(r, "name") for r in reqs], w,
                           "returns %s" % show(p.val))
        # handlers: informs belonging to the request carry its name and id
    ctx.ob("site", "reply sites found", n >= 10, "katcp/server.py",
           "only %d reply sites" % n)


def decorators(ctx):
    """Decorated handlers answer with the name they were registered under."""
    for q in ("kattypes.make_reply",):
        fi = ctx.p.func(q)
        nm = P(fi.params[0])
        for p in ctx.paths(q, opaque={"core.Message.*", "kattypes.pack_types",
                                      "kattypes.Str"}):
            if p.kind == "return":
                g = as_msg(p.val)
                if g is None:
                    ctx.ob("decorator", "make_reply", None, ctx.where(q), show(p.val))
                    continue
                ctx.ob("decorator", "make_reply name", g.kind == "reply" and
                       g.name == nm, ctx.where(q), "builds %s" % show(p.val))
    for outer in ("return_reply", "send_reply"):
        for q in ctx.p.functions:
            if not q.startswith("kattypes.%s." % outer) or not q.endswith("raw_handler"):
                continue
            for p in ctx.paths(q, opaque={"core.Message.*", "kattypes.pack_types",
                                          "kattypes.make_reply",
                                          "kattypes.async_make_reply"}):
                for e in events(p, "call"):
                    if e.name in ("make_reply", "async_make_reply"):
                        x = e.args[0]
                        ok = x[0] == "outer" or \
                            (outer == "send_reply" and x[0] == "attr" and x[2] == "name")
                        ctx.ob("decorator", "%s names the reply after the handler"
                               % outer, ok or None, e.where, "name is %s" % show(x))
        q = "kattypes.%s.<locals>.decorator" % outer
        if outer == "return_reply" and ctx.p.has_func(q):
            src = [n for n in ast.walk(ctx.p.func(q).node) if isinstance(n, ast.Call) and
                   isinstance(n.func, ast.Name) and n.func.id == "convert_method_name"]
            for c in src:
                ok = len(c.args) == 2 and isinstance(c.args[0], ast.Constant) and \
                    c.args[0].value == "request_"
                ctx.ob("decorator", "name from the handler's method name", ok,
                       ctx.where(q), "")


PARTS = [constructors, request_connection, client_connection, sites, decorators]
