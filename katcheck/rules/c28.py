"""Message ids, decided as: on every path of the id assignment a message that has no id gets a
fresh one exactly when ids are in use (asked for, or not said and announced by the server) and
one that has an id keeps it; the id counter only ever goes up and is set back nowhere; a request
with an id is refused before sending when the server does not support ids and only then; every
request form goes through the assignment and the refusal with its own message and choice;
support is what the protocol flags in force say; flags the user preset are stored so that
neither a message of the server nor a restart replaces them.  The client is also followed through
histories of its operations (requests with and without ids, changing support, reconnections), driven as an abstract machine with
stand-ins for I/O loop, clock, stream and futures that are analysed with it, and compared after
every step with a list of pending requests kept beside it; thorough follows longer histories."""
import ast

from .. import clients
from ..engine import NONE, TRUE, FALSE, const, is_const, show
from ..lib import (A, decided, isnone, truthy, P, S, SELF, arg, attr_stores, call_name, events, has, path_str, returns,
                   tested, uses,
                   within)

MIN_OBLIGATIONS = 30
DC = "client.DeviceClient."
AC = "client.AsyncClient."
SUP = S("_server_supports_ids")


def assign(ctx):
    q = DC + "_get_mid_and_update_msg"
    w = ctx.where(q)
    msg, use = [P(x) for x in ctx.p.func(q).params[1:3]]
    mid = A(msg, "mid")
    seen = set()
    for p in returns(ctx.paths(q, opaque={DC + "_next_id"})):
        new = [e for e in events(p, "call") if e.name == "_next_id"]
        st = [e for e in events(p, "store") if e.base == msg]
        none = isnone(p, mid)
        if none is False:
            seen.add("given")
            ctx.ob("assign", "a given id is kept", not st and p.val == mid, w,
                   "a message that has an id is given %s and goes by %s" % (
                       [show(e.val) for e in st], show(p.val)))
            continue
        ctx.ob("assign", "one fresh id", len(new) == 1 and p.val == new[0].res if none
               else None, w, "the request goes by %s (path: %s)" % (show(p.val), path_str(p)))
        un = isnone(p, use)
        on = truthy(p, SUP) if un else truthy(p, use) if un is False else None
        if un is None and truthy(p, use):
            on = True
        if on is None and un is None and not events(p, "cond"):
            ctx.ob("assign", "id exactly when in use", False, w,
                   "ids are used without looking at the choice made")
            continue
        seen.add((un, on))
        if on:
            ok = len(st) == 1 and st[0].attr == "mid" and bool(new) and st[0].val == new[0].res
            ctx.ob("assign", "id set when in use", ok, w,
                   "a request that should have an id gets %s (path: %s)" % (
                       [show(e.val) for e in st], path_str(p)))
        else:
            ctx.ob("assign", "no id when not in use", not st if on is False else
                   (None if not st else False), w,
                   "a request gets an id that was not asked for or announced (path: %s)"
                   % path_str(p))
    ctx.ob("assign", "cases", len(seen) >= 4 or None, w, "%s" % seen)


def counter(ctx):
    q = DC + "_next_id"
    w = ctx.where(q)
    last = S("_last_msg_id")
    for p in returns(ctx.paths(q)):
        st = [e for e in events(p, "store") if e.base == SELF and e.attr == "_last_msg_id"]
        v = st[-1].val if st else None
        up = v is not None and v[0] == "bin" and v[1] == "Add" and (
            (v[2] == last and _pos(v[3])) or (v[3] == last and _pos(v[2])))
        ctx.ob("counter", "goes up", up if v is None or up or v[0] != "call" else None, w,
               "the next id is %s" % (show(v) if v else "the last one again"))
        ctx.ob("counter", "id is the new count", _decimal(p.val, v) if v else False, w,
               "the id is %s" % show(p.val))
    for fq, n in attr_stores(ctx, "_last_msg_id"):
        init = fq.endswith(".__init__")
        ctx.ob("counter", "writers", init or within(ctx, fq, (q, DC + "__init__")), ctx.where(fq),
               "%s also changes the id counter" % fq)
    # nothing calls __init__ again
    cls = {DC[:-1], AC[:-1]}
    for fq, fi in ctx.p.functions.items():
        if fq.startswith(DC) and not fq.endswith(".__init__"):
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and n.attr == "__init__":
                    ctx.ob("counter", "not reset", False, ctx.where(fq),
                           "%s initialises the client again" % fq)


def _pos(t):
    return is_const(t) and isinstance(t[2], int) and t[2] > 0


def _decimal(t, v):
    """Is t the decimal form of v and nothing else that could coincide?"""
    if not uses(t, v):
        return False
    if t[0] == "bin" and t[1] == "Mod" and is_const(t[2]) and t[3] in (v, ("tuple", (v,))):
        return t[2][2] in (b"%d", "%d", "%s", "%i", b"%i") or None
    if t[0] == "call" and call_name(t) in ("str", "repr", "format"):
        return True
    if t[0] == "call" and call_name(t) in ("encode", "ensure_bytes", "bytes", "newbytes",
                                           "native_str_to_bytes"):
        return True if any(x[0] == "call" and call_name(x) == "str" for x in _sub(t)) or any(
            x[0] == "bin" and x[1] == "Mod" for x in _sub(t)) else None
    return None


def _sub(t):
    from ..engine import subterms
    return list(subterms(t))


def refuse(ctx):
    q = DC + "send_request"
    w = ctx.where(q)
    msg = P(ctx.p.func(q).params[1])
    mid = A(msg, "mid")
    seen = set()
    for p in ctx.paths(q, opaque={DC + "send_message"}, no_fork_raise=True):
        sent = [e for e in events(p, "call") if e.name == "send_message"]
        has_id = truthy(p, mid)
        if has_id is None and isnone(p, mid) is False:
            has_id = True
        sup = truthy(p, SUP)
        if p.kind == "return":
            ctx.ob("refuse", "sent once", len(sent) == 1 and list(sent[0].args) == [msg], w,
                   "sent %d times" % len(sent))
            ctx.ob("refuse", "sent only if allowed", has_id is False or sup is True, w,
                   "a request with an id is sent to a server without support (path: %s)"
                   % path_str(p))
            seen.add("sent with id" if sup else "sent")
            continue
        exc = p.val[1] if p.kind == "raise" and isinstance(p.val, tuple) else None
        if exc == "AssertionError":
            ctx.ob("refuse", "only requests", not sent and tested(
                p, lambda a: has(("x",) + a[1:], lambda t: t == A(msg, "mtype"))), w, "")
            continue
        ctx.ob("refuse", "refused unsent", not sent, w,
               "a request is refused after it was sent")
        ctx.ob("refuse", "refused only without support", bool(has_id) and sup is False, w,
               "a request is refused though allowed (path: %s)" % path_str(p))
        ctx.ob("refuse", "client error", _sub_exc(ctx, exc, "KatcpClientError"), w,
               "refused with %s, which the request forms do not handle" % exc)
        seen.add("refused")
    ctx.ob("refuse", "cases", "refused" in seen or None if seen else None, w, "%s" % seen)
    # requests leave the client only this way
    for fq, fi in sorted(ctx.p.functions.items()):
        if not fq.startswith(("client.", "inspecting_client.", "resource_client.",
                              "resource.")):
            continue
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == "send_message":
                ok = fq == q or "handle_request" in fq
                ctx.ob("refuse", "senders", ok or None, "%s:%d" % (ctx.where(fq).split(":")[0], n.lineno),
                       "%s sends a message without the id check" % fq)


def _sub_exc(ctx, exc, base):
    todo, seen = [exc], set()
    while todo:
        c = todo.pop()
        if c is None or c in seen:
            continue
        seen.add(c)
        if c.split(".")[-1] == base:
            return True
        for k, ci in ctx.p.classes.items():
            if k == c or k.endswith("." + c):
                for b in ci.bases:
                    todo.append(b if isinstance(b, str) else getattr(b, "qual", str(b)))
    return False


def forms(ctx):
    for q in (DC + "request", AC + "callback_request"):
        w = ctx.where(q)
        fi = ctx.p.func(q)
        msg = P(fi.params[1])
        use = P("use_mid")
        if "use_mid" not in fi.params:
            ctx.ob("forms", "choice", None, w, "")
            continue
        for p in ctx.paths(q, opaque={DC + "send_request", DC + "_get_mid_and_update_msg",
                                      AC + "_push_async_request", AC + "handle_reply",
                                      AC + "_handle_timeout"}, no_fork_raise=True):
            if p.kind != "return":
                continue
            m = [e for e in events(p, "call") if e.name == "_get_mid_and_update_msg"]
            s = [e for e in events(p, "call") if e.name in ("send_request", "send_message")]
            ctx.ob("forms", "id chosen", len(m) == 1 and len(m[0].allargs()) == 2 and
                   arg(m[0], 0, "msg") == msg and arg(m[0], 1, "use_mid") == use, w,
                   "the id is chosen with %s" % [[show(a) for a in e.args] for e in m])
            ctx.ob("forms", "sent by the checked way", len(s) == 1 and
                   s[0].name == "send_request" and list(s[0].args) == [msg], w,
                   "sent by %s" % [e.name for e in s])
            if m and s:
                ctx.ob("forms", "id chosen before sending", m[0].idx < s[0].idx, w, "")
            if q.startswith(DC) and m:
                ctx.ob("forms", "returns the id", p.val == m[0].res, w,
                       "returns %s" % show(p.val))
    # the wrappers hand the message and the choice on
    for q, names in ((AC + "future_request", ("callback_request",)),
                     (AC + "blocking_request", ("future_request", "callback_request"))):
        fi = ctx.p.func(q)
        w = ctx.where(q)
        calls = [n for n in ast.walk(fi.node) if isinstance(n, ast.Call) and isinstance(
            n.func, ast.Attribute) and n.func.attr in names]
        callbacks = [n for n in ast.walk(fi.node) if isinstance(n, ast.Attribute) and
                     n.attr in names]
        ctx.ob("forms", "handed on", len(callbacks) == 1 if callbacks else None, w, "")
        for n in calls:
            v = next((k.value for k in n.keywords if k.arg == "use_mid"), None)
            if v is None and len(n.args) > 5 - 3 * (n.func.attr == "future_request"):
                v = n.args[-1]
            if v is None and any(k.arg is None for k in n.keywords):
                ctx.ob("forms", "choice handed on", None, "%s:%d" % (ctx.where(q).split(":")[0], n.lineno), "")
                continue
            ctx.ob("forms", "choice handed on", isinstance(v, ast.Name) and
                   v.id == "use_mid", "%s:%d" % (ctx.where(q).split(":")[0], n.lineno), "use_mid is not handed on")
            ctx.ob("forms", "message handed on", bool(n.args) and isinstance(
                n.args[0], ast.Name) and n.args[0].id == fi.params[1] or (None if not n.args
                else False), "%s:%d" % (ctx.where(q).split(":")[0], n.lineno), "another message is handed on")


def support(ctx):
    q = next((k for k in ctx.p.functions if k.startswith(DC + "protocol_flags") and
              len(ctx.p.functions[k].params) == 2), None)
    if q is None:
        ctx.ob("support", "setter", None, ctx.where(DC + "request"), "")
        return
    w = ctx.where(q)
    val = P(ctx.p.func(q).params[1])
    ps = returns(ctx.paths(q, no_fork_raise=True, opaque={"core.ProtocolFlags.supports"}))
    for p in ps:
        st = {}
        for e in events(p, "store"):
            if e.base == SELF:
                st[e.attr] = e.val
        ctx.ob("support", "flags kept", st.get("_protocol_flags") == val, w,
               "the flags in force become %s" % show(st.get("_protocol_flags", NONE)))
        v = st.get("_server_supports_ids")
        if v is None:
            ctx.ob("support", "support follows the flags", False, w,
                   "setting the flags does not change whether ids are used")
            continue
        ids = ctx.cconst("core.ProtocolFlags", "MESSAGE_IDS")
        a = v[2] if v[0] == "call" else ()
        good = v[0] == "call" and call_name(v) == "supports" and uses(v[1], val) and \
            len(a) == 1 and (a[0] == const(ids) or (a[0][0] == "cattr" and
                                                    a[0][2] == "MESSAGE_IDS"))
        good = good or v == A(val, "message_ids")
        ctx.ob("support", "support follows the flags", good or (
            False if v[0] in ("const",) or (v[0] == "call" and call_name(v) == "supports")
            else None), w, "ids are in use when %s" % show(v))
    q2 = "core.ProtocolFlags.supports"
    for p in returns(ctx.paths(q2, no_fork_raise=True)):
        f = P(ctx.p.func(q2).params[1])
        v = p.val
        want = ("in", f, S("flags"))
        ok = has(v, lambda t: t == S("flags")) and uses(v, f)
        ctx.ob("support", "flag lookup", ok or p.facts.get(want) is not None, ctx.where(q2),
               "supports() answers %s" % show(v))
    for attr, allowed in (("_server_supports_ids", (q, DC + "_init_state_per_run")),
                          ("_protocol_flags", (q, DC + "_init_state_per_run"))):
        for fq, n in attr_stores(ctx, attr):
            if fq.startswith("client."):
                ctx.ob("support", "writers of " + attr, within(ctx, fq, allowed),
                       ctx.where(fq), "%s also changes %s" % (fq, attr))


def preset(ctx):
    q = DC + "preset_protocol_flags"
    w = ctx.where(q)
    flags = P(ctx.p.func(q).params[1])
    for p in returns(ctx.paths(q, no_fork_raise=True, opaque=set())):
        st = {}
        for e in events(p, "store"):
            if e.base == SELF:
                st[e.attr] = e.val
        ctx.ob("preset", "marked as preset", st.get("_static_protocol_configuration") in (
            TRUE, const(True)), w, "presetting flags does not protect them")
        ctx.ob("preset", "remembered", st.get("_static_protocol_flags") == flags, w,
               "the preset flags are not remembered")
        ctx.ob("preset", "in force", flags in (st.get("protocol_flags"),
                                               st.get("_protocol_flags")), w,
               "the preset flags are not put in force")
    q = DC + "_set_protocol_from_inform"
    w = ctx.where(q)
    new = P(ctx.p.func(q).params[1])
    kept = put = 0
    for p in ctx.paths(q, no_fork_raise=True, opaque={DC + "_disconnect"}):
        st = [e for e in events(p, "store") if e.base == SELF and e.attr in (
            "protocol_flags", "_protocol_flags")]
        static = truthy(p, S("_static_protocol_configuration"))
        pf = (S("protocol_flags"), S("_protocol_flags"))
        cur = decided(p, lambda a: a[0] == "truth" and a[1] in pf)
        if cur is None:
            cur = decided(p, lambda a: a[0] == "is" and NONE in a[1:] and any(
                x in pf for x in a[1:]))
            cur = None if cur is None else not cur
        same = decided(p, lambda a: a[0] == "eq" and new in a[1:] and any(
            x in pf for x in a[1:]))
        if st and not same:
            put += 1
            ctx.ob("preset", "never overridden", static is False or cur is False, w,
                   "flags the user preset are overridden by the server (path: %s)"
                   % path_str(p))
            ctx.ob("preset", "announced flags put in force", st[-1].val == new, w,
                   "the flags become %s" % show(st[-1].val))
        else:
            kept += 1
            ctx.ob("preset", "announced flags are used unless preset", bool(static) or
                   bool(same) or p.kind == "raise", w,
                   "what the server announces is ignored (path: %s)" % path_str(p))
    ctx.ob("preset", "cases", (put > 0 and kept > 0) or None, w, "")
    q = DC + "_init_state_per_run"
    w = ctx.where(q)
    for p in returns(ctx.paths(q, no_fork_raise=True, opaque={
            DC + "preset_protocol_flags"})):
        static = truthy(p, S("_static_protocol_configuration"))
        pre = [e for e in events(p, "call") if e.name == "preset_protocol_flags"]
        sup = [e for e in events(p, "store") if e.base == SELF and e.attr in (
            "_server_supports_ids", "_protocol_flags")]
        direct = [e for e in events(p, "store") if e.base == SELF and
                  e.attr == "protocol_flags" and e.val == S("_static_protocol_flags")]
        if static:
            ok = (len(pre) == 1 and list(pre[0].args) == [S("_static_protocol_flags")]) or \
                len(direct) == 1
            at = (pre or direct or [None])[-1]
            ctx.ob("preset", "kept over a restart", ok, w,
                   "preset flags are lost when the client is started")
            ctx.ob("preset", "kept over a restart", not [e for e in sup if at and
                                                         e.idx > at.idx], w,
                   "preset flags are cleared after they are put in force")
        elif static is False:
            d = {e.attr: e.val for e in sup}
            ctx.ob("preset", "no ids before the server announced them",
                   d.get("_server_supports_ids") in (FALSE, const(False), NONE), w,
                   "ids are used before the server announced support")
            ctx.ob("preset", "no flags before the server announced them",
                   d.get("_protocol_flags") == NONE, w, "")
        elif sup:
            ctx.ob("preset", "kept over a restart", False, w,
                   "preset flags are lost when the client is started")
    for attr in ("_static_protocol_configuration", "_static_protocol_flags"):
        for fq, n in attr_stores(ctx, attr):
            ctx.ob("preset", "writers of " + attr, within(ctx, fq, (DC + "__init__",
                   DC + "preset_protocol_flags")), ctx.where(fq),
                   "%s also changes the preset flags" % fq)
    for fq, n in attr_stores(ctx, "protocol_flags"):
        if fq.startswith("client."):
            ctx.ob("preset", "writers of protocol_flags", within(ctx, fq, (
                DC + "preset_protocol_flags", DC + "_set_protocol_from_inform",
                DC + "_init_state_per_run")), ctx.where(fq),
                "%s also changes the flags in force" % fq)


def announced(ctx):
    q = DC + "inform_version_connect"
    w = ctx.where(q)
    msg = P(ctx.p.func(q).params[1])
    args = A(msg, "arguments")
    n = 0
    for p in returns(ctx.paths(q, no_fork_raise=True, opaque={
            DC + "_set_protocol_from_inform", "core.ProtocolFlags.parse_version"})):
        st = [e for e in events(p, "call") if e.name == "_set_protocol_from_inform"]
        proto = decided(p, lambda a: a[0] == "eq" and any(
            is_const(x) and x[2] in (b"katcp-protocol", "katcp-protocol") for x in a[1:]))
        short = tested(p, lambda a: a[0] == "lt" and has(("x",) + a[1:], lambda t:
                                                         t == args))
        if proto:
            n += 1
            v = st[0].args[0] if st and st[0].args else None
            ok = len(st) == 1 and v is not None and call_name(v) == "parse_version" and \
                v[2] and has(v[2][0], lambda t: t[0] == "item" and t[1] == args and
                             t[2] == const(1))
            ctx.ob("announced", "protocol version is parsed and used", ok, w,
                   "the protocol the server announces becomes %s" % (
                       show(v) if v else "nothing"))
        elif proto is False or short:
            ctx.ob("announced", "nothing else sets the protocol", not st, w,
                   "another version inform sets the protocol")
        else:
            ctx.ob("announced", "nothing else sets the protocol", None if not st else False,
                   w, "any version inform sets the protocol")
    ctx.ob("announced", "cases", n > 0 or None, w, "")
    q = DC + "_set_v4_protocol"
    for p in returns(ctx.paths(q, no_fork_raise=True, opaque={
            DC + "_set_protocol_from_inform"})):
        st = [e for e in events(p, "call") if e.name == "_set_protocol_from_inform"]
        v = st[0].args[0] if st else None
        ok = len(st) == 1 and v[0] == "new" and v[1].endswith("ProtocolFlags") and \
            v[2][:1] == (const(4),) and v[2][2] in (const(""), const(b""))
        ctx.ob("announced", "version 4 has no ids", ok or None if v is not None and
               v[0] != "new" else ok, ctx.where(q), "a v4 server gives %s" % (
                   show(v) if v else "nothing"))
    q = "core.ProtocolFlags.__init__"
    w = ctx.where(q)
    fl = P("flags")
    ok = 0
    for p in ctx.paths(q, no_fork_raise=True, raise_all=False):
        st = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
        if p.kind == "return":
            v = st.get("flags")
            ctx.ob("announced", "flags kept", v is not None and uses(v, fl), w, "")
            ok += 1
    ctx.ob("announced", "flags", ok > 0 or None, w, "")


def functions(ctx):
    return [DC + n for n in ("_get_mid_and_update_msg", "_next_id", "send_request", "request",
                             "_set_protocol_from_inform", "preset_protocol_flags",
                             "_init_state_per_run", "inform_version_connect",
                             "_set_v4_protocol")] + [
        AC + "callback_request", AC + "future_request", AC + "blocking_request",
        "core.ProtocolFlags.supports", "core.ProtocolFlags.__init__"]


def histories(ctx):
    clients.ids(ctx)


PARTS = [assign, counter, refuse, forms, support, preset, announced, histories]
