"""Matching: handle_reply and handle_inform are walked over every path with the pending-request
lookups kept as symbols.  A message with an id is looked up by exactly that id; one without by
its name, and is delivered only if the request found has no id of its own.  What is called is
the reply (or inform) callback of the entry that was looked up, with that entry's user data and
this message; a reply takes its entry out, an inform never does; where nothing is delivered the
message goes once to the unsolicited handling and no entry is taken out.  The lookup functions
are walked too: by name they pick the oldest id, a removal takes the id out of both tables and a
miss changes nothing; ids are appended in the order requests are made.  The client is also followed through
histories of its operations (replies and informs with the id of a request, another or none), driven as an abstract machine with
stand-ins for I/O loop, clock, stream and futures that are analysed with it, and compared after
every step with a list of pending requests kept beside it; thorough follows longer histories."""
import ast

from .. import asyncreq as R, clients
from ..engine import NONE, const, is_const, show
from ..lib import (A, P, S, SELF, arg, call_name, events, has, is_log, path_str, raised,
                   returns, tested, uses)

MIN_OBLIGATIONS = 25
AC, DC = R.AC, R.DC


def _deliver(ctx, m):
    q = AC + m
    w = ctx.where(q)
    msg = P(ctx.p.func(q).params[1])
    mid, name = A(msg, "mid"), A(msg, "name")
    want = R.REPLY if m == "handle_reply" else R.INFORM
    seen = set()
    for p in ctx.paths(q, opaque=R.LOOKUPS | R.BASEH | {"core.Message.*"},
                       noraise=lambda e: True):
        looks = R.lookups(p)
        pops = [e for e in looks if e.name == "_pop_async_request"]
        hasmid = None
        for e in events(p, "cond"):
            if e.extra[0] == "is" and mid in e.extra[1:] and NONE in e.extra[1:]:
                hasmid = not e.val
            elif e.extra == ("truth", mid):
                hasmid = e.val if e.val else None
        dl = R.deliveries(p, looks)
        df = R.defaults(p, m)
        if any(R.missing(p, ent) for _, ent, _ in dl):
            continue            # a miss has no callbacks either
        for e in looks:
            a0 = e.args[0] if e.args else NONE
            a1 = e.args[1] if len(e.args) > 1 else NONE
            if hasmid:
                ctx.ob(m, "looked up by the message's id", a0 == mid, e.where,
                       "a message with an id is looked up as (%s, %s)" % (
                           show(a0), show(a1)))
            elif hasmid is False:
                ctx.ob(m, "looked up by the message's name",
                       a0 in (NONE, mid) and a1 == name, e.where,
                       "a message without id is looked up as (%s, %s)" % (
                           show(a0), show(a1)))
        if m == "handle_inform":
            ctx.ob(m, "an inform leaves its request pending", not pops, w,
                   "an inform removes the pending request")
        for e, ent, k in dl:
            seen.add("delivered")
            ctx.ob(m, "the right callback", k == want, e.where,
                   "a %s is given to the %s callback" % (m[7:], ("request", "reply",
                                                                "inform", "data",
                                                                "timeout")[k]))
            ctx.ob(m, "this message", e.args and e.args[0] == msg, e.where,
                   "delivered: %s" % [show(a) for a in e.args])
            rest = e.args[1:]
            ok = all(x[0] == "star" and R.field(x[1], [ent]) == (ent, R.DATA)
                     for x in rest)
            ctx.ob(m, "the request's own user data", ok, e.where,
                   "delivered with %s" % [show(a) for a in rest])
            if hasmid is False:
                own = tested(p, lambda a: a[0] == "is" and NONE in a[1:] and any(
                    x[0] == "attr" and x[2] == "mid" and R.field(x[1], looks) and R.field(
                        x[1], looks)[1] == R.REQ for x in a[1:]), True, e.idx)
                ctx.ob(m, "no id: only to a request without id", own, e.where,
                       "a message without id is delivered to a request that has one "
                       "(path: %s)" % path_str(p))
            if m == "handle_reply":
                same = [x for x in pops if x is ent or x.args == ent.args]
                ctx.ob(m, "a reply removes its request", bool(same), e.where,
                       "a reply leaves its request pending")
        ctx.ob(m, "delivered once", len(dl) + len(df) == 1, w,
               "the message is delivered %d times and treated as unsolicited %d times "
               "(path: %s)" % (len(dl), len(df), path_str(p)))
        for e in df:
            seen.add("unsolicited")
            ctx.ob(m, "unsolicited: this message", len(e.args) == 1 and e.args[0] == msg,
                   e.where, "passed on: %s" % [show(a) for a in e.args])
        if hasmid is False and pops:
            own = tested(p, lambda a: a[0] == "is" and NONE in a[1:] and any(
                x[0] == "attr" and x[2] == "mid" and R.field(x[1], looks) for x in a[1:]),
                True)
            ctx.ob(m, "no id: requests with ids stay pending", own, pops[0].where,
                   "a reply without id removes a request that has one (path: %s)"
                   % path_str(p))
        ctx.ob(m, "looked up", bool(looks), w,
               "a %s is not matched to the pending requests (path: %s)" % (
                   m[7:], path_str(p)))
    for k in ("delivered", "unsolicited"):
        ctx.ob(m, "%s case exists" % k, True if k in seen else None, w, "")


def replies(ctx):
    _deliver(ctx, "handle_reply")


def informs(ctx):
    _deliver(ctx, "handle_inform")


def _base(t):
    """Which table a subscript / method goes to: 'queue', 'stack' or None."""
    if t == S("_async_queue"):
        return "queue"
    if has(t, lambda x: x == S("_async_id_stack")):
        return "stack"
    if has(t, lambda x: x == S("_async_queue")):
        return "queue"
    return None


def table(ctx):
    q = AC + "_msg_id_for_name"
    w = ctx.where(q)
    nm = P(ctx.p.func(q).params[1])
    n = 0
    for p in returns(ctx.paths(q, no_fork_raise=True)):
        v = p.val
        if v == NONE:
            continue
        n += 1
        ok = None
        if v[0] == "item" and _base(v[1]) == "stack":
            ok = is_const(v[2]) and v[2][2] == 0 and uses(v[1], nm)
        elif v[0] == "call" and call_name(v) == "next":
            ok = None
        elif v[0] == "call" and call_name(v) == "pop":
            ok = False
        ctx.ob("table", "the oldest id of the name", ok, w,
               "requests of one name are answered by %s" % show(v))
        ctx.ob("table", "lookup changes nothing", not [e for e in p.events if e.kind in (
            "delitem", "setitem") or e.kind == "call" and e.name in (
                "pop", "remove", "append", "popleft", "clear") and _base(
                    e.recv or NONE)], w, "")
    ctx.ob("table", "lookup by name", n > 0 or None, w, "")
    # appended in order
    q = AC + "_push_async_request"
    w = ctx.where(q)
    mid, req = P(ctx.p.func(q).params[1]), P(ctx.p.func(q).params[2])
    n = 0
    for p in returns(ctx.paths(q, no_fork_raise=True)):
        n += 1
        app = [e for e in events(p, "call") if e.recv is not None and
               _base(e.recv) == "stack" and e.name in ("append", "insert", "appendleft",
                                                       "extend")]
        sets = [e for e in events(p, "setitem") if _base(e.base) == "stack"]
        other = [e for e in events(p, "call") if _base(e.recv or NONE) == "stack" and
                 e.name == "setdefault"]
        if app:
            ctx.ob("table", "ids are appended", all(
                e.name == "append" and e.args[0] == mid for e in app) and len(app) == 1,
                w, "a new request's id is put with %s" % [e.name for e in app])
            ctx.ob("table", "under the request's name", all(
                uses(e.recv, A(req, "name")) for e in app), w, "")
        elif sets:
            e = sets[-1]
            v = p.contents(e.val) if e.val[0] == "list" else None
            ok = None
            if e.val[0] in ("list", "tuple"):
                ok = tuple(e.val[1]) == (mid,) or (v is not None and tuple(v) == (mid,))
            elif e.val[0] == "bin" and e.val[1] == "Add":
                r = e.val[3]
                ok = r[0] in ("list", "tuple") and tuple(r[1]) == (mid,)
            ctx.ob("table", "ids are appended", ok, w,
                   "a new request's id is stored as %s" % show(e.val))
            if ok and e.val[0] in ("list", "tuple"):
                nn = tested(p, lambda a: (a[0] == "in" and a[1] == A(req, "name") and
                                          _base(a[2]) == "stack") or a[0] == "truth" and
                            _base(a[1]) == "stack", False) or tested(
                    p, lambda a: a[0] == "is" and any(
                        _base(x) == "stack" for x in a[1:]), True)
                ctx.ob("table", "earlier ids are kept", nn, w,
                       "a new request forgets the earlier ones of its name")
        else:
            ctx.ob("table", "ids are appended", False if not other else None, w,
                   "a new request is not found by its name (path: %s)" % path_str(p))
        q_ = [e for e in events(p, "setitem") if e.base == S("_async_queue")]
        ctx.ob("table", "entry stored under its id", len(q_) == 1 and _key(q_[0]) == mid
               if q_ else None, w, "")
        if q_ and q_[0].val[0] == "tuple":
            pars = [P(x) for x in ctx.p.func(q).params[2:]]
            ctx.ob("table", "entry layout", list(q_[0].val[1]) == pars[:len(
                q_[0].val[1])] and len(q_[0].val[1]) == 5, w,
                "an entry is stored as %s" % show(q_[0].val))
    for m, removes in (("_pop_async_request", True), ("_peek_async_request", False)):
        q = AC + m
        w = ctx.where(q)
        pm, pn = [P(x) for x in ctx.p.func(q).params[1:3]]
        for p in returns(ctx.paths(q, no_fork_raise=True,
                                   opaque={AC + "_msg_id_for_name"})):
            byname = tested(p, lambda a: a[0] == "is" and pm in a[1:] and NONE in a[1:],
                            True)
            nocall = [e for e in events(p, "call") if e.name == "_msg_id_for_name"]
            key = nocall[0].res if byname and nocall else pm
            if byname:
                ctx.ob("table", "%s by name" % m, len(nocall) == 1 and
                       nocall[0].args == (pn,) or None if not nocall else
                       list(nocall[0].args) == [pn], w, "")
            else:
                ctx.ob("table", "%s by id" % m, not nocall, w,
                       "a lookup with an id uses the name")
            hit = None
            for e in events(p, "cond"):
                a = e.extra
                if a[0] == "in" and a[1] == key and a[2] == S("_async_queue"):
                    hit = e.val
            v = p.val
            rem = [e for e in p.events if e.kind == "delitem" or e.kind == "call" and
                   e.recv is not None and e.name in ("pop", "remove", "popleft", "clear")
                   and _base(e.recv)]
            if hit is None:
                for e in events(p, "cond"):
                    a = e.extra
                    if a[0] == "is" and NONE in a[1:] and has(a[1], lambda x: x == S(
                            "_async_queue")):
                        hit = not e.val
            if hit is False:
                ctx.ob("table", "%s: a miss changes nothing" % m, not [
                    e for e in rem if e.name != "pop"], w,
                    "a lookup that finds nothing removes something")
                ctx.ob("table", "%s: a miss gives nothing" % m, v[0] in ("tuple",) and all(
                    x == NONE for x in v[1]) and len(v[1]) == 5 if v[0] == "tuple"
                    else None, w, "a lookup that finds nothing returns %s" % show(v))
            elif hit:
                ok = has(v, lambda x: x == S("_async_queue")) and uses(v, key)
                ctx.ob("table", "%s: the entry of the id" % m, ok, w,
                       "returns %s" % show(v))
                qd = [e for e in rem if e.kind == "delitem" and _key(e) == key and
                      e.base == S("_async_queue") or e.kind == "call" and
                      e.recv == S("_async_queue") and e.args and e.args[0] == key]
                sd = [e for e in rem if e.kind == "call" and _base(e.recv) == "stack" and
                      e.recv != S("_async_queue")]
                if removes:
                    ctx.ob("table", "taken out of the table", len(qd) == 1, w,
                           "a request that was answered stays pending (path: %s)"
                           % path_str(p))
                    ok = len(sd) == 1 and (
                        sd[0].name == "remove" and tuple(sd[0].args) == (key,) or
                        _popped(sd[0], byname)) if sd else (
                            None if any(e.kind == "setitem" for e in p.events) else False)
                    ctx.ob("table", "taken off the name's list", ok, w,
                           "the id of an answered request stays on its name's list")
                else:
                    ctx.ob("table", "peeking keeps the entry", not rem, w,
                           "looking at a pending request removes it")


def _popped(e, byname):
    if e.name == "remove":
        return False
    if e.name in ("pop", "popleft"):
        a = e.args[0] if e.args else (const(0) if e.name == "popleft" else const(-1))
        return (None if byname and a == const(0) else False) if is_const(a) else None
    return None


def _key(e):
    return e.val if e.kind == "delitem" else e.extra


def histories(ctx):
    clients.matches(ctx)


PARTS = [replies, informs, table, histories]
