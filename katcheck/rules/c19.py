"""Symbolic counting over paths: on every path of each built-in request the informs sent are grouped
by the loop they are sent in; the number in the reply must be the length of exactly the collections
looped over with one inform per element (plus the informs outside loops).  The collections are
traced to the server's table of that kind and the filter applied to it is compared with the
request's argument; a path that fails sends no inform; an unknown exact name leads only to
failures.  Beside that every request is evaluated on tables of up to three generic items for every
kind of argument (none, known, unknown, part of a known name, patterns): the informs and the reply
are compared with the items that match."""
import collections
import re

from ..engine import NONE, const, is_const, show, subterms
from ..machine import Tally, Thing, Undecided, World
from ..teval import Fut, Record, Unknown
from ..walk import Fun, Obj
from ..lib import (A, P, S, SELF, call_name, decided, events, has, path_str, uses)

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ["the tables do not change while a built-in request is handled (the handlers do "
               "not yield; the tables are changed in the loop's thread)"]
# request -> (table, fields of an inform)
REQS = {"help": "_request_handlers", "client_list": "_client_conns",
        "version_list": "extra_versions", "sensor_list": "_sensors",
        "sensor_value": "_sensors", "request_timeout_hint": "_request_handlers"}
WRAP = ("sorted", "list", "tuple", "reversed", "iter", "ensure_native_str")


def norm(t):
    """A collection without copies, order and item views."""
    while t[0] == "call":
        if t[1][0] == "attr" and call_name(t) in ("items", "keys", "values", "copy") and \
                not t[2]:
            t = t[1][1]
        elif t[1][0] == "ext" and call_name(t) in WRAP and t[2]:
            t = t[2][0]
        else:
            break
    if t[0] == "comp" and t[4] in ((), (const(True),)) or t[0] == "comp" and all(
            x == const(True) for x in t[4]):
        # an unfiltered comprehension has one element per element
        if len(t[3]) == 1:
            return norm(t[3][0])
    return t


def parts(t):
    """A collection as a list of collections and numbers of elements."""
    t = norm(t)
    if t[0] == "bin" and t[1] == "Add":
        return parts(t[2]) + parts(t[3])
    if t[0] in ("list", "tuple") and isinstance(t[1], tuple) and (
            t[0] == "tuple" or t[1]):
        if any(x[0] == "star" for x in t[1]):
            return [t]
        return [len(t[1])]
    return [t]


def count(t):
    """What a number is, as a list of collections and numbers; None if not understood."""
    if is_const(t):
        try:
            return [int(t[2])]
        except (TypeError, ValueError):
            return None
    if t[0] == "call":
        n = call_name(t)
        if n in ("str", "int") and len(t[2]) == 1:
            return count(t[2][0])
        if n == "len" and len(t[2]) == 1:
            return parts(t[2][0])
        if n == "encode":
            return count(t[1][1])
        if n == "format" and is_const(t[1][1]) and t[1][1][2] in ("{}", "{:d}", "{0}"):
            return count(t[2][0])
    if t[0] == "bin" and t[1] == "Add":
        a, b = count(t[2]), count(t[3])
        return None if a is None or b is None else a + b
    if t[0] == "bin" and t[1] == "Mod" and is_const(t[2]) and t[2][2] in ("%d", "%s"):
        x = t[3]
        return count(x[1][0] if x[0] == "tuple" else x)
    if t[0] == "bin" and t[1] == "Sub" and is_const(t[3]):
        a, b = count(t[2]), count(t[3])
        return None if a is None else a + [-b[0]]
    return None


def canon(l):
    n = sum(x for x in l if isinstance(x, int))
    return n, sorted((x for x in l if not isinstance(x, int)), key=repr)


def sent(p, req):
    """(informs outside loops, {collection: [informs in each round]}, nested?)"""
    flat, loops, stack, odd = 0, {}, [], False
    for e in p.events:
        if e.kind == "iter":
            if e.extra == "comp":
                continue
            if not stack or stack[-1][0] != e.val or e.extra == 0:
                stack.append([e.val, []])
            stack[-1][1].append(0)
        elif e.kind in ("enditer", "breakiter"):
            if e.extra == "comp":
                continue
            if stack and stack[-1][0] == e.val:
                c, r = stack.pop()
                if e.kind == "breakiter" and any(r):
                    odd = True
                if any(r) or e.kind == "breakiter":
                    loops.setdefault(c, []).append(r)
        elif e.kind == "call" and is_inform(e, req):
            if stack:
                stack[-1][1][-1] += 1
                if len(stack) > 1:
                    odd = True
            else:
                flat += 1
        elif e.kind in ("while", "endwhile"):
            pass
    return flat, loops, odd


def is_inform(e, req):
    return e.name == "inform" and e.recv == req


def reply(p, req):
    """("ok"/"fail", number term) of a returned reply, or None."""
    v = p.val
    if v is None:
        return None
    a = None
    if v[0] == "call" and v[1][0] == "attr" and v[1][1] == req and v[1][2] in (
            "make_reply", "reply"):
        a = v[2]
    elif v[0] == "tuple":
        a = v[1]
    if not a or not is_const(a[0]):
        return None
    st = a[0][2]
    st = st.decode() if isinstance(st, bytes) else st
    return st, list(a[1:])


def loops_seen(p):
    """Collections looped over at all (even if empty)."""
    return {e.val for e in p.events if e.kind in ("iter", "enditer") and e.extra != "comp"}


def _paths(ctx, q):
    return ctx.paths(q, loop_max=2, no_fork_raise=True, max_paths=4000,
                     opaque={"core.*", "kattypes.*"})


def counts(ctx):
    for r, table in sorted(REQS.items()):
        q = "server.DeviceServer.request_" + r
        fi = ctx.p.func(q)
        w, req = fi.where, P(fi.params[1])
        n = 0
        # collections looped over with informs, over all paths
        full = {}
        ps = [p for p in _paths(ctx, q) if p.kind != "cut"]
        for p in ps:
            _, loops, _ = sent(p, req)
            for c, rs in loops.items():
                full.setdefault(repr(canon(parts(c))), c)
        for p in ps:
            flat, loops, odd = sent(p, req)
            if p.kind == "raise":
                ctx.ob("counts", "%s no informs before a failure" % r, not flat and
                       not loops, w, "informs are sent and then the request fails (path: %s)"
                       % path_str(p))
                continue
            rep = reply(p, req)
            if rep is None:
                ctx.ob("counts", "%s reply" % r, None, w, show(p.val))
                continue
            st, num = rep
            if st != "ok":
                ctx.ob("counts", "%s no informs with a failure" % r, not flat and not loops,
                       w, "informs are sent and then the request fails (path: %s)"
                       % path_str(p))
                continue
            n += 1
            got = count(num[0]) if len(num) == 1 else None
            if got is None:
                ctx.ob("counts", "%s number" % r, None if num else False, w,
                       "the reply is %s" % [show(x) for x in num])
                continue
            ctx.ob("counts", "%s loops are complete" % r, not odd, w,
                   "a loop sending informs is left early or nested (path: %s)" % path_str(p))
            for c, rs in loops.items():
                for rounds in rs:
                    ctx.ob("counts", "%s one inform per item" % r, all(
                        x == 1 for x in rounds), w, "for %s the items get %s informs (path: "
                        "%s)" % (show(c), rounds, path_str(p)))
            want = [flat]
            for c, rs in loops.items():
                for _ in rs:
                    want += parts(c)
            for c in loops_seen(p):
                # looped over, but empty on this path
                if c not in loops and repr(canon(parts(c))) in full:
                    want += parts(c)
            rounds = flat + sum(sum(x) for rs in loops.values() for x in rs)
            g, k = canon(got), canon(want)
            same = g == k
            if not same and not g[1]:
                # a counter: the number on this path is the number of informs on it
                same = g[0] == rounds
            if not same and g[1] and not k[1]:
                same = None if loops else g == k
            if not same and g[1] and k[1] and same is not None:
                same = _alias(p, g, k)
            ctx.ob("counts", "%s the number is that of the informs" % r, same, w,
                   "the reply counts %s but %s informs are sent (path: %s)" % (
                       _s(g), _s(k), path_str(p)))
            # changed between counting and sending?
            for e in events(p, "call"):
                if call_name(e.res) == "len" and e.allargs():
                    c = norm(e.allargs()[0])
                    ch = [x for x in p.events[e.idx:] if x.kind in ("setitem", "delitem")
                          and x.base == c or x.kind == "call" and x.recv == c and x.name in (
                              "append", "pop", "remove", "add", "extend", "update", "clear")]
                    ctx.ob("counts", "%s counted when complete" % r, not ch, e.where,
                           "%s changes after it was counted" % show(c))
        ctx.ob("counts", "%s replies" % r, n >= 2, w, "%d" % n)


def _alias(p, g, k):
    """Comprehensions over the counted collection do not change its length unless filtered."""
    if g[0] != k[0] or len(g[1]) != len(k[1]):
        return False
    for a, b in zip(g[1], k[1]):
        if a != b and (a[0] in ("elem", "yield", "param") or b[0] in ("elem", "yield")):
            return None
    return False


def _s(g):
    return " + ".join(["%d" % g[0]] * bool(g[0]) + ["len(%s)" % show(x) for x in g[1]]) or "0"


def base(t):
    """The server's table a collection comes from, and the conditions on its elements."""
    t0, conds = norm(t), []
    while t0[0] == "comp":
        conds += [x for x in t0[4] if x != const(True)]
        if len(t0[3]) != 1:
            return t0, conds
        t0 = norm(t0[3][0])
    return t0, conds


def items(ctx):
    for r, table in sorted(REQS.items()):
        q = "server.DeviceServer.request_" + r
        fi = ctx.p.func(q)
        w, req = fi.where, P(fi.params[1])
        msg = P(fi.params[2])
        T = S(table)
        n = 0
        for p in _paths(ctx, q):
            if p.kind != "return":
                continue
            rep = reply(p, req)
            if rep is None or rep[0] != "ok":
                continue
            flat, loops, odd = sent(p, req)
            infs = [e for e in events(p, "call") if is_inform(e, req)]
            for c, rs in loops.items():
                n += 1
                for el in [c] if not c[0] == "bin" else [c]:
                    srcs = [base(x) for x in _split(el)]
                    _source(ctx, r, p, T, srcs, msg, w)
            for e in infs:
                _fields(ctx, r, p, e, T, msg, w)
            if flat and not loops:
                n += 1
                nm = infs[0].allargs()[0]
                ok = decided(p, lambda a: a[0] == "in" and a[1] == nm and a[2] == T)
                ctx.ob("items", "%s reports only known names" % r, ok is True or (
                    None if not is_const(nm) and not uses(nm, msg) else False), w,
                    "a name that was not looked up is reported (path: %s)" % path_str(p))
        ctx.ob("items", "%s analysed" % r, n >= 1, w, "")


def _split(c):
    c = norm(c)
    if c[0] == "bin" and c[1] == "Add":
        return _split(c[2]) + _split(c[3])
    return [c]


def _given(p, msg):
    """Was an argument given?  (None: the path does not know)"""
    return decided(p, lambda a: a[0] == "truth" and (a[1] == A(msg, "arguments") or
                                                     a[1] == msg))


def _pattern(t, msg):
    """Is t the argument as text?"""
    return has(t, lambda x: x == ("item", A(msg, "arguments"), const(0)) or x == msg)


def _source(ctx, r, p, T, srcs, msg, w):
    given = _given(p, msg)
    for s, conds in srcs:
        if s[0] in ("list", "tuple") and isinstance(s[1], tuple) and s[1]:
            if r == "version_list":
                ks = [x[1][0] for x in s[1] if x[0] == "tuple"]
                ks = {x[2] if not isinstance(x[2], bytes) else x[2].decode()
                      for x in ks if is_const(x)}
                ctx.ob("items", "version_list built-in items", ks == {
                    "katcp-protocol", "katcp-library", "katcp-device"}, w, repr(ks))
                continue
            ctx.ob("items", "%s source" % r, None, w, show(s))
            continue
        if s[0] == "dict" or s[0] == "list":
            # collected on this path: every element of the table, or the one asked for
            for e in p.events:
                if e.kind == "setitem" and e.base == s:
                    k = e.extra
                    known = k == ("elem", T, k[2]) if k[0] == "elem" and len(k) > 2 else \
                        k[0] == "elem" and k[1] == T
                    if not known:
                        known = decided(p, lambda a: a[0] == "in" and a[1] == k and
                                        a[2] == T) is True
                    ctx.ob("items", "%s collects known items" % r, known, e.where,
                           "%s is collected" % show(k))
            if r == "request_timeout_hint":
                _hints(ctx, p, s, T, w)
            continue
        ctx.ob("items", "%s reports the whole table" % r, s == T or (
            None if not has(s, lambda x: x[0] == "attr" and x[1] == SELF) else False), w,
            "the items come from %s" % show(s))
        if r in ("sensor_list", "sensor_value"):
            if given is False:
                ctx.ob("items", "%s without a name reports all" % r, not conds, w,
                       "without an argument only items with %s are reported"
                       % [show(x) for x in conds])
                continue
            ctx.ob("items", "%s filters by the name" % r, len(conds) == 1 or (
                _nofilter_ok(p, msg) if not conds else None), w,
                "items are filtered by %s (path: %s)" % ([_sa(x) for x in conds], path_str(p)))
            for x in conds:
                kind, ok = _filter(x, T, msg)
                ctx.ob("items", "%s filter" % r, ok, w, "items are filtered by %s" % _sa(x))
                if kind == "exact":
                    # nothing found is a failure
                    found = [e for e in p.events if e.kind == "cond" and
                             e.extra[0] == "truth" and base(e.extra[1])[1] == conds]
                    ctx.ob("items", "%s unknown name refused" % r, bool(found) and
                           found[-1].val, w, "an unknown name is reported as ok (path: %s)"
                           % path_str(p))
                if kind:
                    slash = _slashes(p)
                    ctx.ob("items", "%s %s only when asked" % (r, kind), slash is None or
                           slash is (kind == "regex"), w, "a %s is used as %s" % (
                               "pattern" if slash else "name", kind))
        else:
            ctx.ob("items", "%s reports every item" % r, not conds, w,
                   "only items with %s are reported" % [_sa(x) for x in conds])


def _sa(x):
    try:
        return show(x)
    except Exception:
        return repr(x)


def _nofilter_ok(p, msg):
    """A missing filter is fine where the argument is known to be absent (None)."""
    return any(e.kind == "cond" and e.val and e.extra[0] == "is" and e.extra[2] == NONE and
               _pattern(e.extra[1], msg) for e in p.events)


def _slashes(p):
    """Is the argument known to be (not) of the form /.../ ?"""
    a = [e.val for e in p.events if e.kind == "cond" and e.extra[0] == "truth" and
         call_name(e.extra[1]) in ("startswith", "endswith")]
    if any(x is False for x in a):
        return False
    return True if len(a) >= 2 else None


def _filter(x, T, msg):
    """(kind of filter, is it right?)"""
    pos = True
    if x[0] == "not":
        x, pos = x[1], False
    if x[0] == "cmp":
        x, pos = x[1], pos == x[2]
    name = lambda t: t[0] == "elem" and norm(t[1]) == T
    if x[0] == "eq":
        sides = x[1:3]
        if any(name(t) for t in sides) and any(_pattern(t, msg) for t in sides):
            return "exact", pos
        return None, None
    if x[0] == "in" and any(name(t) for t in x[1:]) and any(_pattern(t, msg) for t in x[1:]):
        return "exact", False
    c = x if x[0] == "call" else x[1] if x[0] == "truth" else NONE
    if call_name(c) in ("startswith", "endswith", "find", "count") and (
            name(c[1][1]) or _pattern(c[1][1], msg)):
        return "exact", False
    if x[0] in ("truth", "is") and x[1][0] == "call":
        f = call_name(x[1])
        if x[0] == "is":
            pos = not pos
        if f in ("search", "match", "fullmatch"):
            a = x[1][2]
            if not any(name(t) for t in a):
                return "regex", False if a else None
            return "regex", pos and f == "search"
    if x[0] == "call" and call_name(x) in ("search", "match", "fullmatch"):
        return "regex", call_name(x) == "search" and any(name(t) for t in x[2])
    return None, None


def _hints(ctx, p, s, T, w):
    key = None
    for e in p.events:
        if e.kind == "iter" and norm(e.val) == T:
            key = e
    if key is None:
        return
    # rounds over the table: an item is collected exactly when it has a hint
    rounds, cur = [], None
    for e in p.events:
        if e.kind == "iter" and norm(e.val) == T:
            cur = []
            rounds.append(cur)
        elif e.kind == "enditer" and norm(e.val) == T:
            cur = None
        elif cur is not None:
            cur.append(e)
    for rd in rounds:
        hint = [e.val for e in rd if e.kind == "cond" and e.extra[0] == "truth" and has(
            e.extra[1], lambda x: x[0] == "attr" and x[2] == "request_timeout_hint" or
            x == const("request_timeout_hint"))]
        col = [e for e in rd if e.kind == "setitem" and e.base == s]
        if hint:
            ctx.ob("items", "hints: every request with a hint", bool(col) == hint[-1], w,
                   "a request %s a hint is %s" % ("with" if hint[-1] else "without",
                                                  "reported" if col else "left out"))
        else:
            ctx.ob("items", "hints: looks at the hint", None, w, path_str(p))


FIELDS = {"sensor_list": ("name", "description", "units", "stype")}


def _fields(ctx, r, p, e, T, msg, w):
    a = e.allargs()
    el = lambda t: t[0] == "elem"
    val = lambda t: t[0] == "item" and has(t[1], lambda x: x == T) and (
        el(t[2]) or _pattern(t[2], msg))
    if r == "help":
        ok = len(a) == 2 and has(a[1], lambda x: x[0] == "attr" and x[2] == "__doc__" and
                                 x[1][0] == "item" and x[1][2] == a[0])
        ctx.ob("items", "help inform", ok or (None if len(a) == 2 and a[1][0] not in (
            "const", "attr") else False), e.where, "informs %s" % [show(x) for x in a])
    elif r == "client_list":
        ok = len(a) == 1 and a[0][0] == "attr" and a[0][2] == "address" and el(a[0][1])
        ctx.ob("items", "client_list inform", ok or None, e.where, show(a[0]))
    elif r == "sensor_list":
        s = a[1][1] if len(a) > 1 and a[1][0] == "attr" else NONE
        got = [x[2] for x in a[1:4] if x[0] == "attr" and x[1] == s]
        ok = len(a) == 5 and (el(a[0]) or a[0] == A(s, "name")) and got == [
            "description", "units", "stype"] and a[4] == ("star", A(s, "formatted_params"))
        ctx.ob("items", "sensor_list inform", ok or (None if any(
            x[0] == "call" for x in a) else False), e.where,
               "informs %s" % [show(x) for x in a])
    elif r == "sensor_value":
        rd = [x for x in p.events[:e.idx] if x.kind == "call" and x.name in (
            "read_formatted",)]
        it = lambda i: rd and a[i][0] == "item" and a[i][1] == rd[-1].res and a[i][2]
        ok = len(a) == 5 and rd and it(0) == const(0) and is_const(a[1]) and a[1][2] in (
            "1", b"1", 1) and it(3) == const(1) and it(4) == const(2) and (
                el(a[2]) or a[2][0] == "attr" and a[2][2] == "name")
        ctx.ob("items", "sensor_value inform", bool(ok) or (None if not rd else False),
               e.where, "informs %s" % [show(x) for x in a])
    elif r == "request_timeout_hint":
        ok = len(a) == 2 and has(a[1], lambda x: x[0] == "item" and x[2] == a[0])
        ctx.ob("items", "timeout hint inform", ok or None, e.where,
               "informs %s" % [show(x) for x in a])
    elif r == "version_list":
        bs = [x.val for x in p.events[:e.idx] if x.kind == "cond" and x.extra[0] == "is" and
              x.extra[2] == NONE]
        bs = bs[-1] if bs else None
        ctx.ob("items", "version_list inform", len(a) == 3 if bs is False else
               len(a) == 2 if bs else None, e.where, "informs %s" % [show(x) for x in a])


def unknown(ctx):
    """Names that are not in the table."""
    for r, table in sorted(REQS.items()):
        if r in ("client_list", "version_list"):
            continue
        q = "server.DeviceServer.request_" + r
        fi = ctx.p.func(q)
        w, req, msg = fi.where, P(fi.params[1]), P(fi.params[2])
        T = S(table)
        n = 0
        for p in _paths(ctx, q):
            if p.kind == "cut":
                continue
            miss = decided(p, lambda a: a[0] == "in" and a[2] == T and _pattern(a[1], msg))
            empty = None
            for e in p.events:
                if e.kind == "cond" and e.extra[0] == "truth":
                    b, c = base(e.extra[1])
                    if b == T and c and _filter(c[0], T, msg)[0] == "exact":
                        empty = not e.val
            if miss is False or empty:
                n += 1
                rep = reply(p, req) if p.kind == "return" else ("fail", [])
                ctx.ob("unknown", "%s unknown name refused" % r, rep is not None and
                       rep[0] == "fail" or (None if rep is None else False), w,
                       "an unknown name gives %s (path: %s)" % (rep and rep[0], path_str(p)))
        ctx.ob("unknown", "%s analysed" % r, n >= 1 or None, w, "")


def _compile(t, e):
    a, kw = t.args(e)
    p = re.compile(*a, **kw)
    return Record(pattern=p.pattern, **{n: Fun(n, lambda t, s, n=n: Thing("match") if getattr(p, n)(s)
                                               else None) for n in ("search", "match", "fullmatch")})


def _search(n):
    def run(t, e):
        a, kw = t.args(e)
        if a and isinstance(a[0], Record):
            return a[0].__dict__[n].fn(t, *a[1:], **kw)
        return Thing("match") if getattr(re, n)(*a, **kw) else None
    return run


def _text(v):
    return v.decode() if isinstance(v, bytes) else str(v)


def _sensor(name, i, params):
    fields = tuple(("%s %s" % (n, name)).encode() for n in ("time", "status", "value"))
    fields = (b"%d.5" % i, b"nominal", fields[2])
    return Thing("sensor " + name, name=name, description="about " + name, units="u%d" % i,
                 stype="type%d" % i, type="type%d" % i, formatted_params=params,
                 params=params, read_formatted=Fun("read_formatted", lambda t, *a, **k: fields),
                 read=Fun("read", lambda t: Thing("reading of " + name)),
                 format_reading=Fun("format_reading", lambda t, r, *a, **k: fields))


def _run(w, request, args, **fields):
    """(informs sent, reply or the error raised)"""
    def inform(t, *a):
        t.log.append(tuple(a))

    req = Thing("req", inform=Fun("inform", inform),
                make_reply=Fun("make_reply", lambda t, *a: ("reply",) + a))
    server = Obj("server.DeviceServer")
    server.__dict__.update(fields)
    server.__dict__["%whole"] = True
    o, st = w.call({"server": server}, "server", "request_" + request, req, args)
    got = list(o.log)
    v = o.val
    if o.kind == "raise":
        return got, ("fail" if str(v[1] if isinstance(v, tuple) else v).endswith("FailReply") else
                     "error", v)
    if isinstance(v, Fut):
        v = v.val
    if not isinstance(v, tuple):
        raise Undecided("the reply is %s" % (v,))
    if v[:1] == ("reply",):
        v = v[1:]
    return got, tuple(_text(x) for x in v)


# name -> handler's timeout hint; the tables are cut to the first 0, 1, 2 or 3 of them
NAMES = ["a.b", "a-b.c", "c"]
ARGS = [None, "a.b", "c", "a.", "a", "x", "/a.b/", "/b/", "/^a-/", "/x/", "/./", "//", "/", "/a",
        "a.b/", ""]


def _matching(arg, names):
    """What the request asks for, and must it be there?"""
    if arg is None:
        return list(names), False
    if len(arg) > 1 and arg.startswith("/") and arg.endswith("/"):
        return [n for n in names if re.search(arg[1:-1], n)], False
    return [n for n in names if n == arg], True


def scenarios(ctx):
    w = World(ctx, {"re.compile": _compile, "re.search": _search("search"), "re.match": _search(
        "match"), "re.fullmatch": _search("fullmatch")},
        given={("gconst", "__init__", "__version__"): "0.9"})
    tally = Tally(ctx, "scenarios", ctx.where("server.DeviceServer.request_sensor_list"))
    n = [0]

    def judge(request, sit, want, arg, must, **fields):
        """want: the informs due; must: nothing to report is a failure."""
        n[0] += 1
        try:
            got, rep = _run(w, request, arg, **fields)
        except Undecided as e:
            tally("%s is followed" % request, None, "%s: %s" % (sit, e))
            return
        sent = collections.Counter(tuple(_text(x) for x in g) for g in got)
        if must and not want:
            tally("%s of an unknown name fails" % request, rep[0] == "fail",
                  "%s: the reply is %s" % (sit, rep))
            tally("%s of an unknown name sends nothing" % request, not got,
                  "%s: sends %s" % (sit, got))
            return
        tally("%s reports each matching item once" % request, sent == collections.Counter(
            tuple(_text(x) for x in g) for g in want), "%s: sends %s, not %s" % (sit, got, want))
        tally("%s counts its informs" % request, rep == ("ok", str(len(got))),
              "%s: sends %d informs and replies %s" % (sit, len(got), rep))

    def message(arg):
        return Thing("msg", arguments=[] if arg is None else [arg.encode()], mid=None,
                     name="request")

    proto = Record(major=5, minor=0, flags=frozenset())
    for size in range(4):
        names = NAMES[:size]
        sensors = {x: _sensor(x, i, [b"p%d" % k for k in range(i)])
                   for i, x in enumerate(names)}
        for arg in ARGS:
            if arg == "/":
                continue            # neither a name nor a pattern
            found, must = _matching(arg, names)
            sit = "argument %r, sensors %s" % (arg, names)
            for r, inf in (("sensor_list", lambda s: (s.name, s.description, s.units, s.stype) +
                            tuple(s.formatted_params)),
                           ("sensor_value", lambda s: (s.read_formatted.fn(None)[0], "1", s.name)
                            + s.read_formatted.fn(None)[1:])):
                judge(r, sit, [inf(sensors[x]) for x in found], message(arg), must,
                      _sensors=dict(sensors), PROTOCOL_INFO=proto)
        handlers = {x: Thing("handler " + x, __doc__="Help on %s." % x,
                             request_timeout_hint=[None, 2.5, 0][i])
                    for i, x in enumerate(names)}
        for arg in (None, "a.b", "c", "a", "x", ""):
            if arg == "":
                continue
            found, must = _matching(arg, names)
            sit = "argument %r, requests %s" % (arg, names)
            judge("help", sit, [(x, handlers[x].__dict__["__doc__"]) for x in found], message(arg),
                  must, _request_handlers=dict(handlers))
            hint = lambda x: float(handlers[x].request_timeout_hint or 0)
            judge("request_timeout_hint", sit, [(x, hint(x)) for x in found if must or hint(x)],
                  arg and arg.encode(), must, _request_handlers=dict(handlers))
        conns = {Thing("connection %d" % i, address="host:%d" % i) for i in range(size)}
        judge("client_list", "%d clients" % size, [(c.address,) for c in conns], message(None), False,
              _client_conns=conns)
    for extra in ({}, {"one": ("one-1.0", None)}, {"one": ("one-1.0", None),
                                                   "two": ("two-2.0", "two-2.0.1")}):
        sit = "extra versions %s" % sorted(extra)
        n[0] += 1
        try:
            got, rep = _run(w, "version_list", message(None), extra_versions=dict(extra),
                            PROTOCOL_INFO="5.0-MI", VERSION_INFO=("dev", 1, 2),
                            BUILD_INFO=("dev", 1, 2, "rc"))
        except Undecided as e:
            tally("version_list is followed", None, "%s: %s" % (sit, e))
            continue
        tally("version_list counts its informs", rep == ("ok", str(len(got))),
              "%s: sends %d informs and replies %s" % (sit, len(got), rep))
        known = {"katcp-protocol": 2, "katcp-library": 3, "katcp-device": 3}
        tally("version_list reports each version once", sorted(g[0] for g in got) == sorted(
            list(known) + list(extra)), "%s: sends %s" % (sit, got))
        for g in got:
            x = extra.get(g[0])
            tally("version_list reports a version as it is", len(g) == known[g[0]] if x is None and
                  g[0] in known else x is not None and g[1:] == tuple(v for v in x
                                                                      if v is not None),
                  "%s: sends %s" % (sit, g))
    tally.done(n[0])


PARTS = [counts, items, unknown, scenarios]
