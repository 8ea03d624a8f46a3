"""The decorators are followed end to end for declared signatures of every shape (number of
types, a repeated last type or not, request or inform handlers, the message passed on or not,
the protocol version given or not, one decorator around the other, plain and coroutine
handlers) and every number of arguments or results around the declared one.  The types, the
arguments, the handler and what it returns are symbols, so what is found holds for every type,
every argument and every handler of that shape: the handler is called exactly once, with
argument i decoded by type i (or the repeated one) for the version in force, and only after all
of them were decoded; otherwise FailReply names the parameter and the handler is not called;
each result is packed by its type before a reply is made; what the handler raises goes through.
Sequences whose elements are known are followed element by element.  Bounded: up to three
declared types and two arguments more than declared."""
from ..lib import *

MIN_OBLIGATIONS = 250
TECHNIQUE = ("path-sensitive dataflow with exact sequences over probes that are parsed and never "
             "run, symbolic in the types, arguments and handler")
FAIL = "core.FailReply"


def forks(e):
    return {"unpack": "ValueError", "pack": "ValueError", "sink": "Boom"}.get(e.name)


def paths(ctx, src, **kw):
    q = ctx.probe("kattypes", src)
    ini = {c.qual + ".__init__" for c in ctx.p.classes.values() if c.module.name == "kattypes"}
    try:
        return ctx.paths(q, unroll=True, inline=ini, raise_all=True, exc_of=forks,
                         havoc_on_yield=False,
                         noraise=lambda e: e.name not in ("unpack", "pack", "sink"),
                         opaque={"kattypes.KatcpType.pack", "kattypes.KatcpType.unpack",
                                 "core.Message.*", "core.convert_method_name"}, **kw)
    except AnalysisError:
        return None


def coded(t, how, typ, value, major):
    """Is the term what the type makes of the value? (None: not understood)"""
    if t is None:
        return None
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == how or \
            t[0] == "call" and t[1][0] == "bound" and t[1][1].endswith("." + how):
        recv = t[1][1] if t[1][0] == "attr" else t[1][2]
        kw = dict(t[3])
        a = list(t[2])
        m = kw.get("major", a[1 + (how == "pack")] if len(a) > 1 + (how == "pack") else None)
        v = a[0] if a else kw.get("value", kw.get("packed_value"))
        if v is None or set(kw) - {"major", "value", "packed_value"}:
            return None
        if how == "pack" and (len(a) > 1 or "nocheck" in kw):
            n = a[1] if len(a) > 1 else kw.pop("nocheck")
            if not is_const(n) or n[2]:
                return False if is_const(n) else None
        right = recv[:2] == ("new", "kattypes.Str") and not recv[2] and not recv[3] \
            if typ == "Str" else recv == typ
        return bool(right and v == value and m == const(major))
    if t[0] in ("param", "const"):
        return False                    # passed on as it is
    return None


def every(verdicts):
    vs = list(verdicts)
    return False if False in vs else None if None in vs else True


def words(t):
    """Constants a term is made of."""
    return [x for x in subterms(t) if x[0] == "const" and x[2] is not None]


def boom(v, who):
    return v is not None and v[0] == "exc" and len(v) > 3 and isinstance(v[3], tuple) and \
        v[3][:2] == ("from", who)


def shapes():
    for n in range(4):
        for multi in ((False, True) if n else (False,)):
            for m in range(n + 3):
                yield n, multi, m


def types_of(n, multi, prefix="t"):
    lines = ["    %s%d._multiple = %s" % (prefix, i, multi and i == n - 1) for i in range(n)]
    return ["%s%d" % (prefix, i) for i in range(n)], lines


# -- unpacking --------------------------------------------------------------

def judge_call(ctx, p, n, multi, m, major, head, names):
    """(verdict, message) of one path of a decorated handler; head: what comes first."""
    if p.kind == "cut":
        return None, "not followed"
    total = max(n, m)
    toomany = m > n and not multi
    T = [P("t%d" % min(i, n - 1)) for i in range(total)]
    V = [P("a%d" % i) if i < m else NONE for i in range(total)]
    sinks = [e for e in p.events if e.kind == "call" and e.f == P("sink")]
    if p.kind == "raise":
        v = p.val
        if boom(v, "sink"):
            return not toomany and len(sinks) == 1, "the handler was called"
        if sinks:
            return False, "fails after the handler was called"
        if v is None or v[0] != "exc":
            return None, "fails in a way that is not understood"
        fails = [e for e in p.events if e.kind == "exc" and boom(e.val, "unpack")]
        if fails and not any(getattr(e.extra, "recv", None) in T for e in fails):
            return None, "it is not clear what failed"
        if toomany:
            if v[1] != FAIL:
                return False, "too many arguments give %s" % (v[1],)
            return bool(v[2]) and v[2][0] != const(""), "names no problem"
        if v[1] == "AttributeError" and not fails:
            return None, "fails with AttributeError"
        if boom(v, "unpack"):
            return False, "an argument that does not decode gives %s" % (v[1],)
        if v[1] != FAIL:
            return False, "fails with %s" % (v[1],)
        if not fails:
            return False, "refuses arguments that all decode"
        call = fails[-1].extra.res if hasattr(fails[-1].extra, "res") else None
        # which parameter it was
        which = [i for i in range(total)
                 if coded(call or ("call", fails[-1].extra.f, fails[-1].extra.args,
                                   fails[-1].extra.kwargs, 0), "unpack", T[i], V[i], major)]
        if not v[2]:
            return False, "the failure names no problem"
        if not which:
            return None, "it is not clear which argument failed"
        said = words(v[2][0])
        ints = [x[2] for x in said if x[1] == "int"]
        known = [names[i] for i in which if i < len(names) and names[i]]
        if ints and not any(i + 1 in ints for i in which):
            return False, "the failure of parameter %d names %r" % (which[0] + 1, ints)
        if not ints and not any(const(x) in said for x in known):
            return False, "the failure does not name the parameter"
        wrong = [x[2] for x in said if x[1] == "str" and x[2] in names and x[2] not in known]
        if wrong:
            return False, "the failure of %s names %s" % (known or which, wrong)
        if known and not any(const(x) in said for x in known):
            return False, "the failure does not name the parameter %s" % known
        return True, ""
    if toomany:
        return False, "%d arguments are accepted" % m
    if len(sinks) != 1:
        return (False if not sinks and p.val and p.val[0] != "call" else None), \
            "the handler is called %d times" % len(sinks)
    args = list(sinks[0].args)
    if any(x[0] == "star" for x in args) or sinks[0].kwargs:
        return None, "arguments are not understood"
    if args[:len(head)] != head:
        return False if all(x[0] in ("param", "const", "call") for x in args[:len(head)]) \
            else None, "the handler gets %s first" % [show(x) for x in args[:len(head)]]
    rest = args[len(head):]
    if len(rest) != total:
        return False, "the handler gets %d arguments of %d" % (len(rest), total)
    ok = every(coded(x, "unpack", T[i], V[i], major) for i, x in enumerate(rest))
    if ok is not True:
        return ok, "the handler gets %s" % ", ".join(show(x) for x in rest)
    if p.val != sinks[0].res:
        return (False if p.val == NONE else None), "gives %s" % show(p.val)
    return True, ""


def unpacking(ctx):
    rows = []
    for n, multi, m in shapes():
        for deco, req, msg in (("request", True, False), ("request", True, True),
                               ("inform", False, False), ("inform", False, True),
                               ("unpack_message", False, False)):
            if deco != "request" and (n, m) not in ((0, 0), (1, 1), (2, 2), (2, 1), (1, 2),
                                                    (1, 0), (2, 3)) and not ctx.deep:
                continue
            rows.append((n, multi, m, deco, req, msg, None))
        if m == n:
            rows.append((n, multi, m, "request", True, False, 4))
    for k, (n, multi, m, deco, req, msg, major) in enumerate(rows):
        ts, lines = types_of(n, multi)
        head = ["me"] + (["rq"] if req else []) + (["msg"] if msg else [])
        hp = ["self"] + (["req"] if req else []) + (["msg"] if msg else [])
        xs = ["x%d" % i for i in range(n)]
        if multi:
            xs[-1] = "*rest"
        opts = (["include_msg=True"] if msg else []) + (["major=%d" % major] if major else [])
        src = "def probe_call_%d(%s):\n%s\n    msg.arguments = [%s]\n" \
              "    def request_foo(%s):\n        return sink(%s)\n" \
              "    return %s(%s)(request_foo)(%s)\n" % (
                  k, ", ".join(["me", "rq", "msg", "sink"] + ts + ["a%d" % i for i in range(m)]),
                  "\n".join(lines), ", ".join("a%d" % i for i in range(m)),
                  ", ".join(hp + xs), ", ".join(hp + xs), deco, ", ".join(ts + opts),
                  ", ".join(["me"] + (["rq"] if req else []) + ["msg"]))
        ps = paths(ctx, src)
        inst = "%s of %d types%s%s%s given %d arguments" % (
            deco, n, " (last repeated)" if multi else "", ", with the message" if msg else "",
            ", version %d" % major if major else "", m)
        w = ctx.where("kattypes.unpack_types")
        if ps is None:
            ctx.ob("arguments", inst, None, w, "not followed")
            continue
        names = [x for x in xs if not x.startswith("*")]
        verdicts = []
        for p in ps:
            ok, why = judge_call(ctx, p, n, multi, m, major or ctx.const(
                "core", "DEFAULT_KATCP_MAJOR"), [P(x) for x in head], names)
            verdicts.append((ok, why))
        bad = [y for x, y in verdicts if x is False]
        ctx.ob("arguments", inst, False if bad else every(x for x, _ in verdicts), w,
               bad[0] if bad else "")
        served = [p for p in ps if p.kind == "return"]
        if not (m > n and not multi):
            ctx.ob("called", inst, bool(served), w, "the handler is never called")
            failed = {p.val[1] for p in ps if p.kind == "raise" and p.val and p.val[1] == FAIL}
            ctx.ob("undecodable", inst, bool(failed) or not max(n, m), w,
                   "an argument that does not decode is not refused")


# -- packing ----------------------------------------------------------------

def reply_of(v):
    if v is not None and v[0] == "fut":
        v = v[1]
    return as_msg(v) if v is not None else None


def judge_reply(ctx, p, status, n, multi, m, major, name, term, sent=False):
    if p.kind == "cut":
        return None, "not followed"
    want = {"ok": n, "fail": 1}.get(status)
    many = multi if status == "ok" else False
    refuse = want is None or (m > want and not many)
    if p.kind == "raise" or term is not None and term[0] == "futexc":
        if sent and any(e.kind == "call" and e.name == "reply_with_message" for e in p.events):
            return False, "fails after the reply was sent"
        v = p.val if p.kind == "raise" else term[1]
        if refuse or boom(v, "pack"):
            return True, ""
        return False, "fails with %s" % (v[1] if v and len(v) > 1 else v,)
    if refuse:
        if reply_of(term) is None:
            return None, "gives %s" % show(term)
        return False, "a result that does not fit gives the reply %s" % show(term)
    msg = reply_of(term)
    if msg is None:
        return (False if term == NONE else None), "gives %s" % show(term)
    if msg.kind != "reply":
        return False, "gives a message that is no reply"
    t = msg.name
    if not (is_const(t, "foo-bar") or t == name or t[0] == "call" and
            t[1] == ("func", "core.convert_method_name") and
            [x[2] if is_const(x) else None for x in t[2]] == ["request_", "request_foo_bar"]):
        return (None if t[0] not in ("const", "param") else False), "is named %s" % show(t)
    if msg.args is None or any(x[0] == "star" for x in msg.args):
        return None, "arguments are not understood"
    total = max(want, m)
    if len(msg.args) != total + 1:
        return False, "has %d arguments and not %d" % (len(msg.args), total + 1)
    if not is_const(msg.args[0], status, status.encode()):
        ok = coded(msg.args[0], "pack", "Str", const(status), major)
        if ok is not True:
            return ok, "the status is %s" % show(msg.args[0])
    T = ["Str"] if status == "fail" else [P("t%d" % min(i, n - 1)) for i in range(total)]
    V = [P("v%d" % i) if i < m else NONE for i in range(total)]
    ok = every(coded(x, "pack", T[i], V[i], major) for i, x in enumerate(msg.args[1:]))
    return ok, "the reply has %s" % ", ".join(show(x) for x in msg.args[1:])


def report(ctx, rule, inst, ps, judge, w, serves):
    if ps is None:
        ctx.ob(rule, inst, None, w, "not followed")
        return
    verdicts = [judge(p) for p in ps]
    bad = [y for x, y in verdicts if x is False]
    ctx.ob(rule, inst, False if bad else every(x for x, _ in verdicts), w, bad[0] if bad else "")
    if serves is not None:
        done = any(p.kind == "return" and not (p.val and p.val[0] == "futexc") for p in ps)
        ctx.ob(rule, inst + ": a reply", done == serves, w,
               "never gives a reply" if serves else "gives a reply")


def packing(ctx):
    current = ctx.const("core", "DEFAULT_KATCP_MAJOR")
    rows = []
    for n, multi, m in shapes():
        rows.append((n, multi, m, "ok", False, None))
        rows.append((n, multi, m, "ok", True, None))
        if m == n:
            rows.append((n, multi, m, "ok", False, 4))
            rows.append((n, multi, m, "ok", True, 4))
        if n == m == 1:
            for k in range(4):
                for co in (False, True):
                    rows.append((n, multi, k, "fail", co, None))
            rows.append((n, multi, 1, "fail", False, 4))
            rows.append((n, multi, m, "maybe", False, None))
            rows.append((n, multi, m, "maybe", True, None))
    for k, (n, multi, m, status, co, major) in enumerate(rows):
        ts, lines = types_of(n, multi)
        vs = ["v%d" % i for i in range(m)]
        result = "(%r,%s)" % (status, "".join(" %s," % v for v in vs))
        opts = ["major=%d" % major] if major else []
        src = "def probe_reply_%d(%s):\n%s\n%s    def request_foo_bar(self, *args):\n" \
              "        %s\n" \
              "    return return_reply(%s)(request_foo_bar)(me, rq, msg)\n" % (
                  k, ", ".join(["me", "rq", "msg"] + ts + vs), "\n".join(lines),
                  "    @gen.coroutine\n" if co else "",
                  ("raise gen.Return(%s)" if co else "return %s") % result,
                  ", ".join(ts + opts))
        inst = "%s reply of %d types%s%s%s with %d results" % (
            status, n, " (last repeated)" if multi else "", ", from a coroutine" if co else "",
            ", version %d" % major if major else "", m)
        want = {"ok": n, "fail": 1}.get(status)
        serves = want is not None and (m <= want or multi and status == "ok")
        report(ctx, "result", inst, paths(ctx, src),
               lambda p: judge_reply(ctx, p, status, n, multi, m, major or current, None,
                                     p.val if p.kind == "return" else None),
               ctx.where("kattypes.make_reply"), serves)
    # replies that are sent by the decorator
    for k, (n, multi, m, status, major) in enumerate([
            (0, False, 0, "ok", None), (1, False, 1, "ok", None), (2, True, 3, "ok", None),
            (2, False, 2, "ok", 4), (1, False, 2, "ok", None), (2, False, 1, "fail", None),
            (1, False, 1, "maybe", None)]):
        ts, lines = types_of(n, multi)
        vs = ["v%d" % i for i in range(m)]
        src = "def probe_send_%d(%s):\n%s\n    def callback(self, *args):\n" \
              "        return (rq, %r,%s)\n" \
              "    return send_reply(%s)(callback)(me, rq)\n" % (
                  k, ", ".join(["me", "rq"] + ts + vs), "\n".join(lines), status,
                  "".join(" %s," % v for v in vs),
                  ", ".join(ts + (["major=%d" % major] if major else [])))

        def judge(p):
            sends = [e for e in p.events if e.kind == "call" and e.recv == P("rq") and
                     e.name == "reply_with_message"]
            if p.kind == "return" and len(sends) != 1:
                return (False if not sends or len(sends) > 1 else None), \
                    "%d replies are sent" % len(sends)
            return judge_reply(ctx, p, status, n, multi, m, major or current,
                               A(P("rq"), "msg", "name"),
                               sends[0].arg(0) if p.kind == "return" else None, True)
        want = {"ok": n, "fail": 1}.get(status)
        report(ctx, "result", "sent %s reply of %d types%s with %d results" % (
            status, n, " (last repeated)" if multi else "", m), paths(ctx, src), judge,
            ctx.where("kattypes.send_reply"), want is not None and (m <= want or multi))


# -- both ------------------------------------------------------------------------

def stacked(ctx):
    current = ctx.const("core", "DEFAULT_KATCP_MAJOR")
    for k, (outer, inner, msg) in enumerate([
            ("request(t0)", "return_reply(r0)", False), ("return_reply(r0)", "request(t0)", False),
            ("request(t0, include_msg=True)", "return_reply(r0)", True),
            ("return_reply(r0)", "request(t0, include_msg=True)", True)]):
        src = "def probe_stack_%d(me, rq, msg, t0, r0, a0, sink):\n" \
              "    t0._multiple = False\n    r0._multiple = False\n" \
              "    msg.arguments = [a0]\n" \
              "    def request_foo_bar(self, req%s, xname):\n" \
              "        return ('ok', sink(self, req, xname))\n" \
              "    return %s(%s(request_foo_bar))(me, rq, msg)\n" % (
                  k, ", msg" if msg else "", outer, inner)
        ps = paths(ctx, src)
        inst = "%s around %s" % (outer, inner)
        w = ctx.where("kattypes.request")

        def judge(p):
            if p.kind == "cut":
                return None, "not followed"
            sinks = [e for e in p.events if e.kind == "call" and e.f == P("sink")]
            if p.kind == "raise":
                if boom(p.val, "sink") or boom(p.val, "pack"):
                    return len(sinks) == 1, "the handler is called %d times" % len(sinks)
                if p.val[1] != FAIL:
                    return False, "fails with %s" % (p.val[1],)
                said = words(p.val[2][0]) if p.val[2] else []
                if sinks:
                    return False, "fails after the handler was called"
                return const("xname") in said, "the failure does not name the parameter"
            if len(sinks) != 1:
                return False, "the handler is called %d times" % len(sinks)
            a = sinks[0].args
            ok = every([a[:2] == (P("me"), P("rq")),
                        coded(a[2], "unpack", P("t0"), P("a0"), current)])
            if ok is not True:
                return ok, "the handler gets %s" % ", ".join(show(x) for x in a)
            m = reply_of(p.val)
            if m is None:
                return None, "gives %s" % show(p.val)
            if any(x[0] == "star" for x in m.args):
                return None, "gives %s" % show(p.val)
            if m.kind != "reply" or len(m.args) != 2:
                return False, "gives %s" % show(p.val)
            return coded(m.args[1], "pack", P("r0"), sinks[0].res, current), \
                "gives %s" % show(p.val)
        report(ctx, "stacked", inst, ps, judge, w, True)
    # what other decorators and the server look up on a handler is kept
    for k, (deco, attr, want) in enumerate(
            [(d, a, v) for d in ("request(t0)", "return_reply(t0)")
             for a, v in (("_concurrent_reply", True), ("request_timeout_hint", 7),
                          ("__name__", "request_foo_bar"), ("__doc__", "some text"))]):
        src = "def probe_attr_%d(t0):\n    t0._multiple = False\n" \
              "    def request_foo_bar(self, req, x):\n        return ('ok',)\n%s" \
              "    return getattr(%s(request_foo_bar), %r, None)\n" % (
                  k, "" if attr == "__name__" else
                  "    request_foo_bar.%s = %r\n" % (attr, want), deco, attr)
        ps = paths(ctx, src)
        if ps is None:
            continue
        got = {p.val for p in ps if p.kind == "return"}
        ctx.ob("kept", "%s keeps %s" % (deco, attr),
               True if got == {const(want)} else False if len(got) == 1 and
               list(got)[0][0] == "const" else None, ctx.where("kattypes.request"),
               "gives %s" % [show(x) for x in got])


# -- declarations that make no sense -----------------------------------------------

def declared(ctx):
    rows = [("request(t0, t1)(request_foo)", "TypeError", "t0._multiple = True"),
            ("request(t0, t1, t2)(request_foo)", "TypeError", "t1._multiple = True"),
            ("inform(t0, t1)(request_foo)", "TypeError", "t0._multiple = True"),
            ("return_reply(t0, t1)(request_foo)", "TypeError", "t0._multiple = True"),
            ("return_reply(t0, t1, t2)(request_foo)", "TypeError", "t1._multiple = True"),
            ("request(t0, bogus=1)(request_foo)", "TypeError", None),
            ("return_reply(t0, bogus=1)(request_foo)", "TypeError", None),
            ("send_reply(t0, bogus=1)(request_foo)", "TypeError", None),
            ("return_reply(t0)(inform_foo)", "ValueError", None),
            ("request(t0, t1, t2)(request_foo)", None, "t2._multiple = True"),
            ("return_reply(t0, t1, t2)(request_foo)", None, "t2._multiple = True"),
            ("return_reply()(request_foo)", None, None), ("request()(request_foo)", None, None)]
    for k, (expr, want, line) in enumerate(rows):
        lines = ["    t%d._multiple = False" % i for i in range(3)]
        src = "def probe_decl_%d(t0, t1, t2):\n%s\n%s" \
              "    def request_foo(self, req, a, b, c):\n        return ('ok',)\n" \
              "    def inform_foo(self, msg):\n        return None\n    return %s\n" % (
                  k, "\n".join(lines), "    %s\n" % line if line else "", expr)
        ps = paths(ctx, src)
        if ps is None:
            continue
        ends = {(p.kind, p.val[1] if p.kind == "raise" and p.val else None) for p in ps}
        ok = ends == {("raise", want)} if want else all(x == "return" for x, _ in ends)
        if any(x == "cut" for x, _ in ends):
            ok = None
        ctx.ob("declaration", "%s%s" % (expr, " with " + line if line else ""), ok,
               ctx.where("kattypes.request"), "gives %s" % sorted(ends, key=str))


PARTS = [unpacking, packing, stacked, declared]
