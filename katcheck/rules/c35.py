"""Messages are followed as abstract objects: one is made for every combination of a type, a name, an
id and arguments from tables of valid and invalid ones (letters and digits outside ASCII included), by
the constructor and by the class methods; what is refused, and with which error, what the message holds,
whether it can be serialised and what it counts as (equal to another, ok) is compared with a reference."""
import itertools

from ..machine import Tally, Undecided, World
from ..walk import Obj

MIN_OBLIGATIONS = 8
M = "core.Message"
ASSUMPTIONS = ["judged as Python 3", "escaping of arguments is C01"]
PROBE = '''
class ProbeMessage(object):
    def make(self, *args, **kw):
        self.m = Message(*args, **kw)

    def wire(self):
        return self.m.__bytes__()

    def text(self):
        return str(self.m), repr(self.m)

    def equal(self, a, b):
        return Message(*a).__eq__(Message(*b))

    def ok(self, a):
        return bool(Message(*a).reply_ok())

    def copies(self, a):
        first = Message(*a)
        second = first.copy()
        same = first.__eq__(second)
        second.arguments.append(b"more")
        return same, first.arguments, second.arguments

    def request(self, *args, **kw):
        self.m = Message.request(*args, **kw)

    def reply(self, *args, **kw):
        self.m = Message.reply(*args, **kw)

    def inform(self, *args, **kw):
        self.m = Message.inform(*args, **kw)
'''
NAMES = {"a": True, "a-b": True, "A1": True, "z9-": True, "1a": False, "-a": False, "": False,
         "a b": False, "a\n": False, "\n": False, "a_b": False, "a.b": False, "a?": False,
         "\u00e9": False, "a\u00e9": False, "a\u0663": False}
MIDS = {None: None, 0: b"0", 5: b"5", "7": b"7", b"7": b"7", "042": b"042", b"12345678901": b"12345678901",
        "": False, b"": False, "x": False, b"x": False, "-1": False, -1: False, "1 2": False,
        b"1\n": False, 1.5: False, b"\xb2": False}
ARGS = {None: [], (): [], (b"x", b""): [b"x", b""], ("x", 1, True, False, 2.5): [b"x", b"1", b"1", b"0", b"2.5"],
        ("\u00e9",): ["\u00e9".encode()]}


def _world(ctx):
    if "core.ProbeMessage" not in ctx.p.classes:
        ctx.probe("core", PROBE)
    w = World(ctx)
    return w, {"p": _obj()}


def _obj():
    o = Obj("core.ProbeMessage")
    o.__dict__["%whole"] = True
    return o


def _run(tally, what, sit, w, st, method, *a, **kw):
    try:
        return w.call(st, "p", method, *a, **kw)
    except Undecided as e:
        tally(what, None, "%s: %s" % (sit, e))
        return None, st


def _codes(ctx):
    return {k: ctx.cconst(M, k) for k in ("REQUEST", "REPLY", "INFORM")}


def making(ctx):
    tally = Tally(ctx, "made", ctx.where(M + ".__init__"))
    w, st0 = _world(ctx)
    codes = _codes(ctx)
    n = 0
    cases = [(t, "a", m, ()) for t in list(codes.values()) + [3, -1, None] for m in (None, 5)] + \
            [(codes["REQUEST"], x, m, None) for x in NAMES for m in (None, "7")] + \
            [(t, "a-b", m, ()) for t in codes.values() for m in MIDS] + \
            [(t, "a", m, a) for t in codes.values() for m in (None, 0) for a in ARGS]
    for t, x, m, a in cases:
        n += 1
        sit = "type %r, name %r, id %r, arguments %r" % (t, x, m, a)
        fine = t in codes.values() and NAMES[x] and MIDS[m] is not False
        what = "a valid message is made" if fine else "anything else is a syntax error"
        o, st = _run(tally, what, sit, w, st0, "make", t, x, a, m)
        if o is None:
            continue
        if not fine:
            tally(what, o.kind == "raise" and "KatcpSyntaxError" in str(o.val), "%s: %s" % (
                sit, "accepted" if o.kind != "raise" else "raises %s" % (o.val,)))
            continue
        tally(what, o.kind != "raise", "%s: raises %s" % (sit, o.val))
        if o.kind == "raise":
            continue
        g = st["p"].m
        held = tuple(getattr(g, k, None) for k in ("mtype", "name", "mid", "arguments"))
        tally("it holds what it was given", held == (t, x, MIDS[m], ARGS[a]), "%s: holds %s" % (sit, held))
        if not ARGS[a]:
            o, _ = _run(tally, "a message that was made can be serialised", sit, w, st, "wire")
            if o is not None:
                want = {codes["REQUEST"]: b"?", codes["REPLY"]: b"!", codes["INFORM"]: b"#"}[t] + \
                    x.encode() + (b"[%s]" % MIDS[m] if m is not None else b"")
                tally("a message that was made can be serialised", o.kind == "return" and o.val == want,
                      "%s: %s %s" % (sit, o.kind, o.val))
    for kind, t in (("request", "REQUEST"), ("reply", "REPLY"), ("inform", "INFORM")):
        for args, kw, mid in ((("a",), {}, None), (("a", "x", 1), {}, None), (("a", "x"), {"mid": 5}, b"5"),
                              (("a",), {"mid": 0}, b"0"), (("a",), {"mid": None}, None)):
            n += 1
            sit = "Message.%s(%s)" % (kind, ", ".join([repr(v) for v in args] + [
                "%s=%r" % i for i in kw.items()]))
            what = "the class methods make their type"
            o, st = _run(tally, what, sit, w, st0, kind, *args, **kw)
            if o is None:
                continue
            g = getattr(st["p"], "m", None)
            held = tuple(getattr(g, k, None) for k in ("mtype", "name", "mid", "arguments"))
            tally(what, o.kind == "return" and held == (codes[t], "a", mid, [
                v.encode() if isinstance(v, str) else b"%d" % v for v in args[1:]]), "%s: %s" % (
                    sit, o.val if o.kind == "raise" else held))
    tally.done(n)


def comparing(ctx):
    tally = Tally(ctx, "values", ctx.where(M + ".__eq__"))
    w, st = _world(ctx)
    c = _codes(ctx)
    rq, rp, inf = c["REQUEST"], c["REPLY"], c["INFORM"]
    ms = [(rq, "a", (), None), (rp, "a", (), None), (inf, "a", (), None), (rq, "b", (), None),
          (rq, "a", ("x",), None), (rq, "a", ("x", "y"), None), (rq, "a", ("y", "x"), None),
          (rq, "a", (), 5), (rq, "a", (), 0), (rq, "a", ("x",), 5), (rq, "a", ("",), None)]
    n = 0
    for a, b in itertools.product(ms, repeat=2):
        n += 1
        sit = "%s and %s" % (a, b)
        o, _ = _run(tally, "equal exactly when everything is", sit, w, st, "equal", a, b)
        if o is not None:
            tally("equal exactly when everything is", o.kind == "return" and
                  o.val is (a == b), "%s: %s %s" % (sit, o.kind, o.val))
    for t in (rq, rp, inf):
        for args in ((), ("ok",), ("ok", "1"), ("fail",), ("invalid", "ok"), ("",), ("okay",), ("OK",)):
            n += 1
            a = (t, "a", args, None)
            o, _ = _run(tally, "ok exactly when it is a reply that says so", "%s" % (a,), w, st, "ok", a)
            if o is not None:
                tally("ok exactly when it is a reply that says so", o.kind == "return" and
                      o.val is (t == rp and args[:1] == ("ok",)), "%s: %s %s" % (a, o.kind, o.val))
    for a in ms:
        n += 1
        o, _ = _run(tally, "a copy is equal and separate", "%s" % (a,), w, st, "copies", a)
        if o is not None:
            args = [x.encode() for x in a[2]]
            tally("a copy is equal and separate", o.kind == "return" and tuple(o.val) == (
                True, args, args + [b"more"]), "%s: %s %s" % (a, o.kind, o.val))
    tally.done(n)


PARTS = [making, comparing]
