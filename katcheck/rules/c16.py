"""Every KATCP type is followed end to end, from the construction of the type through
pack() or unpack() (with the defaults, check, encode and decode it inherits or overrides), on
all paths of the source; the path conditions and the resulting terms are folded for a table of
values that splits each type's domain (boundaries, falsy values, missing values, text that
does not decode, both KATCP major versions).  A path that is open under a binding is not
judged.  KatcpType itself is also judged for any type: the value that is checked is the value
that is encoded, nothing is encoded before the check, a decoded value is checked before it is
returned, errors of check and decode are not swallowed, only a missing value takes the
default.  Not decided: the numeric exactness of repr/float (C40); types an application
derives itself."""
from fractions import Fraction

from ..lib import *
from ..teval import Fails, Sentinel, Unknown, ev, trace

MIN_OBLIGATIONS = 250
TECHNIQUE = ("path-sensitive dataflow over probes that are parsed and never run, with folding "
             "of path conditions and result terms for a table of values")
KT = "kattypes.KatcpType"
ERR, VE = "an error", "ValueError"
NOW = Sentinel("NOW")
EXC = {"int": "ValueError", "float": "ValueError", "decode": "UnicodeDecodeError",
       "encode": "UnicodeEncodeError", "ensure_native_str": "UnicodeDecodeError",
       "unpack": "struct.error", "pack": "struct.error"}
VALUE_ERRORS = {"ValueError", "UnicodeDecodeError", "UnicodeEncodeError", "UnicodeError"}

# expression: rows of (method, major, value, result)
NOT_INT = [("unpack", 5, b"a", VE), ("unpack", 5, b"", VE), ("unpack", 5, b"1.5", VE),
           ("unpack", 5, b"\xff", VE)]
RANGE = [("pack", 5, 4, ERR), ("pack", 5, 5, b"5"), ("pack", 5, 6, b"6"), ("pack", 5, 7, ERR),
         ("unpack", 5, b"4", VE), ("unpack", 5, b"5", 5), ("unpack", 5, b"6", 6),
         ("unpack", 5, b"7", VE)]
NONE_REFUSED = [("pack", 5, None, VE), ("unpack", 5, None, VE)]
NONE_OPTIONAL = [("pack", 5, None, VE), ("unpack", 5, None, None)]


def default(packed, value):
    return [("pack", 5, None, packed), ("unpack", 5, None, value)]


def both(*rows):
    out = []
    for v, b in rows:
        out += [("pack", 5, v, b), ("unpack", 5, b, v)]
    return out


TABLE = [
    ("Int()", both((5, b"5"), (-5, b"-5"), (0, b"0"), (2 ** 70, b"%d" % 2 ** 70)) + NOT_INT +
     [("pack", 5, "a", ERR)] + NONE_REFUSED),
    ("Int(min=5, max=6)", RANGE + NONE_REFUSED),
    ("Int(min=0)", both((0, b"0"), (3, b"3")) + [("pack", 5, -1, ERR),
                                                 ("unpack", 5, b"-1", VE)]),
    ("Int(max=0)", both((0, b"0"), (-3, b"-3")) + [("pack", 5, 1, ERR),
                                                   ("unpack", 5, b"1", VE)]),
    ("Int(default=11)", default(b"11", 11) + both((0, b"0"), (4, b"4"))),
    ("Int(default=0)", default(b"0", 0)),
    ("Int(optional=True)", NONE_OPTIONAL + both((0, b"0"), (4, b"4"))),
    ("Int(default=11, optional=True)", default(b"11", 11)),
    ("Int(default=3, min=5)", [("pack", 5, None, ERR), ("unpack", 5, None, VE)]),
    ("Float()", both((5.0, b"5.0"), (-5.5, b"-5.5"), (0.0, b"0.0")) +
     [("pack", 5, 5, b"5.0"), ("unpack", 5, b"5", 5.0), ("pack", 5, "a", ERR),
      ("pack", 5, True, b"1.0"), ("unpack", 5, b"a", VE), ("unpack", 5, b"", VE),
      ("unpack", 5, b"\xff", VE), ("unpack", 5, b"-1e3", -1000.0)] + NONE_REFUSED),
    ("Float(min=5.0, max=6)", [
        ("pack", 5, 4.5, ERR), ("pack", 5, 5.0, b"5.0"), ("pack", 5, 6.0, b"6.0"),
        ("pack", 5, 6.5, ERR), ("unpack", 5, b"4.5", VE), ("unpack", 5, b"5.0", 5.0),
        ("unpack", 5, b"6", 6.0), ("unpack", 5, b"6.5", VE)]),
    ("Float(min=0.0)", [("pack", 5, -0.5, ERR), ("unpack", 5, b"-0.5", VE),
                        ("pack", 5, 0.0, b"0.0")]),
    ("Float(max=0)", [("pack", 5, 0.5, ERR), ("unpack", 5, b"0.5", VE)]),
    ("Float(default=0.0)", default(b"0.0", 0.0) + both((1.5, b"1.5"))),
    ("Float(optional=True)", NONE_OPTIONAL + both((0.0, b"0.0"))),
    ("Bool()", both((True, b"1"), (False, b"0")) + [
        ("pack", 5, 1, b"1"), ("pack", 5, 0, b"0"), ("unpack", 5, b"", VE),
        ("unpack", 5, b"2", VE), ("unpack", 5, b"01", VE), ("unpack", 5, b"10", VE),
        ("unpack", 5, b"true", VE)] + NONE_REFUSED),
    ("Bool(default=False)", default(b"0", False) + both((True, b"1"))),
    ("Bool(default=True)", default(b"1", True) + both((False, b"0"))),
    ("Bool(optional=True)", NONE_OPTIONAL + both((False, b"0"))),
    ("Str()", both(("abc", b"abc"), ("", b""), ("\xe9 \n", b"\xc3\xa9 \n")) + [
        ("pack", 5, b"xx", b"xx"), ("pack", 5, 5, b"5"), ("unpack", 5, b"\xff", VE)] +
     NONE_REFUSED),
    ("Str(default='')", default(b"", "") + both(("x", b"x"))),
    ("Str(optional=True)", NONE_OPTIONAL + both(("", b""))),
    ("Discrete(['a', 'B'])", both(("a", b"a"), ("B", b"B")) + [
        ("pack", 5, "A", ERR), ("pack", 5, "c", ERR), ("pack", 5, "", ERR),
        ("unpack", 5, b"A", VE), ("unpack", 5, b"c", VE), ("unpack", 5, b"", VE),
        ("unpack", 5, b"\xff", VE)] + NONE_REFUSED),
    ("Discrete(['a', 'B'], case_insensitive=True)", both(
        ("a", b"a"), ("A", b"A"), ("b", b"b"), ("B", b"B")) + [
        ("pack", 5, "c", ERR), ("unpack", 5, b"c", VE), ("unpack", 5, b"ab", VE)]),
    ("Discrete(['a', 'b'], default='b')", default(b"b", "b") + [("unpack", 5, b"c", VE)]),
    ("Discrete(['a'], default='z')", [("pack", 5, None, ERR), ("unpack", 5, None, VE)]),
    ("Lru()", [("pack", 5, 0, b"nominal"), ("pack", 5, 1, b"error"), ("pack", 5, 2, ERR),
               ("pack", 5, "nominal", ERR), ("unpack", 5, b"nominal", 0),
               ("unpack", 5, b"error", 1), ("unpack", 5, b"", VE), ("unpack", 5, b"Error", VE)]
     + NONE_REFUSED),
    ("Lru(default=0)", default(b"nominal", 0) + [("pack", 5, 1, b"error")]),
    ("Address()", both(
        (("127.0.0.1", 80), b"127.0.0.1:80"), (("127.0.0.1", None), b"127.0.0.1"),
        (("::1", 80), b"[::1]:80"), (("::1", None), b"[::1]"), (("h", 0), b"h:0")) + [
        ("pack", 5, 5, ERR), ("pack", 5, ("h",), ERR), ("pack", 5, ("h", 1, 2), ERR),
        ("pack", 5, ("h", "x"), ERR), ("unpack", 5, b"[::1", VE), ("unpack", 5, b"::1", VE),
        ("unpack", 5, b"h:", VE), ("unpack", 5, b"h:x", VE), ("unpack", 5, b"\xff", VE),
        ("unpack", 5, b"h:1x", VE), ("unpack", 5, b"[::1]80", VE)] + NONE_REFUSED),
    ("Timestamp()", both((1.5, b"1.500000"), (0.0, b"0.000000")) + [
        ("pack", 5, 1235475381.69669, b"1235475381.696690"), ("pack", 5, 7, b"7.000000"),
        ("pack", 4, 1.5, b"1500"), ("pack", 4, 0.0, b"0"), ("unpack", 4, b"1500", 1.5),
        ("unpack", 5, b"1500", 1500.0), ("unpack", 4, b"0", 0.0), ("pack", 6, 1.5, b"1.500000"),
        ("unpack", 6, b"2.5", 2.5), ("pack", 5, "a", ERR), ("pack", 4, "a", ERR),
        ("unpack", 5, b"a", VE), ("unpack", 4, b"a", VE), ("unpack", 5, b"", VE),
        ("unpack", 5, b"\xff", VE)] + NONE_REFUSED),
    ("Timestamp(default=2.5)", default(b"2.500000", 2.5) + [
        ("pack", 4, None, b"2500"), ("unpack", 4, None, 2.5)]),
    ("TimestampOrNow()", both((1.5, b"1.500000")) + [
        ("pack", 5, NOW, b"now"), ("unpack", 5, b"now", NOW), ("pack", 4, NOW, b"now"),
        ("unpack", 4, b"now", NOW), ("pack", 4, 1.5, b"1500"), ("unpack", 4, b"1500", 1.5),
        ("unpack", 5, b"Now", VE), ("unpack", 5, b"a", VE), ("pack", 5, "a", ERR)] +
     NONE_REFUSED),
    ("StrictTimestamp()", both((1.5, b"1.5"), (0.0, b"0.0")) + [
        ("pack", 5, -0.5, ERR), ("pack", 5, "a", ERR), ("unpack", 5, b"-0.5", VE),
        ("unpack", 5, b"-1.0", VE), ("unpack", 5, b"a", VE), ("unpack", 5, b"", VE),
        ("unpack", 5, b"1e5", VE), ("unpack", 5, b"1.a", VE), ("unpack", 5, b"\xff", VE),
        ("pack", 5, float("inf"), ERR), ("pack", 4, 1.5, b"1.5"), ("unpack", 4, b"1.5", 1.5)]
     + NONE_REFUSED),
    ("Struct('>ih')", both(((1, 2), b"\0\0\0\1\0\2")) + [
        ("pack", 5, (1,), ERR), ("pack", 5, ("a", 1), ERR), ("unpack", 5, b"\0", VE),
        ("unpack", 5, b"", VE), ("unpack", 5, b"\0" * 7, VE)] + NONE_REFUSED),
    ("Regex('a+$')", both(("a", b"a"), ("aaa", b"aaa")) + [
        ("pack", 5, "b", ERR), ("pack", 5, "ab", ERR), ("unpack", 5, b"b", VE),
        ("unpack", 5, b"", VE), ("unpack", 5, b"\xff", VE), ("unpack", 5, b"ba", VE)] +
     NONE_REFUSED),
    ("DiscreteMulti(['a', 'B'])", both((["a"], b"a"), (["a", "B"], b"a,B")) + [
        ("pack", 5, ["B", "a"], b"a,B"), ("unpack", 5, b"B,a", ["a", "B"]),
        ("unpack", 5, b"B, a", ["a", "B"]), ("unpack", 5, b"all", ["a", "B"]),
        ("pack", 5, ["c"], ERR), ("pack", 5, ["a", "c"], ERR), ("pack", 5, ["A"], ERR),
        ("unpack", 5, b"c", VE), ("unpack", 5, b"a,c", VE), ("unpack", 5, b"c,a", VE),
        ("unpack", 5, b"A", VE), ("unpack", 5, b"a,", VE), ("unpack", 5, b"\xff", VE),
        ("pack", 5, [], b""), ("unpack", 5, b"", [])] + NONE_REFUSED),
    ("DiscreteMulti(['a', 'B'], case_insensitive=True)", both((["A"], b"A")) + [
        ("pack", 5, ["c"], ERR), ("unpack", 5, b"A,c", VE), ("unpack", 5, b"b", ["b"])]),
    ("DiscreteMulti(['a', 'b'], all_keyword=None)", [("unpack", 5, b"all", VE)]),
    ("DiscreteMulti(['a', 'b'], all_keyword='*', separator=';')", both((["a", "b"], b"a;b")) +
     [("unpack", 5, b"*", ["a", "b"]), ("unpack", 5, b"a,b", VE)]),
    ("DiscreteMulti(['a', 'b'], default=['b'])", default(b"b", ["b"])),
]


class OddFloat(float):
    """A float that shows itself in its own way (as numpy's do)."""

    def __repr__(self):
        return "odd(%s)" % float.__repr__(self)


# what a type encodes of a value of its kind, the same type decodes to that value
ROUND = [
    ("Int()", [0, 7, -7, 10 ** 30, True]),
    ("Float()", [0.0, -0.0, 1e300, 1e-300, 0.1, 123456789.123456789, 2 ** 60, True,
                 Fraction(1, 2), OddFloat(1.5), float("inf")]),
    ("Bool()", [True, False]),
    ("Str()", ["", "a b", "\\_\n\t\r\x1b\0", "\u20ac"]),
    ("Discrete(['x y', 'z'])", ["x y", "z"]),
    ("Lru()", [0, 1]),
    ("Address()", [("192.168.1.1", 65535), ("fe80::1", 1), ("fe80::1", None), ("host", None),
                   ("", 5)]),
    ("Timestamp()", [0.0, 1.5, 1235475381.69669, 2147483648.25]),
    ("StrictTimestamp()", [0.0, 1.5, 7, 1235475381.69669, 1e20, 1e-5, 1e16, True,
                           Fraction(1, 4), OddFloat(2.5)]),
    ("Struct('>id')", [(1, 2.5), (-1, 0.0)]),
    ("DiscreteMulti(['a', 'b', 'C'])", [[], ["a"], ["a", "b"], ["a", "b", "C"]]),
]
# encode without the check, on request
NOCHECK = [("Int(min=5, max=6)", 7, b"7"), ("Discrete(['a'])", "z", b"z")]


def quiet(e):
    """Making an exception does not fail."""
    return (e.name or "").endswith(("Error", "Exception", "FailReply", "Reply"))


SOME = Sentinel("some value")


class NUMBER(object):
    def __init__(self, v):
        self.v = float(v) if not isinstance(v, int) else int(v)

    def __repr__(self):
        return "%r" % (self.v,)


def same(a, b):
    if a is SOME:
        return True
    if isinstance(a, NUMBER):
        return isinstance(b, (int, float)) and (a.v == b or abs(a.v - b) <= 1e-12 * abs(a.v))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-12 * max(1.0, abs(a))
    if isinstance(b, Sentinel) or isinstance(a, Sentinel):
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(
            same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def judge(ctx, paths, env, want):
    """(verdict, what happens)"""
    closed = opened = 0
    got = None
    bad = []
    failed = []
    for p in paths:
        if p.kind == "cut":
            continue
        ok, open_, fails, env2 = trace(ctx, p, env)
        if fails:
            failed.append(fails)        # no condition of this path has a value
            continue
        if not ok:
            continue
        if p.kind == "raise":
            out = ("error", p.val[1] if p.val else None)
            if p.val and p.val[1] is None:
                out = ("error", None)
        else:
            try:
                out = ("value", ev(ctx, p.val, env2))
            except Fails as e:
                out = ("error", e.args[0])
            except Unknown:
                out = None
        if open_ or out is None:
            opened += 1
            continue
        closed += 1
        got = out
        if out[0] == "value":
            if isinstance(want, str) and want in (ERR, VE) or not same(want, out[1]):
                bad.append(out)
        elif not (isinstance(want, str) and want in (ERR, VE)):
            bad.append(out)
        elif want == VE and out[1] not in VALUE_ERRORS:
            if out[1] is None:
                opened += 1
                closed -= 1
            else:
                bad.append(out)
    if bad:
        return False, bad[0]
    if closed:
        return (None if opened else True), got
    if failed and not opened:
        if isinstance(want, str) and want in (ERR, VE):
            return (True if want == ERR or failed[0] in VALUE_ERRORS else False), (
                "error", failed[0])
        return False, ("error", failed[0])
    return None, None


def inits(ctx):
    return {c.qual + ".__init__" for c in ctx.p.classes.values() if c.module.name == "kattypes"}


def table(ctx):
    ini = inits(ctx)
    now = ("cattr", "kattypes.TimestampOrNow", "NOW")
    for k, (expr, rows) in enumerate(TABLE):
        ps = {}
        for m in ("pack", "unpack"):
            q = ctx.probe("kattypes", "def probe_%s_%d(value, major):\n"
                          "    return %s.%s(value, major=major)\n" % (m, k, expr, m))
            multi = expr.startswith("DiscreteMulti")
            try:
                ps[m] = ctx.paths(q, inline=ini, exc_of=lambda e: EXC.get(e.name),
                                  raise_all=True, loop_max=2 if multi else 1, max_paths=6000,
                                  noraise=quiet, unpacks=True)
            except AnalysisError as e:
                ctx.ob("codec", "%s.%s" % (expr, m), None, ctx.where(KT + "." + m), str(e))
        cls = "kattypes." + expr.split("(")[0]
        w = "%s" % ctx.p.cls(cls).module.path if ctx.p.classes.get(cls) else ""
        for m, major, v, want in rows:
            if m not in ps:
                continue
            env = {P("value"): v, P("major"): major, now: NOW}
            ok, got = judge(ctx, ps[m], env, want)
            ctx.ob("codec", "%s.%s(%r) in major version %s" % (expr, m, v, major), ok, w,
                   "should give %r and gives %r" % (want, got))
    for k, (expr, values) in enumerate(ROUND):
        ps = {}
        for m in ("pack", "unpack"):
            q = ctx.probe("kattypes", "def probe_round_%s_%d(value, major):\n"
                          "    return %s.%s(value, major=major)\n" % (m, k, expr, m))
            ps[m] = ctx.paths(q, inline=ini, exc_of=lambda e: EXC.get(e.name), raise_all=True,
                              loop_max=3, max_paths=6000, noraise=quiet, unpacks=True)
        for v in values:
            for major in (5, 4):
                if expr == "Timestamp()" and major == 4 and v != round(v, 3):
                    continue
                _, got = judge(ctx, ps["pack"], {P("value"): v, P("major"): major}, SOME)
                i = "%s encodes %r in major version %s" % (expr, v, major)
                w = ctx.where(KT + ".pack")
                if got is None:
                    ctx.ob("roundtrip", i, None, w, "")
                    continue
                ctx.ob("roundtrip", i, got[0] == "value" and isinstance(got[1], bytes), w,
                       "gives %r" % (got,))
                if got[0] != "value":
                    continue
                want = v if not isinstance(v, (int, Fraction, OddFloat)) or isinstance(
                    v, bool) and expr == "Bool()" else NUMBER(v)
                ok, back = judge(ctx, ps["unpack"], {P("value"): got[1], P("major"): major},
                                 want)
                ctx.ob("roundtrip", i + " and decodes it", ok, w,
                       "%r is encoded as %r, which decodes to %r" % (v, got[1], back))
    for k, (expr, v, want) in enumerate(NOCHECK):
        q = ctx.probe("kattypes", "def probe_nocheck_%d(value, major):\n"
                      "    return %s.pack(value, nocheck=True, major=major)\n" % (k, expr))
        ps = ctx.paths(q, inline=ini, exc_of=lambda e: EXC.get(e.name))
        ok, got = judge(ctx, ps, {P("value"): v, P("major"): 5}, want)
        ctx.ob("codec", "%s.pack(%r, nocheck)" % (expr, v), ok, ctx.where(KT + ".pack"),
               "should give %r and gives %r" % (want, got))
    # the version in force when none is given is the current one
    for m, v, want in (("pack", 1.5, b"1.500000"), ("unpack", b"1.5", 1.5)):
        q = ctx.probe("kattypes", "def probe_major_%s(value):\n"
                      "    return Timestamp().%s(value)\n" % (m, m))
        ps = ctx.paths(q, inline=ini, exc_of=lambda e: EXC.get(e.name))
        ok, got = judge(ctx, ps, {P("value"): v}, want)
        ctx.ob("codec", "%s() without a version" % m, ok, ctx.where(KT + "." + m),
               "should give %r and gives %r" % (want, got))


def base_pack(ctx):
    q = KT + ".pack"
    fi = ctx.p.func(q)
    val, major, nocheck = P(fi.params[1]), P("major"), P("nocheck")
    n = 0
    for p in ctx.paths(q, opaque={KT + ".check", KT + ".encode", KT + ".get_default"},
                       raise_all=True):
        calls = {m: [e for e in events(p, "call") if e.name == m] for m in (
            "check", "encode", "get_default")}
        enc, chk, dfl = calls["encode"], calls["check"], calls["get_default"]
        for e in enc:
            a = e.allargs()
            n += 1
            miss = isnone(p, val)
            ctx.ob("pack", "encodes the value given or the default", True if a and (
                a[0] == val and miss is not True or dfl and a[0] == dfl[0].res and
                miss is True) else None if a and (a[0] != val and (not dfl or a[0] != dfl[
                    0].res)) or miss is None else False, e.where,
                "encode(%s): %s" % (show(a[0]) if a else "", path_str(p)))
            ctx.ob("pack", "in the version in force", True if len(a) > 1 and a[1] == major
                   else False if len(a) > 1 and is_const(a[1]) else None, e.where,
                   path_str(p))
            pre = [c for c in chk if c.idx < e.idx]
            skip = truthy(p, nocheck)
            ctx.ob("pack", "checks before encoding", True if pre and pre[0].allargs()[:2] ==
                   [a[0], major] or skip is True else None if pre else False, e.where,
                   "%s is encoded without check(): %s" % (show(a[0]), path_str(p)))
            ctx.ob("pack", "never encodes None", True if a[0] == val and miss is False or
                   isnone(p, a[0]) is False else None if not is_const(a[0])
                   and a[0] not in [x.res for x in dfl] else False, e.where,
                   "a type without a default would encode None: %s" % path_str(p))
        if p.kind == "return":
            ctx.ob("pack", "returns the encoded value", True if enc and p.val == enc[-1].res
                   else False if p.val == val or is_const(p.val) or not enc else None,
                   fi.where, "%s on %s" % (show(p.val), path_str(p)))
            lost = [e for e in p.events if e.kind == "exc" and e.val is not None and
                    any(e.idx > c.idx for c in chk) and any(
                        h.kind == "handler" for h in p.events)]
            ctx.ob("pack", "errors are passed on", False if lost else True, fi.where,
                   path_str(p))
    ctx.ob("pack", "analysed", n >= 2 or None, fi.where, "")


def base_unpack(ctx):
    q = KT + ".unpack"
    fi = ctx.p.func(q)
    val, major = P(fi.params[1]), P("major")
    n = 0
    for p in ctx.paths(q, opaque={KT + ".check", KT + ".decode", KT + ".get_default"},
                       raise_all=True):
        calls = {m: [e for e in events(p, "call") if e.name == m] for m in (
            "check", "decode", "get_default")}
        dec, chk, dfl = calls["decode"], calls["check"], calls["get_default"]
        miss = isnone(p, val)
        if p.kind == "return":
            n += 1
            src = dec[0].res if dec else dfl[0].res if dfl else NONE
            ctx.ob("unpack", "a missing value takes the default, another is decoded",
                   True if miss is True and dfl and not dec or miss is False and dec and not
                   dfl else None if miss is None and not (dfl and dec is None) else False,
                   fi.where, path_str(p))
            if dec:
                a = dec[0].allargs()
                ctx.ob("unpack", "decodes what was given in the version in force",
                       a[:2] == [val, major] if len(a) > 1 else None, dec[0].where,
                       path_str(p))
            ctx.ob("unpack", "returns the decoded value or the default", True if p.val == src
                   else False if is_const(p.val) and p.val != NONE or p.val == val else
                   True if p.val == NONE and isnone(p, src) else None,
                   fi.where, "%s on %s" % (show(p.val), path_str(p)))
            isnone_ = isnone(p, src)
            good = [c for c in chk if c.allargs()[:2] == [src, major]]
            ctx.ob("unpack", "checks before returning", True if good or isnone_ is True else
                   None if chk else False, fi.where,
                   "%s is returned without check(): %s" % (show(p.val), path_str(p)))
            ctx.ob("unpack", "None is not checked", False if good and isnone_ is True else
                   True, fi.where, path_str(p))
            lost = [e for e in p.events if e.kind == "exc"]
            ctx.ob("unpack", "errors are passed on", False if lost else True, fi.where,
                   "an error of decode(), check() or get_default() is lost: %s" % path_str(p))
    ctx.ob("unpack", "analysed", n >= 2 or None, fi.where, "")


def types(ctx):
    """Every type of the module has the codec, the checks and the defaults of its family."""
    subs = [c for c in ctx.p.classes.values() if c.module.name == "kattypes" and c.qual != KT
            and any(getattr(x, "qual", None) == KT for x in ctx.p.mro(c))]
    covered = {t[0].split("(")[0] for t in TABLE}
    for c in subs:
        w = "%s (class %s)" % (c.module.path, c.name)
        for m in ("encode", "decode"):
            f = ctx.p.lookup(c, m)
            ctx.ob("types", "%s has its %s()" % (c.name, m), True if f is not None and
                   f.cls.qual != KT else None, w, "")
        for m in ("pack", "unpack", "get_default"):
            f = ctx.p.lookup(c, m)
            ctx.ob("types", "%s inherits %s()" % (c.name, m), True if f is not None and
                   f.cls.qual == KT else None, w, "overridden in %s" % (f and f.cls.qual))
        ctx.ob("types", "%s is in the table" % c.name, True if c.name in covered else None, w,
               "a type this check has no values for")
    # what a type remembers about defaults is fixed when it is made
    for a in ("_default", "_optional", "_multiple"):
        for s in attr_stores(ctx, a):
            fn = s[0] if isinstance(s, tuple) else s
            qn = getattr(fn, "qual", str(fn))
            if not qn.startswith("kattypes."):
                continue
            ctx.ob("types", "%s written by %s" % (a, qn), True if qn.endswith(".__init__")
                   else None, qn, "")
    ctx.ob("types", "types found", len(subs) >= 12 or None, "katcp/kattypes.py", "%d" % len(
        subs))


def decode_errors(ctx):
    """Whatever bytes arrive, decode() refuses with ValueError and nothing else."""
    for c in sorted({t[0].split("(")[0] for t in TABLE}):
        f = ctx.p.lookup(ctx.p.cls("kattypes." + c), "decode")
        if f is None:
            continue
        n = 0
        for p in ctx.paths(f.qual, selfcls="kattypes." + c, raise_all=True,
                           exc_of=lambda e: EXC.get(e.name), noraise=lambda e: e.name not in
                           EXC and e.name not in ("group",)):
            if p.kind != "raise":
                n += 1
                continue
            x = p.val[1] if p.val else None
            if x is None:
                continue
            n += 1
            bad = x not in VALUE_ERRORS
            if bad and x == "KeyError" or x == "AttributeError":
                bad = None
            ctx.ob("refuse", "%s.decode()" % c, True if not bad else None if bad is None else
                   False, f.where, "%s escapes: %s" % (x, path_str(p)))
        ctx.ob("refuse", "%s.decode() analysed" % c, n >= 1 or None, f.where, "")


PARTS = [table, base_pack, base_unpack, types, decode_errors]
