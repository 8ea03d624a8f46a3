"""Escape analysis of exceptions: every raise reachable from parsing is the KATCP syntax
error (or the type error for non-byte input), every implicitly raising operation
(decode, encode, number conversion, table subscript) on those paths is guarded by a
membership test, a regular-expression match restricted to ASCII, or a tolerant decode.
Grammar tables are folded and compared with the protocol grammar; each accepting path of
the parser and of the message constructor must have passed every refusal test."""
from ..engine import NONE, const, is_const, show, subterms
from ..lib import (A, P, S, SELF, as_msg, byte_class, call_name, call_recv, path_str,
                   regex_of, words)
from ..program import AnalysisError
from .c01 import parse as unescaping, tables

MIN_OBLIGATIONS = 20
ALLOWED = ("core.KatcpSyntaxError", "core.KatcpTypeError")
OPAQUE = {"compat.*"}


def _name_rx(ctx):
    return regex_of(ctx.cconst("core.MessageParser", "NAME_RE"))


def grammar(ctx):
    w = ctx.p.cls("core.MessageParser").module.path
    rx = _name_rx(ctx)
    alpha = [b"a", b"Z", b"0", b"-", b"[", b"]", b"_", b"\xe9"]
    bad = []
    n = 0

    def spec(x):
        i = x.find(b"[")
        name, mid = (x, None) if i < 0 else (x[:i], x[i:])
        if not name or not (name[:1].isalpha() and name[0] < 128):
            return None
        if any(not (bytes([c]).isalnum() or c == 0x2d) for c in name):
            return None
        if mid is not None:
            if len(mid) < 3 or mid[-1:] != b"]" or not mid[1:-1].isdigit():
                return None
            mid = mid[1:-1]
        return name, mid
    for x in words(alpha, 5 if ctx.deep else 4):
        n += 1
        m = rx.match(x)
        got = (m.group("name"), m.group("id")) if m else None
        if got != spec(x):
            bad.append(x)
    for x in (b"a\n", b"a[1]\n", b"a[12]", b"a[123456789]", b"ab-cd-9[0]", b"a[1]x"):
        m = rx.match(x)
        got = (m.group("name"), m.group("id")) if m else None
        if got != spec(x):
            bad.append(x)
    for b in range(256):
        m = rx.match(b"a" + bytes([b]))
        ok = (bytes([b]).isalnum() and b < 128) or b == 0x2d
        if bool(m) != ok:
            bad.append(b"a" + bytes([b]))
        m = rx.match(bytes([b]))
        if bool(m) != (bytes([b]).isalpha() and b < 128):
            bad.append(bytes([b]))
    ctx.ob("name-grammar", "NAME_RE", not bad, w,
           "name pattern disagrees with the protocol on %r (of %d words)" % (bad[:4], n))
    ws = regex_of(ctx.cconst("core.MessageParser", "WHITESPACE_RE"))
    got = byte_class(ws)
    ctx.ob("whitespace", "WHITESPACE_RE", got == {b" ", b"\t"} and
           ws.split(b"a \t b") == [b"a", b"b"] and ws.search(b"") is None, w,
           "argument separator matches %r, must be runs of space and tab" % sorted(got))
    sym = ctx.cconst("core.Message", "TYPE_SYMBOLS")
    look = ctx.cconst("core.MessageParser", "TYPE_SYMBOL_LOOKUP")
    consts = [ctx.cconst("core.Message", n) for n in ("REQUEST", "REPLY", "INFORM")]
    want = dict(zip(consts, (b"?", b"!", b"#")))
    ctx.ob("type-symbols", "TYPE_SYMBOLS", sym == want, w,
           "message type symbols are %r" % sym)
    ctx.ob("type-symbols", "TYPE_SYMBOL_LOOKUP", look == {v: k for k, v in want.items()}, w,
           "parser's type symbols are %r" % look)
    esc = ctx.p.cls("core.KatcpSyntaxError")
    ctx.ob("error-class", "syntax error is a ValueError",
           "ValueError" in [getattr(x, "qual", x) for x in ctx.p.mro(esc)], w, "")


ASCII_SAFE_GROUP = ("group", "groups", "groupdict")


def _ascii_group(t):
    """t is a group of a NAME_RE match (ASCII by the folded pattern)."""
    for x in subterms(t):
        if x[0] == "call" and call_name(x) in ASCII_SAFE_GROUP:
            r = call_recv(x)
            if r is not None and r[0] == "call" and call_name(r) in ("match", "fullmatch") \
                    and call_recv(r) in (S("NAME_RE"),
                                         ("cattr", "core.MessageParser", "NAME_RE")):
                return True
    return False


def implicit(ctx):
    """Operations that raise something other than the syntax error."""
    todo = ["core.MessageParser.parse"]
    todo += sorted(x for x in ctx.p.functions if x.startswith("core.MessageParser.")
                   and x not in todo and not x.endswith("__"))
    seen = set()
    while todo:
        q = todo.pop(0)
        if q in seen or not ctx.p.has_func(q):
            continue
        seen.add(q)
        ps = ctx.paths(q, loop_max=1, inline={"core.Message.__init__"},
                       opaque={"core.Message.format_argument"} | OPAQUE)
        w = ctx.where(q)
        for p in ps:
            if p.kind == "raise":
                ctx.ob("raise-class", "raise %s" % p.val[1], p.val[1] in ALLOWED, w,
                       "parsing raises %s (path: %s)" % (p.val[1], path_str(p)))
            for e in p.events:
                if e.kind != "call":
                    continue
                if e.name in ("sub", "subn", "map"):
                    todo += [a[1] for a in e.allargs() if a[0] in ("bound", "func")]
                if e.stack and any("format_argument" in s for s in e.stack):
                    continue
                risky = None
                x = None
                if e.name in ("decode", "encode") and e.recv is not None:
                    errs = [a for a in e.allargs()[1:] if is_const(a)]
                    if any(a[2] in ("replace", "ignore", "backslashreplace",
                                    "surrogateescape") for a in errs):
                        continue
                    codec = e.args[0] if e.args else None
                    if e.name == "decode" and codec in (const("latin-1"),
                                                        const("latin1"),
                                                        const("iso-8859-1")):
                        continue
                    x = e.recv
                    risky = e.name
                elif e.name == "ensure_native_str":
                    x = e.args[0] if e.args else None
                    risky = "decode"
                elif e.name in ("int", "float") and e.f[0] == "ext":
                    x = e.args[0] if e.args else None
                    risky = e.name
                if risky is None or x is None:
                    continue
                safe = _ascii_group(x) or is_const(x) or \
                    x[0] == "call" and call_name(x) in ("encode", "str", "repr") or \
                    any(s.kind == "handler" for s in p.events[e.idx:])
                if risky in ("encode", "int") and _ascii_group(x):
                    safe = True
                ctx.ob("implicit-error", "%s(%s)" % (risky, show(x)[:60]), safe, e.where,
                       "%s of %s can raise an error other than the syntax error"
                       % (risky, show(x)))
        # table look-ups guarded by a membership test
    for q in ("core.MessageParser.parse",):
        tabs = {("cattr", "core.MessageParser", "TYPE_SYMBOL_LOOKUP"),
                S("TYPE_SYMBOL_LOOKUP"), ("cattr", "core.Message", "TYPE_SYMBOL_LOOKUP")}
        esc = {("cattr", "core.MessageParser", "ESCAPE_LOOKUP"), S("ESCAPE_LOOKUP"),
               ("cattr", "core.Message", "ESCAPE_LOOKUP")}
        for q, tt in (("core.MessageParser.parse", tabs),
                      ("core.MessageParser._unescape_match", esc)):
            if not ctx.p.has_func(q):
                continue
            pths = ctx.paths(q, loop_max=1, opaque=OPAQUE)
            caught = {e.extra[1:] for p in pths for i, e in enumerate(p.events)
                      if e.kind == "exc" and isinstance(e.extra, tuple) and
                      e.extra[0] == "subscript" and
                      any(h.kind == "handler" and h.val == e.val for h in p.events[i:])}
            for p in pths:
                if p.kind != "return":
                    continue
                for x in subterms(p.val):
                    if x[0] == "item" and x[1] in tt:
                        ok = any(p.facts.get(("in", x[2], t)) is True or
                                 _in_true(p, x[2], t) for t in tt) or \
                            (x[1], x[2]) in caught
                        ctx.ob("guarded-lookup", "%s table" % q.split(".")[-1], ok,
                               ctx.where(q), "%s is looked up without checking it is in "
                               "the table" % show(x[2]))


def _in_true(p, k, t):
    return any(e.kind == "cond" and e.val and e.extra == ("in", k, t) for e in p.events)


_CHANGES = ("strip", "rstrip", "lstrip", "replace", "lower", "upper", "translate",
            "expandtabs", "title", "swapcase", "splitlines")


def accepted(ctx):
    """What an accepting path of the parser has checked and returns."""
    q = "core.MessageParser.parse"
    w = ctx.where(q)
    line = P("line")
    ps = ctx.paths(q, loop_max=1, opaque={"core.Message.*"} | OPAQUE)
    tabs = (("cattr", "core.MessageParser", "TYPE_SYMBOL_LOOKUP"), S("TYPE_SYMBOL_LOOKUP"),
            ("cattr", "core.Message", "TYPE_SYMBOL_LOOKUP"))
    first = ("slice", line, NONE, const(1), NONE)
    first2 = ("slice", line, const(0), const(1), NONE)
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        n += 1
        m = as_msg(p.val)
        if m is None:
            ctx.ob("accept", "message returned", None, w, show(p.val))
            continue
        a = p.val[2] if p.val[0] == "new" else None
        mt = a[0] if a else None
        ok = mt is not None and mt[0] == "item" and mt[1] in tabs and \
            mt[2] in (first, first2)
        if not ok and mt is not None and mt[0] == "call" and call_name(mt) == "get":
            ok = None
        ctx.ob("accept-type", "type is that of the first character", ok, w,
               "message type is %s" % (show(mt) if mt else None))
        nm = m.name
        while nm[0] == "call" and call_name(nm) in ("ensure_native_str", "str", "decode"):
            nm = call_recv(nm) if call_name(nm) == "decode" else nm[2][0]
        ok_n = nm[0] == "call" and call_name(nm) == "group" and \
            nm[2] in ((const("name"),), (const(1),))
        ctx.ob("accept-name", "name is the matched name", ok_n, w,
               "message name is %s" % show(nm))
        md = m.mid
        ok_m = md[0] == "call" and call_name(md) == "group" and \
            md[2] in ((const("id"),), (const(3),))
        ctx.ob("accept-mid", "id is the matched id", ok_m, w,
               "message id is %s" % show(md))
        if ok_n:
            mm = call_recv(nm)
            matched = any(e.kind == "cond" and (
                (e.extra == ("truth", mm) and e.val) or
                (e.extra == ("is", mm, NONE) and not e.val)) for e in p.events)
            ctx.ob("accept-name", "match tested", matched, w,
                   "the name match is used without testing it")
            src = mm[2][0] if mm[0] == "call" and mm[2] else None
            # source: first part without its type character
            ok = src is not None and src[0] == "slice" and src[2] == const(1) and \
                src[3] == NONE
            if ok:
                base = src[1]
                ok = base[0] == "item" and base[2] == const(0) and \
                    base[1][0] == "call" and call_name(base[1]) == "split"
            ctx.ob("accept-name", "name text is the first word after the type", ok or None
                   if src is None else ok, w, "the name is matched against %s"
                   % (show(src) if src else None))
        for x in [m.name, m.mid] + list(m.args):
            for y in subterms(x):
                if y[0] != "call" or call_name(y) not in _CHANGES or \
                        call_recv(y) is None or not any(z == line for z in
                                                        subterms(call_recv(y))):
                    continue
                safe = call_name(y) in ("rstrip", "strip", "lstrip") and \
                    len(y[2]) == 1 and is_const(y[2][0]) and \
                    isinstance(y[2][0][2], bytes) and set(y[2][0][2]) <= set(b" \t")
                ctx.ob("accept-text", "the line is taken as received",
                       None if safe or call_recv(y)[0] == "call" and
                       call_name(call_recv(y)) in ("sub", "group") else False, w,
                       "the line is changed by %s() before it is parsed"
                       % call_name(y))
        nonempty = any(e.kind == "cond" and e.extra == ("truth", line) and e.val
                       for e in p.events)
        intable = any(_in_true(p, f, t) for f in (first, first2) for t in tabs)
        ctx.ob("accept-nonempty", "empty line refused", nonempty or intable, w,
               "an empty line is not refused")
        # arguments: all words after the first
        for x in m.args:
            y = x[1] if x[0] == "star" else x
            srcs = [s for s in subterms(y) if s[0] in ("elem", "slice")]
            if y[0] == "comp":
                coll = y[3][0]
                from ..engine import strip_iter
                coll = strip_iter(coll)
                ok = coll[0] == "slice" and coll[2] == const(1) and coll[3] == NONE and \
                    coll[1][0] == "call" and call_name(coll[1]) == "split"
                ctx.ob("accept-args", "all words after the first", ok and not y[4], w,
                       "arguments are taken from %s" % show(coll))
    ctx.ob("accept", "accepting path exists", n >= 1, w, "the parser never accepts")
    # trailing whitespace removes exactly one empty part
    dels = set()
    for p in ps:
        if p.kind != "return":
            continue
        for e in p.events:
            if e.kind == "delitem" or (e.kind == "call" and e.name == "pop" and
                                       e.recv is not None and e.recv[0] == "call"):
                k = e.val if e.kind == "delitem" else (e.args[0] if e.args else const(-1))
                last = ("item", e.base if e.kind == "delitem" else e.recv, const(-1))
                empt = any(c.kind == "cond" and ((c.extra == ("truth", last) and not c.val)
                           or (c.extra[0] == "eq" and last in c.extra[1:] and c.val))
                           for c in p.events[:e.idx])
                ctx.ob("trailing-space", "only an empty last part is dropped",
                       k == const(-1) and empt, e.where,
                       "a part of the line is dropped without being the empty last one")


def constructor(ctx):
    q = "core.Message.__init__"
    w = ctx.where(q)
    name, mt, mid = P("name"), P("mtype"), P("mid")
    for p in ctx.paths(q, opaque={"core.Message.format_argument"}, loop_max=1):
        if p.kind == "raise":
            ctx.ob("constructor", "raise %s" % p.val[1], p.val[1] in ALLOWED, w,
                   "constructing a message raises %s" % p.val[1])
            continue
        if p.kind != "return":
            continue

        def t(pred, val):
            return any(e.kind == "cond" and e.val == val and pred(e.extra)
                       for e in p.events)
        ctx.ob("constructor", "message type checked",
               t(lambda a: a[0] == "in" and a[1] == mt, True), w,
               "a message with an unknown type is accepted (path: %s)" % path_str(p))
        ctx.ob("constructor", "name present",
               t(lambda a: a == ("truth", name), True), w, "an empty name is accepted")
        ctx.ob("constructor", "name characters",
               t(lambda a: a[0] == "truth" and call_name(a[1]) == "isalnum" and
                 any(x == name for x in subterms(a[1])), True) or
               t(lambda a: a[0] == "truth" and call_name(a[1]) in ("match", "fullmatch")
                 and any(x == name for x in subterms(a[1])), True) or
               t(lambda a: a[0] == "is" and call_name(a[1]) in ("match", "fullmatch")
                 and any(x == name for x in subterms(a[1])), False), w,
               "a name with characters other than letters, digits and dashes is accepted")
        ctx.ob("constructor", "name starts with a letter",
               t(lambda a: a[0] == "truth" and call_name(a[1]) == "isalpha" and
                 any(x == name for x in subterms(a[1])), True) or
               t(lambda a: a[0] in ("truth", "is") and
                 call_name(a[1]) in ("match", "fullmatch"), a_true(p)), w,
               "a name that does not start with a letter is accepted")
        nomid = p.facts.get(("is", mid, NONE)) is True or \
            t(lambda a: a == ("is", mid, NONE), True)
        if not nomid:
            ctx.ob("constructor", "message id is digits",
                   t(lambda a: a[0] == "truth" and call_name(a[1]) == "isdigit" and
                     any(x == mid for x in subterms(a[1])), True), w,
                   "a message id that is not a number is accepted")
        for attr, want in (("mtype", mt), ("name", name)):
            vs = [e.val for e in p.events if e.kind == "store" and e.attr == attr and
                  e.base == SELF]
            ctx.ob("constructor", "stores %s" % attr, bool(vs) and vs[-1] == want, w,
                   "%s is stored as %s" % (attr, [show(v) for v in vs]))
        vs = [e.val for e in p.events if e.kind == "store" and e.attr == "mid" and
              e.base == SELF]
        if nomid:
            ok = bool(vs) and vs[-1] in (NONE, mid)
        else:
            ok = bool(vs) and any(x == mid for x in subterms(vs[-1]))
        ctx.ob("constructor", "stores the message id", ok, w,
               "message id is stored as %s" % [show(v) for v in vs])


def a_true(p):
    return True


PARTS = [grammar, implicit, accepted, constructor, tables, unescaping]
