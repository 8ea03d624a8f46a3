"""Escape tables folded from the source and compared with each other and with the
protocol table; the serialiser's and parser's return values traced back to the escape
and unescape substitutions on every path (taint: no argument byte reaches the line
unescaped, no unescaped argument leaves the parser undecoded); argument conversion
decided per value type over the isinstance branches."""
import numbers

from ..engine import const, is_const, show, subterms, NONE
from ..lib import (SELF, A, P, S, byte_class, call_name, call_recv, call_target,
                   flatten_bytes, path_str, regex_of)
from ..program import AnalysisError

MIN_OBLIGATIONS = 20
SPEC = {b"\\": b"\\", b"_": b" ", b"0": b"\0", b"n": b"\n", b"r": b"\r",
        b"e": b"\x1b", b"t": b"\t", b"@": b""}


def tables(ctx):
    w = ctx.p.cls("core.Message").module.path
    esc = ctx.cconst("core.Message", "ESCAPE_LOOKUP")
    rev = ctx.cconst("core.Message", "REVERSE_ESCAPE_LOOKUP")
    pesc = ctx.cconst("core.MessageParser", "ESCAPE_LOOKUP")
    for k, v in SPEC.items():
        ctx.ob("escape-table", "decode %r" % k, esc.get(k) == v, w,
               "escape code %r decodes to %r, the protocol says %r" % (k, esc.get(k), v))
        ctx.ob("escape-table", "encode %r" % v, rev.get(v) == k, w,
               "%r is escaped as %r, the protocol says %r" % (v, rev.get(v), k))
        ctx.ob("escape-table", "parser %r" % k, pesc.get(k) == v, w,
               "the parser decodes escape code %r to %r" % (k, pesc.get(k)))
    for k in set(esc) | set(pesc):
        ctx.ob("escape-table", "no extra code %r" % k, k in SPEC, w,
               "escape code %r is not defined by the protocol" % k)
    for k in rev:
        ctx.ob("escape-table", "inverse %r" % k, esc.get(rev[k]) == k, w,
               "escaping %r as %r is not undone by the decode table" % (k, rev[k]))
    rx = regex_of(ctx.cconst("core.Message", "ESCAPE_RE"))
    got = byte_class(rx)
    want = {v for v in SPEC.values() if v}
    ctx.ob("escape-class", "ESCAPE_RE", got == want and _single(rx), w,
           "the escape pattern matches %r, must match exactly %r (one byte at a time)"
           % (sorted(got ^ want), sorted(want)))
    srx = regex_of(ctx.cconst("core.MessageParser", "SPECIAL_RE"))
    sgot = byte_class(srx)
    swant = want - {b"\\"}
    ctx.ob("special-class", "SPECIAL_RE", sgot == swant, w,
           "the parser refuses unescaped %r, must refuse exactly %r"
           % (sorted(sgot), sorted(swant)))
    urx = regex_of(ctx.cconst("core.MessageParser", "UNESCAPE_RE"))
    bad = []
    for b in range(256):
        c = bytes([b])
        m = urx.fullmatch(b"\\" + c)
        if c != b"\n" and (m is None or m.group(1) != c):
            bad.append(c)
        if urx.search(c) is not None and c != b"\\":
            bad.append(c)
    m = urx.fullmatch(b"\\")
    if m is None or m.group(1) not in (b"", None):
        bad.append(b"trailing backslash")
    if urx.sub(lambda m: b"<" + (m.group(1) or b"") + b">", b"a\\\\nb") != b"a<\\>nb":
        bad.append(b"backslash pair")
    ctx.ob("unescape-pattern", "UNESCAPE_RE", not bad, w,
           "unescape pattern misreads %r" % bad[:5])


def _single(rx):
    return rx.sub(b"<>", b"  \\\\") == b"<><><><>" and rx.search(b"") is None


def is_sub(t, regex, cbname=None):
    """regex.sub(callback, x) -> (callback term, x) or None"""
    if t[0] != "call" or call_name(t) != "sub":
        return None
    r = call_recv(t)
    if r is not None and r == regex and len(t[2]) >= 2:
        return t[2][0], t[2][1]
    return None


def regex_terms(cls, name):
    return [("cattr", cls, name), S(name)]


def serialise(ctx):
    q = "core.Message.__bytes__"
    regs = regex_terms("core.Message", "ESCAPE_RE")
    args = S("arguments")
    ps = ctx.paths(q, loop_max=2, opaque={"core.Message._escape_match"})
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        w = ctx.where(q)
        pieces = flatten_bytes(p.val, p)
        if pieces is None:
            ctx.ob("serialise-shape", "understood", None, w, "rendering not understood")
            pieces = [("val", p.val)]
        n += 1
        # taint: every occurrence of an argument sits inside the escaping sub()
        for pc in pieces:
            t = pc[-1]
            if pc[0] == "lit":
                continue
            raw = list(_raw_args(t, regs, args, p))
            ctx.ob("escape-taint", "argument reaches the line escaped", not raw, w,
                   "argument value %s reaches the serialised line without the escape "
                   "substitution (path: %s)" % ([show(x) for x in raw][:2], path_str(p)))
        # empty argument marker
        for pc in pieces:
            for x in _arg_outputs(pc, p):
                for rg in regs:
                    s = is_sub(x, rg)
                    if s is None:
                        continue
                    ok = p.facts.get(("truth", x)) is True or \
                        p.facts.get(("truth", s[1])) is True or _cond_true(p, x, s[1])
                    ctx.ob("empty-argument", "empty argument rendered as \\@", ok, w,
                           "an empty argument can be rendered as nothing (path: %s)"
                           % path_str(p))
        # framing
        shape = _shape(pieces, regs, p)
        if shape is not None:
            ctx.ob("framing", "type, name, id, arguments", shape == "", w,
                   "serialised line is built wrongly: %s (path: %s)" % (shape, path_str(p)))
        else:
            ctx.ob("framing", "type, name, id, arguments", None, w, "unknown shape")
    ctx.ob("serialise", "paths analysed", n >= 2, ctx.where(q),
           "serialiser has no returning path")
    # callback of the substitution
    q2 = "core.Message._escape_match"
    if not ctx.p.has_func(q2):
        return
    for p in ctx.paths(q2):
        if p.kind == "return":
            pc = flatten_bytes(p.val, p)
            ok = False
            if pc and len(pc) == 2 and pc[0] == ("lit", b"\\") and pc[1][0] == "val":
                t = pc[1][1]
                ok = t[0] == "item" and t[1] in (
                    ("cattr", "core.Message", "REVERSE_ESCAPE_LOOKUP"),
                    S("REVERSE_ESCAPE_LOOKUP")) and t[2][0] == "call" and \
                    call_name(t[2]) == "group" and \
                    (not t[2][2] or t[2][2] == (const(0),))
            ctx.ob("escape-callback", "backslash + code of the matched byte", ok,
                   ctx.where(q2), "escape callback returns %s" % show(p.val))


def _cond_true(p, x, raw):
    for e in p.events:
        if e.kind == "cond" and e.val and e.extra in (("truth", x), ("truth", raw)):
            return True
    return False


def _raw_args(t, regs, args, p):
    """Occurrences of the arguments outside an escaping substitution."""
    if not isinstance(t, tuple) or not t:
        return
    if not isinstance(t[0], str):
        for x in t:
            for y in _raw_args(x, regs, args, p):
                yield y
        return
    if any(is_sub(t, r) for r in regs):
        return
    if t[0] == "comp":
        for y in _raw_args(t[2], regs, args, p):
            yield y
        return
    if t == args:
        yield t
        return
    if t[0] in ("list", "set"):
        c = p.contents(t)
        for x in (c if c is not None else t[1]):
            for y in _raw_args(x, regs, args, p):
                yield y
        return
    for x in t[1:]:
        for y in _raw_args(x, regs, args, p):
            yield y


def _arg_outputs(pc, p):
    """Terms rendered for arguments in one piece."""
    if pc[0] == "lit":
        return
    t = pc[-1]
    if t[0] == "comp":
        x = t[2]
        yield x
        # comp over comp was already collapsed by elem_term
        return
    if t[0] in ("list", "tuple"):
        for x in (p.contents(t) or ()):
            yield x
        return
    yield t


def _shape(pieces, regs, p):
    """'' when the pieces spell TYPE name [mid] args, else what is wrong."""
    def isarg(t):
        return any(is_sub(t, r) for r in regs)
    seq = []
    for pc in pieces:
        if pc[0] == "lit":
            seq.append(("lit", pc[1]))
        elif pc[0] == "join":
            t = pc[2]
            elt = t[2] if t[0] == "comp" else None
            if elt is None:
                return None
            if not (isarg(elt) or elt == const(b"\\@")):
                return None
            seq.append(("args", pc[1]))
        else:
            t = pc[1]
            if isarg(t):
                seq.append(("arg",))
            elif t[0] == "item" and t[1] in (("cattr", "core.Message", "TYPE_SYMBOLS"),
                                             S("TYPE_SYMBOLS")) and t[2] == S("mtype"):
                seq.append(("type",))
            elif t[0] == "call" and call_name(t) == "encode" and call_recv(t) == S("name"):
                seq.append(("name",))
            elif t == S("mid"):
                seq.append(("mid",))
            else:
                return None
    has_mid = None
    has_args = None
    for e in p.events:
        if e.kind == "cond":
            if e.extra == ("is", S("mid"), NONE):
                has_mid = not e.val
            elif e.extra == ("truth", S("mid")):
                has_mid = e.val
            elif e.extra == ("truth", S("arguments")):
                has_args = e.val
    nargs = 0
    for e in p.events:
        if e.kind == "iter" and e.extra != "comp":
            nargs = max(nargs, e.extra + 1)
    want = [("type",), ("name",)]
    if has_mid is None:
        return None
    if has_mid:
        want += [("lit", b"["), ("mid",), ("lit", b"]")]
    w1 = list(want)
    got = list(seq)

    def norm(s):
        """merge literals, and treat the literal \\@ as an argument"""
        out = []
        buf = b""
        for x in s:
            if x[0] == "lit":
                buf += x[1]
            else:
                if buf:
                    out.append(("lit", buf))
                    buf = b""
                out.append(x)
        if buf:
            out.append(("lit", buf))
        return out

    def args_tail(rest):
        """rest spells (b' ' arg)* or b' ' + join(b' ')"""
        flat = []
        for x in norm(rest):
            if x[0] == "lit":
                s = x[1]
                while s:
                    if s.startswith(b"\\@"):
                        flat.append("A")
                        s = s[2:]
                    else:
                        flat.append(s[:1])
                        s = s[1:]
            elif x == ("arg",):
                flat.append("A")
            elif x[0] == "args":
                if x[1] != b" ":
                    return False
                flat.append("A")
            else:
                return False
        return len(flat) % 2 == 0 and all(
            f == (b" " if i % 2 == 0 else "A") for i, f in enumerate(flat))
    # split got into head (up to mid) and tail
    g = norm(got)
    flat = []
    for x in g:
        if x[0] == "lit":
            for i in range(len(x[1])):
                flat.append(("lit", x[1][i:i + 1]))
        else:
            flat.append(x)
    head = flat[:len(w1)]
    tail = flat[len(w1):]
    if head != w1:
        return "header is %s, expected %s" % (head, w1)
    if has_args is False and tail:
        return "text after the header of a message without arguments"
    if has_args and not tail and not nargs == 0:
        return "arguments are not rendered"
    if not args_tail(tail):
        return "arguments are not separated by exactly one space each (%s)" % tail
    if has_args and not tail:
        comp = any(pc[0] == "join" for pc in pieces)
        if not comp and nargs == 0:
            return ""
    return ""


def parse(ctx):
    """Every argument of the parsed message goes through special check + unescape."""
    q = "core.MessageParser.parse"
    un = regex_terms("core.MessageParser", "UNESCAPE_RE")
    sp = regex_terms("core.MessageParser", "SPECIAL_RE")
    ws = regex_terms("core.MessageParser", "WHITESPACE_RE")
    n = 0
    for p in ctx.paths(q, loop_max=1, opaque={"core.MessageParser._unescape_match",
                                              "core.Message.*"}):
        if p.kind != "return":
            continue
        n += 1
        w = ctx.where(q)
        t = p.val
        from ..lib import as_msg
        m = as_msg(t)
        if m is None:
            ctx.ob("parse-result", "message built", None, w, show(t))
            continue
        outs = []
        for a in m.args:
            x = a[1] if a[0] == "star" else a
            if x[0] == "comp":
                outs.append((x[2], x[3]))
            elif x[0] in ("list", "tuple"):
                outs.extend((y, None) for y in (p.contents(x) or ()))
            else:
                outs.append((x, None))
        for x, src in outs:
            s = None
            for r in un:
                s = s or is_sub(x, r)
            ok = s is not None
            ctx.ob("parse-unescape", "arguments are unescaped", ok, w,
                   "an argument of the parsed message is %s, not the unescaped text"
                   % show(x))
            if not ok:
                continue
            raw = s[1]
            # special characters refused on the same raw text
            checked = False
            for e in p.events:
                if e.kind == "call" and e.name in ("search",) and e.recv in sp and \
                        e.args and e.args[0] == raw:
                    if p.facts.get(("truth", e.res)) is False or \
                            p.facts.get(("is", e.res, NONE)) is True or \
                            _false_cond(p, e.res):
                        checked = True
            ctx.ob("parse-special", "unescaped special bytes are refused", checked, w,
                   "an argument is accepted without the unescaped-special check")
            src_ok = any(x2[0] == "call" and call_name(x2) == "split" and
                         (call_recv(x2) in ws) for x2 in subterms(raw))
            ctx.ob("parse-split", "arguments are the whitespace separated parts", src_ok, w,
                   "argument text is %s" % show(raw))
    ctx.ob("parse", "returning paths analysed", n >= 1, ctx.where(q), "")
    q2 = "core.MessageParser._unescape_match"
    if not ctx.p.has_func(q2):
        return
    tabs = [("cattr", "core.MessageParser", "ESCAPE_LOOKUP"), S("ESCAPE_LOOKUP"),
            ("cattr", "core.Message", "ESCAPE_LOOKUP")]
    for p in ctx.paths(q2, raise_all=False):
        w = ctx.where(q2)
        if p.kind == "return":
            t = p.val
            ok = t[0] == "item" and t[1] in tabs and t[2][0] == "call" and \
                call_name(t[2]) == "group" and t[2][2] == (const(1),)
            if not ok and t[0] == "call" and call_name(t) == "get" and \
                    call_recv(t) in tabs:
                ok = p.facts.get(("is", t, NONE)) is False
            ctx.ob("unescape-callback", "decodes through the table", ok, w,
                   "unescape returns %s" % show(t))
        elif p.kind == "raise":
            ctx.ob("unescape-callback", "undefined escape is a syntax error",
                   p.val[1] == "core.KatcpSyntaxError", w,
                   "undefined escape raises %s" % p.val[1])
    ctx.ob("unescape-callback", "undefined escape raises",
           any(p.kind == "raise" for p in ctx.paths(q2)), ctx.where(q2),
           "no path refuses an undefined escape")


def _false_cond(p, t):
    return any(e.kind == "cond" and ((e.extra == ("truth", t) and not e.val) or
                                     (e.extra == ("is", t, NONE) and e.val))
               for e in p.events)


KINDS = {
    # kind: predicates that are true for it
    "bool": {"bool", "int", "Integral", "Real", "Number"},
    "int": {"int", "Integral", "Real", "Number"},
    "float": {"float", "Real", "Number"},
    "bytes": {"bytes"},
    "text": {"text"},
    "numpy-int": {"Integral", "Real", "Number"},
    "numpy-float": {"Real", "Number"},
    "other": set(),
}


def _pred_kind(atom):
    """isinstance/is_bytes/is_text atom on the argument -> predicate name"""
    if atom[0] == "isinstance" and atom[1] == P("arg"):
        n = atom[2][1].split(".")[-1] if isinstance(atom[2][1], str) else None
        return {"str": "text"}.get(n, n)
    if atom[0] == "truth" and atom[1][0] == "call" and atom[1][2] == (P("arg"),):
        return {"is_bytes": "bytes", "is_text": "text"}.get(call_name(atom[1]))
    return None


def _fmt(t, p):
    a = P("arg")
    pc = flatten_bytes(t, p)
    if t == a:
        return "raw"
    if is_const(t) and t[2] in (b"1", b"0"):
        tr = p.facts.get(("truth", a))
        if tr is None:
            return "const"
        return "bool" if t[2] == (b"1" if tr else b"0") else "bool-wrong"
    if t[0] == "bin" and t[1] == "Mod" and t[2] == const(b"%d"):
        return "decimal" if t[3] in (a, ("tuple", (a,))) else "?"
    if t[0] == "bin" and t[1] == "Mod" and is_const(t[2]):
        return "format %r" % (t[2][2],)
    if t[0] == "call" and call_name(t) in ("format", "round", "hex"):
        return call_name(t)
    x = t
    enc = False
    while x[0] == "call" and call_name(x) in ("encode", "encode_utf8_with_error_log"):
        enc = True
        x = call_recv(x) if call_name(x) == "encode" else x[2][0]
    if x == a:
        return "utf8" if enc else "raw"
    if x[0] == "call" and x[2] == (a,) and call_name(x) in ("repr", "str"):
        return "%s-text" % call_name(x) if enc else "str"
    return "?"


WANT = {"bool": {"bool"}, "int": {"decimal", "repr-text", "str-text"},
        "float": {"repr-text"}, "bytes": {"raw"}, "text": {"utf8"},
        "numpy-int": {"decimal"}, "numpy-float": {"repr-text"},
        "other": {"str-text", "str"}}


def formatting(ctx):
    q = "core.Message.format_argument"
    ps = [p for p in ctx.paths(q) if p.kind == "return"]
    w = ctx.where(q)
    for kind, trues in KINDS.items():
        res = set()
        for p in ps:
            ok = True
            for e in p.events:
                if e.kind != "cond":
                    continue
                k = _pred_kind(e.extra)
                if k is None:
                    if e.extra[0] == "isinstance":
                        ok = None
                    continue
                if e.val != (k in trues):
                    ok = False
                    break
            if ok:
                res.add(_fmt(p.val, p))
        if not res or "?" in res:
            ctx.ob("argument-format", kind, None, w, "not understood: %s" % sorted(res))
            continue
        ctx.ob("argument-format", kind, res <= WANT[kind], w,
               "%s arguments are formatted as %s, expected %s"
               % (kind, sorted(res), sorted(WANT[kind])))
    # the constructor formats every argument
    q = "core.Message.__init__"
    n = 0
    for p in ctx.paths(q, opaque={"core.Message.format_argument"}, loop_max=1):
        if p.kind != "return":
            continue
        for e in p.events:
            if e.kind == "store" and e.attr == "arguments" and e.base == SELF:
                v = e.val
                if p.facts.get(("is", P("arguments"), NONE)) is True:
                    ok = (v[0] in ("list", "tuple") and not p.contents(v))
                else:
                    elts = [v[2]] if v[0] == "comp" else \
                        list(p.contents(v) or ()) if v[0] in ("list", "tuple") else [v]
                    ok = all(call_name(x) == "format_argument" or x[0] == "elem" and False
                             for x in elts)
                    if v[0] == "call" and call_name(v) in ("list", "map"):
                        ok = None
                n += 1
                ctx.ob("argument-format", "constructor formats every argument", ok,
                       ctx.where(q), "arguments stored as %s" % show(v))
    ctx.ob("argument-format", "constructor stores arguments", n >= 1, ctx.where(q), "")


def encode_text(ctx):
    """str() goes through the same serialisation as bytes()."""
    q = "core.Message.__str__"
    for p in ctx.paths(q, opaque={"core.Message.__bytes__"}):
        if p.kind == "return":
            ok = any(x[0] == "call" and call_name(x) in ("__bytes__", "bytes")
                     for x in subterms(p.val))
            ctx.ob("text-form", "str() is the decoded serialisation", ok, ctx.where(q),
                   "str() of a message is %s" % show(p.val))


PARTS = [tables, serialise, parse, formatting, encode_text]
