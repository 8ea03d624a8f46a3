"""Typestate analysis over the paths of the state loop (two whole rounds, every exception of the
inspection and of the state callback): synced is announced only behind a successful inspection in the
same round (or where the first one was switched off), with a disconnection future that was taken after
the connection and before the inspection and is found not done with no yield in between; the wait that
follows ends on that same future or on an interface change, and a change is forgotten only between that
wait and the next inspection; every failure leads to one delayed new round; the loop ends only when the
client is stopped. The backoff is evaluated on a table of failures and successes, and the event handlers
and announcements are path obligations."""
import ast

from ..engine import BASELINE, NONE, const, is_const, show, strip_iter, subterms
from ..lib import (A, P, S, SELF, arg, attr_stores, call_name, events, has, is_log, path_str, uses)
from ..teval import Unknown, consistent, value
from ..walk import walk

MIN_OBLIGATIONS = 60
C = "inspecting_client.InspectingClientAsync"
B = "inspecting_client.ExponentialRandomBackoff"
T, F = const(True), const(False)
ASSUMPTIONS = ["tornado 4.5: a coroutine runs without interruption between two yields, and a future "
               "taken from AsyncEvent.until_set resolves at the next set() (C25)",
               "AsyncClient calls notify_connected as C06 says"]
DELAYS = ("until_later", "sleep")
MERGE = "inspecting_client._merge_model_changes"
FIELDS = ("connected", "synced", "model_changed", "data_synced")


def _loop_paths(ctx):
    return ctx.paths(
        C + "._state_loop", while_max=3 if ctx.deep else 2, raise_all=True, max_paths=200000,
        opaque={"*._send_state", "*.inspect", "*.failed", "*.success", "*.until_later",
                "*.until_any", "*.until_set", "*.is_set", "*.isSet", "*.until_connected",
                "*.until_protocol", "*.disconnect", "*.is_connected", MERGE},
        noraise=lambda e: e.name not in ("_send_state", "inspect"),
        exc_of=lambda e: "inspecting_client.SyncError" if e.name == "inspect" else None)


def _is(e, name, recv=None):
    return e.kind == "call" and e.name == name and (recv is None or e.recv == recv)


def _awaited(ev, e):
    """The yield event that waits for call e, or None."""
    for y in ev[e.idx:]:
        if y.kind == "yield" and (y.val == e.res or y.val[0] in ("fut",) and y.val[1] == e.res):
            return y
        if y.kind == "exc" and y.extra is e:
            return None
    return None


def _failed(ev, e):
    return any(x.kind == "exc" and x.extra is e for x in ev[e.idx:e.idx + 3])


def _rounds(p):
    """Slices of the path's events: the rounds of the loop."""
    cuts = [i for i, e in enumerate(p.events) if e.kind in ("while", "endwhile")]
    out = []
    for a, b in zip(cuts, cuts[1:] + [len(p.events)]):
        if p.events[a].kind == "while":
            out.append((p.events[a:b], p.events[b].kind if b < len(p.events) else p.kind))
    return out


def _st(e):
    return {f: arg(e, i, f) for i, f in enumerate(FIELDS)}


def loop(ctx):
    fi = ctx.p.func(C + "._state_loop")
    w = fi.where
    n = {k: 0 for k in ("synced", "skip", "lost", "failed", "stop", "changed", "data")}
    ps = _loop_paths(ctx)
    for p in ps:
        if p.kind == "return":
            ru = [e for e in p.events if e.kind == "cond" and e.extra == ("truth", S("_running"))]
            ok = bool(ru) and ru[-1].val is False
            ctx.ob("loop", "ends only when stopped", True if ok else None if not ru else False, w,
                   "the loop ends while the client runs: %s" % path_str(p))
            n["stop"] += ok
        if p.kind == "raise":
            src = [e for e in p.events if e.kind == "exc"]
            ins = src and src[-1].extra is not None and not isinstance(
                src[-1].extra, tuple) and src[-1].extra.name == "inspect"
            ctx.ob("loop", "an inspection error does not end it", not ins, w,
                   "the error of inspect() leaves the loop: %s" % path_str(p))
            if src and not ins and isinstance(src[-1].extra, tuple) is False and \
                    src[-1].extra.name == "_send_state":
                later = any(_is(e, "until_connected") for e in p.events[
                    max([e.idx for e in p.events if e.kind == "while"] or [0]):])
                ctx.ob("loop", "an error of the callback does not end it", not later, w,
                       "the loop ends with %s" % path_str(p))
        for ev, end in _rounds(p):
            _round(ctx, p, ev, end, n, w)
        _unreported(ctx, p, n)
        if p.kind != "cut":
            _final(ctx, p, w)
    for k, v in sorted(n.items()):
        ctx.ob("loop", k + " seen", v >= 1 or None, w, "no such path was recognised")


def _plain(t):
    """Is it made of awaited results and constants, by the merge alone?"""
    if t[0] in ("yield", "const"):
        return True
    return t[0] == "call" and t[1][0] == "func" and all(_plain(a) for a in t[2]) and not t[3]


def merging(ctx):
    """Two rounds' changes amount to one followed by the other."""
    if not ctx.p.has_func(MERGE):
        ctx.ob("merge", "changes of two rounds", None, "", "no such function")
        return
    f = ctx.p.func(MERGE)
    names = [a for a in f.params][:2]
    w = f.where
    st = {"unchanged": (0, 0), "added": (1, 0), "removed": (0, 1), "replaced": (1, 1)}

    def chg(how, x="x"):
        return {"added": {x} if st[how][0] else set(), "removed": {x} if st[how][1] else set()}
    cases = []
    for a in st:
        for b in st:
            for k in ("sensors", "requests"):
                exp = ({"x"} if st[b][0] or (st[a][0] and not st[b][1]) else set(),
                       {"x"} if st[a][1] or st[b][1] else set())
                cases.append(("%s %s then %s" % (k, a, b), {k: chg(a)}, {k: chg(b)}, {k: exp}))
    one = {"sensors": {"added": {"y"}, "removed": {"z"}}}
    other = {"requests": {"added": {"p"}, "removed": {"q"}}}
    both = dict(one, **other)
    flat = lambda m: {k: (v["added"], v["removed"]) for k, v in m.items()}
    cases += [("sensors then requests", one, other, flat(both)),
              ("requests then sensors", other, one, flat(both)),
              ("both then requests", both, {"requests": {"added": {"q"}, "removed": {"p"}}},
               {"sensors": ({"y"}, {"z"}), "requests": ({"q"}, {"p", "q"})})]
    for e in (None, {}):
        cases += [("%r then changes" % (e,), e, one, flat(one)),
                  ("changes then %r" % (e,), one, e, flat(one)),
                  ("%r twice" % (e,), e, e, {})]
    for what, a, b, exp in cases:
        o, why = walk(ctx, MERGE, {P(names[0]): a, P(names[1]): b}, unroll=True)
        if o is None:
            ctx.ob("merge", what, None, w, why)
            continue
        ok, got = None, o.val
        if o.kind == "raise":
            ok = False
        elif got is not Unknown:
            got = got or {}
            ok = isinstance(got, dict) and all(
                got.get(k) is not None and set(got[k]["added"]) == exp[k][0]
                and set(got[k]["removed"]) >= exp[k][1] for k in exp if exp[k] != (set(), set()))
            extra = [k for k in got if k not in exp and got[k]] if isinstance(got, dict) else []
            if extra:
                ok = False
            elif ok and any(k in got and got[k] and set(got[k]["removed"]) != exp[k][1]
                            for k in exp):
                ok = None
        ctx.ob("merge", what, ok, w, "%r followed by %r merges into %r" % (a, b, got))


def _unreported(ctx, p, n):
    """Changes whose announcement failed are announced again, others are not."""
    found = []                          # (what inspect() gave, was it handled)
    for s in (e for e in p.events if _is(e, "_send_state")):
        mc = arg(s, 4, "model_changes")
        st = _st(s)
        if st["data_synced"] != T or st["synced"] != F or mc is None:
            continue
        new = [y for e in p.events[:s.idx] if _is(e, "inspect")
               for y in [_awaited(p.events, e)] if y is not None and y.idx < s.idx]
        failed = _failed(p.events, s)
        plain = _plain(mc)
        for y, ok in found:
            has_it = uses(mc, y.val)
            if ok:
                ctx.ob("unreported", "handled changes are not announced again", not has_it or (
                    None if mc[0] not in ("yield", "call") else False), s.where,
                    "model_changes=%s" % show(mc))
            else:
                n["again"] = n.get("again", 0) + 1
                ctx.ob("unreported", "changes whose handling failed are announced again", has_it or (
                    False if plain else None), s.where, "the state callback failed for the changes "
                    "found in the round before; they are not announced again, yet the client "
                    "becomes synced: model_changes=%s" % show(mc))
        if new:
            found = [(y, o or not failed) for y, o in found]
            if new[-1] not in [y for y, o in found]:
                found.append((new[-1], not failed))


def _final(ctx, p, w):
    we = [e.idx for e in p.events if e.kind in ("while", "endwhile")]
    tail = p.events[we[-1]:] if we else p.events
    if we and p.events[we[-1]].kind == "while" and p.kind == "raise":
        return
    sent = [e for e in tail if _is(e, "_send_state")]
    if not sent:
        ctx.ob("loop", "final state", None if p.kind == "raise" else False, w,
               "the end is not announced: %s" % path_str(p))
        return
    st = _st(sent[-1])
    for f in FIELDS:
        ctx.ob("loop", "final state: not " + f, True if st[f] == F else False if is_const(
            st[f] or NONE) else None, w, "after the end the state says %s=%s" % (
                f, show(st[f] or NONE)))


def _lost_cond(e, tok):
    """cond event e: True if it says the token is done, False if not done, else None."""
    a = e.extra
    if a[0] == "truth" and a[1][0] == "call" and call_name(a[1]) == "done":
        from ..lib import call_recv
        if call_recv(a[1]) == tok:
            return e.val
    return None


def _round(ctx, p, ev, end, n, w):
    ev = [e for e in ev]
    pos = {id(e): i for i, e in enumerate(ev)}
    ys = [e for e in ev if e.kind == "yield"]
    ucs = [e for e in ev if e.kind == "yield" and has(strip_iter(e.val), lambda t: t[0] == "call" and
                                                      call_name(t) == "until_connected")]
    toks = [e for e in ev if _is(e, "until_set", S("_disconnected"))]
    ins = [e for e in ev if _is(e, "inspect")]
    clr = [e for e in ev if _is(e, "clear", S("_interface_changed"))]
    sends = [e for e in ev if _is(e, "_send_state")]
    done_i = [(e, y) for e in ins for y in [_awaited(p.events, e)] if y is not None]
    off = [e for e in ev if e.kind == "cond" and e.extra == ("truth", S("initial_inspection")) and
           e.val is False]
    # the first announcement of a round takes back what the last one said
    first = next((e for e in ev if _is(e, "_send_state") or _is(e, "until_connected") or
                  _is(e, "inspect")), None)
    if first is not None:
        good = _is(first, "_send_state")
        ctx.ob("round", "begins by taking the old state back", good, w,
               "%s comes before the state is taken back" % first.name)
        if good:
            st = _st(first)
            for f in FIELDS[1:]:
                ctx.ob("round", "begins with not " + f, True if st[f] == F else False if is_const(
                    st[f] or NONE) else None, first.where, show(st[f] or NONE))
            c = st["connected"]
            ctx.ob("round", "begins with the connection's own state", False if c == T else
                   True if c == F or c and has(c, lambda t: t[0] == "call" and call_name(t) in (
                       "is_connected", "is_set")) else None, first.where, show(c or NONE))
    for s in sends:
        i = pos[id(s)]
        if _failed(p.events, s) is False and end != "cut" and not _awaited(p.events, s):
            ctx.ob("round", "an announcement is awaited", None if end == "raise" else False,
                   s.where, "the loop goes on while the state callback runs: %s" % path_str(p))
        st = _st(s)
        if any(st[f] is None for f in FIELDS):
            ctx.ob("round", "announcement", None, s.where, "arguments not recognised")
            continue
        if st["synced"] == T or st["data_synced"] == T:
            what = "synced" if st["synced"] == T else "data-synced"
            before = [y for e, y in done_i if pos[id(e)] < i and pos.get(id(y), 10 ** 9) < i]
            skip = [e for e in off if pos[id(e)] < i]
            wrong = [e for e in ins if _failed(p.events, e) and pos[id(e)] < i]
            unk = [e for e in ev[:i] if e.kind == "call" and e.target and e.target.startswith(C) and
                   e.name not in ("_send_state", "inspect")]
            ok = bool(before or skip) and not wrong
            ctx.ob("round", "%s only after an inspection" % what, True if ok else
                   None if unk and not wrong else False, s.where,
                   "announced without a successful inspection: %s" % path_str(p))
            if skip and not before:
                n["skip"] += 1
                sets = [e for e in ev[:i] if e.kind == "store" and e.attr == "initial_inspection"
                        and e.val == T]
                later = [e for e in p.events[s.idx:] if e.kind == "store" and
                         e.attr == "initial_inspection" and e.val == T]
                ctx.ob("round", "only the first inspection is left out", True if sets else
                       None if later else False, s.where,
                       "the next round does not inspect either: %s" % path_str(p))
            con = st["connected"]
            ctx.ob("round", "%s says connected" % what, False if con == F else True if con == T or
                   has(con, lambda t: call_name(t) == "is_connected") else None, s.where,
                   show(con))
        elif st["synced"] != F or st["data_synced"] != F:
            ctx.ob("round", "announcement", None, s.where, "state not recognised: %s" % {
                f: show(st[f]) for f in FIELDS})
        if st["synced"] == F and st["data_synced"] == T:
            n["data"] += 1
            res = [y for e, y in done_i if pos.get(id(y), 10 ** 9) < i]
            mc = arg(s, 4, "model_changes")
            if res:
                r = ("yield", res[-1].val)
                m = mc is not None and (mc[0] == "yield" and mc[1] == res[-1].val or
                                        mc[0] == "call" and mc[1] == ("func", MERGE) and any(
                                            x == ("yield",) + x[1:] and x[1] == res[-1].val
                                            for x in mc[2] if x[0] == "yield"))
                ctx.ob("round", "the changes found are passed on", True if m else None if
                       mc is not None and uses(mc, res[-1].val) else False, s.where,
                       "model_changes=%s" % show(mc or NONE))
                g = st["model_changed"]
                ctx.ob("round", "model_changed says whether there are changes", True if
                       g[0] in ("call", "bool") and call_name(g) == "bool" and g[2] and
                       g[2][0] == mc or g[0] == "truth" and g[1] == mc else _changed(p, g, mc),
                       s.where, show(g))
        if st["synced"] == T:
            n["synced"] += 1
            ylast = max([pos[id(y)] for y in ys if pos[id(y)] < i] or [-1])
            # a token taken after the connection and before the inspection
            i0 = min([pos[id(e)] for e in ins if pos[id(e)] < i] or [i])
            i1 = max([pos[id(y)] for y in ucs if pos[id(y)] < i] or [-1])
            fresh = [t for t in toks if i1 < pos[id(t)] < i0]
            if i1 < 0:
                ctx.ob("round", "synced only when connected", None, s.where, path_str(p))
                continue
            conds = [e for e in ev[ylast + 1:i] if e.kind == "cond"]
            held = [t for t in fresh if any(_lost_cond(c, t.res) is False for c in conds)]
            other = [c for c in conds if c.extra[0] != "truth" or c.extra[1] not in (
                S("initial_inspection"), S("_running")) and not has(
                    c.extra[1], lambda t: t[0] == "call" and call_name(t) in (
                        "is_connected", "is_set", "isSet", "done"))]
            between = [y for y in ys if held and i1 < pos[id(y)] < pos[id(held[0])]]
            ctx.ob("round", "synced only on the connection that was inspected",
                   True if held and not between else None if other and not toks else False,
                   s.where, "nothing between the last yield and the announcement shows that the "
                   "connection of the inspection was not lost (and made again) meanwhile: %s" %
                   path_str(p))
            # the wait
            y0 = _awaited(p.events, s)
            if y0 is None:
                continue
            nxt = next((y for y in ev[i:] if y.kind == "yield" and y is not y0), None)
            if nxt is None:
                ctx.ob("round", "waits when synced", None if end in ("cut", "raise") else False, w,
                       "a new round begins without a wait: %s" % path_str(p))
                continue
            ctx.ob("round", "waits when synced", _wait(p, nxt.val, [t.res for t in held]),
                   nxt.where, "synced waits for %s; it must wait for an interface change or the "
                   "loss of this connection" % show(nxt.val))
            n["changed"] += 1
            after = [c for c in clr if pos[id(c)] > pos[id(nxt)]]
            notset = [e for e in ev[pos[id(nxt)]:] if e.kind == "cond" and e.val is False and
                      has(e.extra[1], lambda t: t[0] == "call" and call_name(t) in (
                          "is_set", "isSet") and uses(t, S("_interface_changed")))]
            rest = next((e for e in p.events[nxt.idx + 1:] if _is(e, "inspect") or _is(
                e, "clear", S("_interface_changed"))), None)
            ctx.ob("round", "an interface change is taken up once", not (
                rest is not None and rest.name == "inspect" and not after and not notset), w,
                "the change is not cleared before the next inspection, so the device is inspected "
                "again and again: %s" % path_str(p))
    # clear() only where an inspection follows
    for c in clr:
        k = pos[id(c)]
        i0 = min([pos[id(e)] for e in ins] or [-1])
        yi = [y for y in ys if has(strip_iter(y.val), lambda t: t[0] == "call" and call_name(
            t) == "until_set" and uses(t, S("_interface_changed")))]
        waited = any(pos[id(y)] < k for y in yi)
        ctx.ob("round", "an interface change is forgotten only before an inspection",
               waited or k < i0 or (None if not ins and not off else False), c.where,
               "a change that was told after the inspection began is forgotten here: %s" %
               path_str(p))
    # the backoff
    fails = [e for e in ev if e.kind == "exc" and not isinstance(e.extra, tuple) and
             e.extra is not None and e.extra.name in ("inspect", "_send_state")]
    suc = [e for e in ev if _is(e, "success")]
    synced = [s for s in sends if _st(s)["synced"] == T]
    waits = [y for y in ys if any(_is(e, d) and e.res == y.val for e in ev for d in DELAYS)]
    caught = [x for x in fails if any(h.kind == "handler" and h.val == x.val for h in ev)]
    for x in caught:
        n["failed"] += 1
        k = pos[id(x)]
        fl = [e for e in ev[k:] if _is(e, "failed")]
        late = [y for y in waits if pos[id(y)] > k]
        whole = end in ("while", "endwhile")
        ctx.ob("retry", "a failure is counted once", True if len(fl) == 1 else None if
               end in ("cut", "raise") and not fl else False, x.where, path_str(p))
        ctx.ob("retry", "a new round begins after a delay", True if late and whole or
               end == "cut" and late else None if end in ("cut",) else False,
               x.where, "after the failure: %s" % path_str(p))
        ctx.ob("retry", "no success is noted after a failure", not any(pos[id(e)] > k for e in suc),
               x.where, path_str(p))
        rest = [e for e in sends + ins if pos[id(e)] > k]
        ctx.ob("retry", "nothing is announced in the failed round", not rest, x.where, path_str(p))
        if late and fl:
            d = next(e for e in ev if e.kind == "call" and e.name in DELAYS and
                     e.res == late[0].val)
            v = d.allargs()[0] if d.allargs() else NONE
            isd = v == A(S("resync_delay"), "_delay") or v == A(S("resync_delay"), "delay")
            ctx.ob("retry", "the delay is the backoff's", True if isd else False if is_const(v)
                   or uses(v, S("initial_resync_timeout")) else None, d.where, show(v))
            rd = [e for e in ev[k:] if e.kind in ("enter", "load") and "delay" in (
                e.name or "", e.attr or "")]
            if isd and rd:
                ctx.ob("retry", "the delay in force when it failed is used",
                       pos[id(rd[0])] < pos[id(fl[0])], d.where,
                       "the first retry must use the initial delay")
    if not fails:
        ctx.ob("retry", "only failures are counted as such", None if any(
            e.kind == "exc" for e in ev) else not any(_is(e, "failed") for e in ev), w, path_str(p))
    for e in suc:
        k = pos[id(e)]
        good = any(pos.get(id(y), 10 ** 9) < k for _, y in done_i) or any(
            pos[id(o)] < k for o in off)
        ctx.ob("retry", "success means an inspection", good, e.where,
               "the delay is set back although nothing succeeded: %s" % path_str(p))
    for s in synced:
        y0 = _awaited(p.events, s)
        if y0 is None or end == "cut" and not suc:
            continue
        ctx.ob("retry", "the delay returns to the initial one", bool(suc), s.where,
               "synced without setting the delay back: %s" % path_str(p))
    for y in waits:
        if not caught:
            ctx.ob("retry", "delays only after failures", None, y.where, path_str(p))
    n["lost"] += any(_lost_cond(e, t.res) for t in toks for e in ev if e.kind == "cond")


def _changed(p, g, mc):
    if is_const(g) and mc is not None:
        for e in p.events:
            if e.kind == "cond" and e.extra == ("truth", mc):
                return const(bool(e.val)) == g
        return False
    return None


def _wait(p, v, held):
    v = strip_iter(v)
    if v[0] != "call" or call_name(v) != "until_any":
        x = [t for t in subterms(v) if t[0] == "call" and call_name(t) == "until_set"]
        return False if x and len(x) == 1 and v == x[0] else None
    items = list(v[2])
    ic = [t for t in items if t[0] == "call" and call_name(t) == "until_set" and
          uses(t[1], S("_interface_changed")) and not t[2] and not t[3]]
    lost = [t for t in items if t in held]
    rest = [t for t in items if t not in ic and t not in lost]
    if ic and lost and not rest:
        return True
    known = [t for t in rest if t[0] == "call" and call_name(t) in (
        "until_set", "until_later", "until_connected", "until_protocol", "sleep")]
    return False if len(known) == len(rest) else None


def announce(ctx):
    q = C + "._send_state"
    fi = ctx.p.func(q)
    par = [a for a in fi.params if a != "self"]
    n = m = 0
    for p in ctx.paths(q, raise_all=True, opaque={"*.set_state"},
                       noraise=lambda e: True):
        if p.kind != "return":
            continue
        st = [e for e in events(p, "call") if e.name == "set_state"]
        cb = [e for e in events(p, "call") if e.f == S("_state_cb")]
        n += 1
        ok = len(st) == 1 and st[0].recv == S("_state")
        ctx.ob("announce", "the state is set", True if ok else False if not st else None,
               fi.where, path_str(p))
        if ok:
            v = st[0].allargs()[0]
            a = v[2] if v[0] in ("new", "call") else ()
            kw = dict(v[3]) if v[0] in ("new", "call") and v[3] else {}
            for i, f in enumerate(FIELDS):
                x = a[i] if i < len(a) else kw.get(f)
                ctx.ob("announce", f + " is what was given", True if x == P(f) else None if
                       x is None or not (x[0] == "param" or is_const(x)) else False, fi.where,
                       show(x or NONE))
        none = [e for e in p.events if e.kind == "cond" and uses_atom(e.extra, S("_state_cb"))]
        if cb:
            m += 1
            c = cb[0]
            g = c.allargs()
            ctx.ob("announce", "the callback gets the state and the changes", len(cb) == 1 and
                   len(g) == 2 and bool(st) and g[0] == st[0].allargs()[0] and
                   g[1] == P("model_changes") or (None if len(cb) == 1 and len(g) == 2 and any(
                       x[0] not in ("param", "const", "new") for x in g) else False),
                   c.where, show(c.res))
            ctx.ob("announce", "the state is set before the callback", bool(st) and
                   st[0].idx < c.idx, c.where, "the callback sees the old state")
            ctx.ob("announce", "the callback is awaited", True if any(
                e.kind == "yield" and uses(e.val, c.res) for e in p.events) else False, c.where,
                "the loop goes on while the callback runs")
        else:
            ctx.ob("announce", "every state is told", True if none else False, fi.where,
                   "the callback is not told: %s" % path_str(p))
    ctx.ob("announce", "analysed", (n >= 2 and m >= 1) or None, fi.where, "")
    q = C + ".set_state_callback"
    if ctx.p.has_func(q):
        fi = ctx.p.func(q)
        for p in ctx.paths(q):
            st = [e for e in events(p, "store") if e.attr == "_state_cb"]
            ctx.ob("announce", "the callback is kept", bool(st) and st[-1].val == P(fi.params[1]),
                   fi.where, path_str(p))


def uses_atom(a, t):
    return any(isinstance(x, tuple) and x and (x == t or isinstance(x[0], str) and uses(x, t))
               for x in a[1:])


def signals(ctx):
    # connection
    q = C + "._cb_connection_state"
    fi = ctx.p.func(q)
    par = P(fi.params[1])
    for v in (True, False):
        n = 0
        for p in ctx.paths(q, opaque={"core.AsyncEvent.set", "core.AsyncEvent.clear"},
                           no_fork_raise=True):
            ok, open_ = consistent(ctx, p, {par: v})
            if not ok:
                continue
            n += 1
            fin = {}
            for e in events(p, "call"):
                if e.name in ("set", "clear") and e.recv in (S("_connected"), S("_disconnected")):
                    fin.setdefault(e.recv[2], []).append(e.name)
            want = {"_connected": ["set" if v else "clear"],
                    "_disconnected": ["clear" if v else "set"]}
            for k in want:
                ctx.ob("signal", "connected=%s: %s" % (v, k), True if fin.get(k) == want[k] else
                       None if open_ else False, fi.where, "%s is %s" % (k, fin.get(k)))
        ctx.ob("signal", "connected=%s analysed" % v, n == 1 or None, fi.where, "")
    # interface change
    q = C + "._cb_inform_interface_change"
    fi = ctx.p.func(q)
    n = 0
    for p in ctx.paths(q, opaque={"core.AsyncEvent.set"}, no_fork_raise=True):
        if p.kind == "cut":
            continue
        n += 1
        ok = any(_is(e, "set", S("_interface_changed")) for e in p.events)
        und = [e for e in events(p, "call") if e.name in ("add_callback",) or e.target is None and
               not is_log(e)]
        ctx.ob("signal", "an interface change is noted", True if ok else None if und and not any(
            e.kind == "cond" for e in p.events) else False, fi.where, path_str(p))
    ctx.ob("signal", "interface change analysed", n >= 1 or None, fi.where, "")
    # wiring
    q = C + ".__init__"
    fi = ctx.p.func(q)
    n = 0
    for p in ctx.paths(q, no_fork_raise=True, opaque={"*.hook_inform", "*.set_ioloop",
                                                      "*.inform_hook_client_factory"}):
        if p.kind != "return":
            continue
        n += 1
        hooks = {}
        unk = 0
        for e in events(p, "call"):
            if e.name == "hook_inform":
                g = e.allargs()
                if len(g) == 2 and is_const(g[0]):
                    k = g[0][2]
                    k = k.decode() if isinstance(k, bytes) else k
                    hooks.setdefault(k, []).append(g[1])
                else:
                    unk += 1
        for k in ("interface-changed", "device-changed"):
            h = hooks.get(k, ())
            ok = any(_is_method(x, "_cb_inform_interface_change") for x in h)
            ctx.ob("signal", k + " is hooked", True if ok else None if unk or any(
                x[0] not in ("bound", "attr") for x in h) else False, fi.where,
                "the %s inform does not reach _interface_changed" % k)
        st = [e for e in events(p, "store") if e.attr == "notify_connected"]
        ctx.ob("signal", "connection changes are heard", True if st and _is_method(
            st[-1].val, "_cb_connection_state") else None if st and st[-1].val[0] not in (
                "bound", "attr", "const") else False, fi.where, "notify_connected is not stored")
        vals = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
        ctx.ob("signal", "the first inspection is made unless switched off", _initial(
            ctx, p, vals.get("initial_inspection")), fi.where,
            show(vals.get("initial_inspection", NONE)))
        ctx.ob("signal", "not running at first", True if vals.get("_running") == F else None,
               fi.where, "")
    ctx.ob("signal", "wiring analysed", n >= 1 or None, fi.where, "")
    for attr, ok in (("notify_connected", (C + ".__init__",)),
                     ("_disconnected", (C + ".__init__",)),
                     ("_interface_changed", (C + ".__init__",)),
                     ("_state_cb", (C + ".__init__", C + ".set_state_callback")),
                     ("initial_inspection", (C + ".__init__", C + "._state_loop"))):
        for fq, node in attr_stores(ctx, attr):
            if not fq.startswith("inspecting_client."):
                if attr == "notify_connected":
                    continue
                if not fq.startswith("resource_client.") or attr in ("_state_cb",):
                    continue
            ctx.ob("signal", "%s written in %s" % (attr, fq), True if fq in ok else None if
                   fq not in BASELINE else False, ctx.where(fq), "")
    ev = {S("_interface_changed"): ("set", "clear"), S("_disconnected"): ("set", "clear")}
    for fq, fi in sorted(ctx.p.functions.items()):
        if not fq.startswith("inspecting_client."):
            continue
        for nd in ast.walk(fi.node):
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and \
                    nd.func.attr in ("set", "clear") and isinstance(nd.func.value, ast.Attribute):
                x = nd.func.value.attr
                if x == "_disconnected":
                    good = fq == C + "._cb_connection_state"
                elif x == "_interface_changed":
                    good = fq in (C + "._cb_inform_interface_change", C + "._state_loop") or \
                        nd.func.attr == "set"
                else:
                    continue
                ctx.ob("signal", "%s.%s in %s" % (x, nd.func.attr, fq), True if good else None if
                       fq not in BASELINE else False, fi.where, "")


def _initial(ctx, p, v):
    if v is None:
        return None
    for given, want in ((None, True), (True, True), (False, False)):
        ok, open_ = consistent(ctx, p, {P("initial_inspection"): given})
        if not ok:
            continue
        known, got = value(ctx, v, {P("initial_inspection"): given})
        if not known or open_ and bool(got) != want:
            return None
        if bool(got) != want:
            return False
    return True


def _is_method(t, name):
    return t[0] == "bound" and t[1].rsplit(".", 1)[-1] == name or t[0] == "attr" and t[2] == name


def hooks(ctx):
    H = "inspecting_client._InformHookDeviceClient"
    q = H + ".handle_inform"
    fi = ctx.p.func(q)
    n = 0
    for p in ctx.paths(q, raise_all=True, opaque={"*.handle_inform"},
                       noraise=lambda e: e.name not in (None, "func", "callback", "hook") and
                       e.f[0] != "elem"):
        if p.kind == "cut":
            continue
        n += 1
        sup = [e for e in events(p, "call") if e.name == "handle_inform"]
        ctx.ob("hooks", "the client handles the inform too", True if len(sup) == 1 and
               sup[0].allargs() == [P("msg")] or len(sup) == 1 and
               tuple(sup[0].allargs()) == (P("msg"),) else False, fi.where,
               "an inform is lost (or handled twice): %s" % path_str(p))
    ctx.ob("hooks", "analysed", n >= 2 or None, fi.where, "")
    n = 0
    for p in ctx.paths(q, raise_all=True, opaque={"*.handle_inform"}, noraise=lambda e: True,
                       loop_max=2):
        if p.kind != "return":
            continue
        its = [e for e in p.events if e.kind == "iter" and e.extra != "comp"]
        called = [e for e in p.events if e.kind == "call" and e.f is not None and
                  e.f[0] == "elem"]
        if its:
            n += 1
            ctx.ob("hooks", "every hook is called", True if len(called) == len(its) and all(
                tuple(e.allargs()) == (P("msg"),) for e in called) else None if not called else
                False, fi.where, path_str(p))
            ctx.ob("hooks", "the hooks of this inform", True if uses(
                its[0].val, S("_inform_hooks")) and uses(its[0].val, A(P("msg"), "name")) else None,
                fi.where, show(its[0].val))
    ctx.ob("hooks", "calls analysed", n >= 1 or None, fi.where, "")
    q = H + ".hook_inform"
    fi = ctx.p.func(q)
    slot = ("item", S("_inform_hooks"), P("inform_name"))
    n = 0
    for p in ctx.paths(q, no_fork_raise=True):
        if p.kind != "return":
            continue
        app = [e for e in events(p, "call") if e.name in ("append", "add")]
        known = [e for e in p.events if e.kind == "cond" and e.extra[0] == "in" and
                 e.extra[1] == P("callback")]
        n += bool(app)
        ctx.ob("hooks", "a hook is added", True if app and P("callback") in app[0].allargs() and
               app[0].recv == slot or known and known[-1].val else None if app or known
               else False, fi.where, path_str(p))
    ctx.ob("hooks", "adding analysed", n >= 1 or None, fi.where, "")


def start_stop(ctx):
    q = C + ".connect"
    fi = ctx.p.func(q)
    n = 0
    for p in ctx.paths(q, raise_all=True, opaque={"*._state_loop", "*.until_running", "*.start",
                                                  "*.stop", "*.until_connected",
                                                  "*.future_timeout_manager"},
                       init_facts={("truth", S("_running")): False},
                       noraise=lambda e: e.name not in ("maybe_timeout", None)):
        lp = [e for e in events(p, "call") if e.name == "_state_loop"]
        run = [e for e in events(p, "store") if e.attr == "_running"]
        if p.kind == "return":
            n += 1
            ctx.ob("start", "the loop is started once", True if len(lp) == 1 else None if
                   not lp and any(e.name in ("add_callback", "spawn_callback") for e in events(
                       p, "call")) else False, fi.where, path_str(p))
            if lp:
                b = [e for e in run if e.idx < lp[0].idx]
                ctx.ob("start", "it runs from then on", bool(b) and b[-1].val == T, fi.where,
                       "the loop ends at once: %s" % path_str(p))
                y = [e for e in p.events if e.kind == "yield" and uses(e.val, lp[0].res)]
                ctx.ob("start", "start() does not wait for the loop", not y, fi.where,
                       path_str(p))
        elif p.kind == "raise":
            ctx.ob("start", "no loop after a failed start", not lp or None, fi.where, path_str(p))
    ctx.ob("start", "analysed", n >= 1 or None, fi.where, "")
    # a second start is refused
    n = 0
    for p in ctx.paths(q, raise_all=True, opaque={"*._state_loop", "*.until_running", "*.start",
                                                  "*.stop", "*.until_connected",
                                                  "*.future_timeout_manager"},
                       init_facts={("truth", S("_running")): True}, noraise=lambda e: True):
        n += 1
        lp = [e for e in events(p, "call") if e.name == "_state_loop"]
        ctx.ob("start", "not while it runs", not lp, fi.where,
               "a second loop is started: %s" % path_str(p))
    q = C + ".stop"
    fi = ctx.p.func(q)
    n = 0
    for p in ctx.paths(q, raise_all=True, opaque={"*.stop"}, noraise=lambda e: True):
        if p.kind == "cut":
            continue
        n += 1
        run = [e for e in events(p, "store") if e.base == SELF and e.attr == "_running"]
        st = [e for e in events(p, "call") if e.name == "stop" and e.recv == S("katcp_client")]
        ctx.ob("stop", "the loop is told", bool(run) and run[-1].val == F, fi.where, path_str(p))
        ctx.ob("stop", "the client is stopped", len(st) >= 1, fi.where, path_str(p))
        if run and st:
            ctx.ob("stop", "the loop is told first", run[-1].idx < st[0].idx, fi.where,
                   "a round that the disconnection starts sees a running client")
    ctx.ob("stop", "analysed", n >= 1 or None, fi.where, "")
    for fq, node in attr_stores(ctx, "_running"):
        if fq.startswith("inspecting_client."):
            ctx.ob("stop", "_running written in %s" % fq, True if fq in (
                C + ".__init__", C + ".connect", C + ".stop") else None if fq not in BASELINE
                else False, ctx.where(fq), "")


HISTORIES = ["", "f", "ff", "fff", "ffff", "fffff", "ffffff", "s", "fs", "ffs", "fffs", "fsf", "ffsff",
             "ss", "fsfs", "ffffffs"]


def backoff(ctx):
    """The delay after every short history of failures and successes, for the same luck each time."""
    for ini, mx in ((1.0, 90.0), (2.0, 5.0), (3.0, 3.0)):
        for rnd in (0.0, 0.5, 0.999):
            got = {}
            for h in HISTORIES:
                got[h] = _delay(ctx, h, ini, mx, rnd)
            i = "(%s, %s) luck %s: " % (ini, mx, rnd)
            w = ctx.where(B + ".failed")
            for h, v in got.items():
                name = {"": "no failures", }.get(h, h)
                if v is None:
                    ctx.ob("backoff", i + name, None, w, "the delay was not evaluated")
                    continue
                if isinstance(v, str):
                    ctx.ob("backoff", i + name, False, w, v)
                    continue
                ctx.ob("backoff", i + name + ": within bounds", 0 <= v <= mx, w, "delay %r" % v)
                if h.endswith("s") and not isinstance(got[""], (str, type(None))):
                    ctx.ob("backoff", i + name + ": back to the initial delay", abs(
                        v - got[""]) < 1e-9, w, "%r after a success, %r at first" % (v, got[""]))
                if h and set(h) == {"f"}:
                    o = got[h[:-1]]
                    if isinstance(o, float):
                        full = got["f" * 6]
                        ctx.ob("backoff", i + name + ": grows", v > o or (
                            abs(v - o) < 1e-9 and isinstance(full, float) and abs(full - o) < 1e-9
                            and (o >= mx * 0.04)), w, "%r after %r" % (v, o))
                if h in ("fsf", "ffsff"):
                    o = got[h.split("s")[1]]
                    if isinstance(o, float):
                        ctx.ob("backoff", i + name + ": as if new", abs(v - o) < 1e-9, w,
                               "%r, %r for a new one" % (v, o))


def _delay(ctx, hist, ini, mx, rnd):
    src = ["def probe():", "    b = ExponentialRandomBackoff(%r, %r)" % (ini, mx)]
    src += ["    b.%s()" % ("failed" if c == "f" else "success") for c in hist]
    src += ["    return b.delay"]
    q = ctx.probe("inspecting_client", "\n".join(src))
    res = []
    for p in ctx.paths(q, unroll=True, no_fork_raise=True, max_paths=4000,
                       inline={B + ".__init__"}, noraise=lambda e: True):
        if p.kind == "cut":
            continue
        env = {e.res: rnd for e in events(p, "call") if e.name in ("random", "uniform")}
        ok, open_ = consistent(ctx, p, env)
        if not ok:
            continue
        if p.kind == "raise":
            res.append(None if open_ else "the backoff raises: %s" % path_str(p))
            continue
        known, v = value(ctx, p.val, env)
        res.append(float(v) if known and not open_ and isinstance(v, (int, float)) else None)
    if not res or any(r is None for r in res) or len(set(res)) != 1:
        return None
    return res[0]


PARTS = [loop, merging, announce, signals, hooks, start_stop, backoff]
