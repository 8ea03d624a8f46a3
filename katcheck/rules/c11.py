"""Path-sensitive comparison of every sampling strategy with its definition: each path of an
update, timer or first-activation function is classified by what it found out (status differs,
value differs or moved by more than the difference, too soon, too late, cancelled) and must do
exactly what the definition asks for: report once, arrange to report at the end of the shortest
period, or nothing; each report moves the earliest and latest next times and the last reading;
timers re-arm themselves; a strategy registers with its sensor before it takes its first reading;
constructors accept only the number, kind and range of parameters of the strategy.  Beside that every
strategy is followed, with stand-ins for the loop and the sensor that are analysed and not run, through
all histories of updates (in the loop's thread and outside of it), waits, stalls of the loop and
cancelling up to a length; what is reported, and when, is compared with the definition."""
from .. import engine
from ..engine import NONE, TRUE, FALSE, const, is_const, show, subterms
from ..lib import (A, P, S, SELF, arg, attr_stores, call_name, callee, decided, events, has,
                   isnone, path_str, returns, truthy, uses)
from .. import strategies
from . import c10

MIN_OBLIGATIONS = 70
ASSUMPTIONS = ["IOLoop.time is the strategies' clock and timers fire no earlier than asked",
               "inside the loop's thread a strategy's state changes only in its own functions",
               "NaN limits are outside the comparison's normal form (x > y and not x <= y "
               "are identified)"]
PARAMS = ("param", "*params")
NB, NA, HANDLE = S("_not_before"), S("_not_after"), S("_short_timeout_handle")
RATE = "sampling.SampleEventRate"
LAST = {True: (A(S("_last_reading_sent"), "status"), A(S("_last_reading_sent"), "value")),
        False: (S("_lastStatus"), S("_lastValue"))}


def _ix(t):
    """reading[1] and reading.status are the same thing."""
    if t[0] == "item" and is_const(t[2]) and t[2][1] == "int":
        n = {0: "timestamp", 1: "status", 2: "value"}.get(t[2][2])
        if n:
            return A(t[1], n)
    return t


def _rate(ctx, cq):
    return ctx.p.cls(RATE) in ctx.p.mro(ctx.p.cls(cq))


def _classify(p, cq, rate, reading, upto=None):
    """(status differs, value test, unknown conditions?) on a path."""
    ls, lv = LAST[rate]
    st, vt = A(reading, "status"), A(reading, "value")
    diff = cq.endswith(("Differential", "DifferentialRate"))
    thr = S("difference") if rate else S("_threshold")
    sd = vd = None
    unknown = False
    for e in p.events[:upto]:
        if e.kind != "cond":
            continue
        a = e.extra
        if a[0] == "eq" and {_ix(a[1]), _ix(a[2])} == {ls, st}:
            sd = not e.val
        elif a[0] == "eq" and {_ix(a[1]), _ix(a[2])} == {lv, vt}:
            vd = not e.val if not diff else vd
            if diff:
                unknown = unknown or False
        elif a[0] == "lt" and diff and a[1] == thr and _moved(a[2], lv, vt):
            vd = e.val
        elif a[0] == "eq" and {a[1], a[2]} == {reading, S("_last_reading_sent")}:
            unknown = True
        elif uses(a, reading) or has(a, lambda x: x in (ls, lv)) and a[0] not in (
                "lt", "eq"):
            # some other test on the reading: a differently oriented comparison with the
            # known operands is a wrong test, anything else is not understood
            diffs = (A(reading, "value"), lv)
            if not (a[0] == "lt" and (has(a, lambda x: call_name(x) == "abs") or thr in a[1:]
                                      and has(a, lambda x: x[0] == "bin" and x[1] == "Sub" and
                                              _ix(x[2]) in diffs and _ix(x[3]) in diffs))):
                unknown = True
    return sd, vd, unknown


def _moved(t, lv, vt):
    if call_name(t) != "abs" or not t[2]:
        return False
    d = t[2][0]
    return d[0] == "bin" and d[1] == "Sub" and {_ix(d[2]), _ix(d[3])} == {lv, vt}


def _is_time(t):
    return t[0] == "call" and call_name(t) == "time" and t[1][0] == "attr" and \
        t[1][1] == S("ioloop")


def _gate(p, limit, upto=None):
    """Has the time reached the limit?  (from the last such test before upto)"""
    out = None
    for e in p.events[:upto]:
        if e.kind == "cond" and e.extra[0] == "lt":
            a, b = e.extra[1], e.extra[2]
            if _is_time(a) and b == limit:
                out = not e.val
            elif _is_time(b) and a == limit:
                out = e.val
    return out


def _cancelled(p, upto=None):
    return decided(p, lambda a: a == ("truth", S("_cancelled")), upto)


def _reports(p):
    return [e for e in events(p, "call") if e.f == S("_inform_callback")]


def _timers(p):
    return [e for e in events(p, "call") if e.name in c10.TIMERS]


def _report_effects(ctx, part, nm, p, rate, w):
    """What a report leaves behind."""
    if not rate:
        return
    for r in _reports(p):
        for attr, per in (("_not_before", "_shortest_period"),
                          ("_not_after", "_longest_period")):
            st = [e for e in events(p, "store") if e.base == SELF and e.attr == attr]
            v = st[-1].val if st else NONE
            ok = v[0] == "bin" and v[1] == "Add" and (
                _is_time(v[2]) and v[3] == S(per) or _is_time(v[3]) and v[2] == S(per))
            ctx.ob(part, "%s a report sets %s" % (nm, attr), ok or (
                None if v[0] not in ("const", "bin", "attr") else False), w,
                "after a report %s is %s (path: %s)" % (
                    attr, show(v) if st else "unchanged", path_str(p)))
        st = [e for e in events(p, "store") if e.base == SELF and
              e.attr == "_last_reading_sent"]
        rd = r.allargs()[1] if len(r.allargs()) > 1 else NONE
        ctx.ob(part, "%s a report is remembered" % nm, bool(st) and st[-1].val == rd, w,
               "after reporting %s the last reading is %s" % (
                   show(rd), show(st[-1].val) if st else "unchanged"))


def _handle_after(p):
    st = [e for e in events(p, "store") if e.base == SELF and
          e.attr == "_short_timeout_handle"]
    return st[-1].val if st else None


def _rate_step(ctx, part, nm, p, cq, reading, w, start=0):
    """One look at a reading by a rate-limited strategy."""
    if _cancelled(p):
        ctx.ob(part, "%s nothing when cancelled" % nm, not _reports(p) and not [
            t for t in _timers(p)], w, "a cancelled strategy reports")
        return None
    sd, vd, unknown = _classify(p, cq, True, reading)
    changed = True if sd or vd else False if sd is False and vd is False else None
    reps, tms = _reports(p), _timers(p)
    first = (reps + tms)[0].idx if reps + tms else None
    gate = _gate(p, NB, reps[0].idx if reps else None)
    bad = None if unknown else False
    if changed is False:
        ctx.ob(part, "%s nothing to report" % nm, not reps and not tms, w,
               "an unchanged reading is reported (path: %s)" % path_str(p))
        return False
    if changed is None:
        ctx.ob(part, "%s looks for changes" % nm, bad, w, "the path %s without finding out "
               "whether the reading differs (%s)" % (
                   "reports" if reps else "waits" if tms else "does nothing", path_str(p)))
        return None
    if reps:
        ctx.ob(part, "%s reports once" % nm, len(reps) == 1, w,
               "%d reports for one update" % len(reps))
        ctx.ob(part, "%s reports not before the shortest period" % nm, gate if gate is not
               None else bad, w, "a change is reported without waiting for the shortest "
               "period (path: %s)" % path_str(p))
        ctx.ob(part, "%s reports the reading" % nm,
               tuple(reps[0].allargs()) == (S("_sensor"), reading), w,
               "reports %s" % [show(x) for x in reps[0].allargs()])
        return "report"
    if gate:
        ctx.ob(part, "%s a change is reported at once" % nm, False, w,
               "a change after the shortest period is not reported (path: %s)" % path_str(p))
        return None
    _pending(ctx, part, nm, p, w, tms)
    return "wait"


def _pending(ctx, part, nm, p, w, tms):
    """The change will be reported at the end of the shortest period."""
    h = _handle_after(p)
    if tms:
        t = tms[0]
        al = t.allargs()
        ctx.ob(part, "%s waits for the end of the shortest period" % nm, len(tms) == 1 and
               t.name == "call_at" and al[0] == NB or (
                   None if t.name != "call_at" else False), t.where,
               "the pending change is looked at again at %s" % show(al[0]))
        f = c10._fname(p, al[1])
        ctx.ob(part, "%s waits with the short timeout" % nm, f == "_short_timeout_handler" or
               (None if f not in ("_periodic_sampling", "_run_once") else False), t.where,
               "the timer runs %s" % f)
        ctx.ob(part, "%s the pending timer is remembered" % nm, h == t.res, t.where,
               "the timer's handle is not kept, so each update sets another one")
    else:
        ctx.ob(part, "%s a change that is too soon is kept" % nm, h is None and
               (truthy(p, HANDLE) or isnone(p, HANDLE) is False), w,
               "a change within the shortest period is lost (path: %s)" % path_str(p))


def updates(ctx):
    for cq in c10.classes(ctx):
        if not c10._observes(ctx, cq):
            continue
        fi = c10._methods(ctx, cq)["update"]
        w = fi.where
        rate = _rate(ctx, cq)
        reading = P(fi.params[2])
        seen = set()
        for p in c10._paths(ctx, fi, cq):
            if p.kind != "return":
                continue
            nm = cq.split(".")[1]
            if cq.endswith("SampleAuto"):
                reps = _reports(p)
                if _cancelled(p):
                    continue
                seen.add("report")
                ctx.ob("updates", "%s reports every update" % nm, len(reps) == 1, w,
                       "%d reports for an update (path: %s)" % (len(reps), path_str(p)))
                for r in reps:
                    ctx.ob("updates", "%s reports the reading" % nm, tuple(r.allargs()) ==
                           (S("_sensor"), reading), w,
                           "reports %s" % [show(x) for x in r.allargs()])
            elif rate:
                seen.add(_rate_step(ctx, "updates", nm, p, cq, reading, w))
                _report_effects(ctx, "updates", nm, p, rate, w)
            else:
                sd, vd, unknown = _classify(p, cq, rate, reading)
                changed = True if sd or vd else False if sd is False and vd is False else None
                reps = _reports(p)
                if changed is None and _cancelled(p) and not reps:
                    continue
                st = {e.attr: e.val for e in events(p, "store") if e.base == SELF}
                if changed is None:
                    ctx.ob("updates", "%s looks for changes" % nm, None if unknown else False,
                           w, "an update is %s without finding out whether the reading "
                           "differs (path: %s)" % ("reported" if reps else "dropped",
                                                   path_str(p)))
                    continue
                seen.add(changed)
                if not changed:
                    ctx.ob("updates", "%s nothing to report" % nm, not reps, w,
                           "an update that moved too little is reported (path: %s)"
                           % path_str(p))
                    ctx.ob("updates", "%s the reference is kept" % nm,
                           "_lastValue" not in st and "_lastStatus" not in st, w,
                           "a value that was not reported becomes the reference, so a slow "
                           "drift is never reported")
                    continue
                if not _cancelled(p):
                    ctx.ob("updates", "%s reports a change once" % nm, len(reps) == 1, w,
                           "a change is reported %d times (path: %s)" % (
                               len(reps), path_str(p)))
                    for attr, f in (("_lastValue", "value"), ("_lastStatus", "status")):
                        v = st.get(attr, NONE)
                        ctx.ob("updates", "%s a report sets %s" % (nm, attr),
                               _ix(v) == A(reading, f), w,
                               "after a report %s is %s" % (attr, show(v)))
                for r in reps:
                    ctx.ob("updates", "%s reports the reading" % nm, tuple(r.allargs()) ==
                           (S("_sensor"), reading), w,
                           "reports %s" % [show(x) for x in r.allargs()])
        want = {"report"} if cq.endswith("Auto") else {"report", "wait", False} if rate \
            else {True, False}
        ctx.ob("updates", "%s cases" % cq, want <= seen or None, w, str(seen))


def timers(ctx):
    age = None
    for cq in c10.classes(ctx):
        m = c10._methods(ctx, cq)
        nm = cq.split(".")[1]
        if _rate(ctx, cq):
            # the short timeout
            fi = m.get("_short_timeout_handler")
            if fi is None:
                ctx.ob("timers", "%s short timeout" % nm, None, RATE, "")
                continue
            w = fi.where
            seen = set()
            for p in c10._paths(ctx, fi, cq):
                if p.kind != "return":
                    continue
                rd = [e for e in events(p, "call") if e.name == "read" and
                      e.recv == S("_sensor")]
                gate = _gate(p, NB)
                hs = [e for e in events(p, "store") if e.base == SELF and
                      e.attr == "_short_timeout_handle"]
                ctx.ob("timers", "%s the fired timer is forgotten" % nm, bool(hs) and
                       hs[0].val == NONE, w, "the handle of the fired timer stays set, so no "
                       "later change is waited for")
                if _cancelled(p) and not _reports(p):
                    continue
                reps = _reports(p)
                if gate or (gate is None and reps):
                    seen.add("due")
                    ok = gate is True
                    ctx.ob("timers", "%s reports when due" % nm, len(reps) == 1 and ok or (
                        None if gate is None and reps and _classify(
                            p, cq, True, reps[0].allargs()[1])[0] is not None else False)
                        if reps else _nothing_new(p, cq, rd), w,
                        "the pending change is reported %d times (path: %s)" % (
                            len(reps), path_str(p)))
                    for r in reps:
                        ctx.ob("timers", "%s reports the current reading" % nm,
                               bool(rd) and r.allargs()[1] == rd[-1].res, w,
                               "the short timeout reports %s" % show(r.allargs()[1]))
                    _report_effects(ctx, "timers", nm, p, True, w)
                elif gate is False:
                    seen.add("early")
                    ctx.ob("timers", "%s reports nothing early" % nm, not reps, w,
                           "the short timeout reports within the shortest period")
                    if not rd:
                        tms = _timers(p)
                        h = _handle_after(p)
                        ctx.ob("timers", "%s a change is not lost early" % nm, bool(tms) and
                               h == tms[0].res, w, "when the short timeout comes too early a "
                               "pending change is dropped (path: %s)" % path_str(p))
                        continue
                    _rate_step(ctx, "timers", nm + " again:", p, cq, rd[-1].res, w)
            ctx.ob("timers", "%s short timeout cases" % nm, "due" in seen or None, w,
                   str(seen))
            # the longest period
            fi = m.get("_periodic_sampling")
            if fi is None:
                ctx.ob("timers", "%s periodic" % nm, None, RATE, "")
                continue
            w = fi.where
            seen = set()
            for p in c10._paths(ctx, fi, cq):
                if p.kind != "return" or _cancelled(p):
                    continue
                never = decided(p, lambda a: a[0] == "lt" and a[1] == NA and is_const(a[2]) and
                                isinstance(a[2][2], (int, float)) and a[2][2] >= 1e11)
                if never is None:
                    never = _not(decided(p, lambda a: a[0] == "lt" and a[2] == NA and
                                         is_const(a[1]) and isinstance(
                                             a[1][2], (int, float)) and a[1][2] >= 1e11))
                reps, tms = _reports(p), _timers(p)
                if never is False and not tms and not reps:
                    seen.add("never")
                    continue
                gate = _gate(p, NA)
                rd = [e for e in events(p, "call") if e.name == "read" and
                      e.recv == S("_sensor")]
                if gate:
                    seen.add("due")
                    ctx.ob("timers", "%s reports after the longest period" % nm,
                           len(reps) == 1 and bool(rd) and
                           reps[0].allargs()[1] == rd[-1].res, w,
                           "the longest period ends with %d reports" % len(reps))
                    _report_effects(ctx, "timers", nm, p, True, w)
                elif gate is False:
                    seen.add("early")
                    ctx.ob("timers", "%s nothing before the longest period" % nm, not reps, w,
                           "the periodic timer reports early")
                else:
                    ctx.ob("timers", "%s looks at the time" % nm, None if not reps else False,
                           w, "reports without looking at the time (path: %s)" % path_str(p))
                na = [e for e in events(p, "store") if e.base == SELF and
                      e.attr == "_not_after"]
                want = na[-1].val if na else NA
                ok = len(tms) == 1 and c10._fname(p, tms[0].allargs()[1]) == fi.name and (
                    tms[0].name == "call_at" and tms[0].allargs()[0] == want or None)
                if len(tms) == 1 and tms[0].name == "call_at" and is_time_like(
                        tms[0].allargs()[0]) and tms[0].allargs()[0] != want:
                    ok = False
                ctx.ob("timers", "%s the longest period is timed again" % nm, ok, w,
                       "the next periodic look is set for %s" % [
                           show(t.allargs()[0]) for t in tms])
            ctx.ob("timers", "%s periodic cases" % nm, {"due", "early"} <= seen or None, w,
                   str(seen))
            # first activation
            fi = m["start"]
            k = 0
            for p in c10._paths(ctx, fi, cq):
                if p.kind != "return" or not _reports(p):
                    continue
                if any(e.kind == "cond" and e.extra == ("truth", S("_cancelled")) and e.val
                       for e in p.events):
                    continue
                k += 1
                at = [e.idx for e in events(p, "call") if e.name == "attach" and
                      e.recv == S("_sensor")]
                lk = [e for e in p.events if e.kind == "cond" and has(
                    e.extra, lambda x: x == NA) and e.extra[0] == "lt"]
                ctx.ob("timers", "%s the periodic timer is started" % nm, bool(lk) or bool(
                    [t for t in _timers(p)]), fi.where,
                    "no report will follow after the longest period (path: %s)" % path_str(p))
                for e in lk[:1]:
                    ctx.ob("timers", "%s first report before the periodic timer" % nm,
                           bool(at) and at[0] < e.idx, fi.where,
                           "the periodic timer looks at the latest time before the first "
                           "report has set it")
            ctx.ob("timers", "%s first activation" % nm, k >= 1, fi.where, "")
    # fixed period
    for cq in [c for c in c10.classes(ctx) if c.endswith(".SamplePeriod")]:
        m = c10._methods(ctx, cq)
        hs, _ = c10._handles(ctx, cq)
        fns = set().union(*hs.values()) if hs else set()
        ctx.ob("timers", "SamplePeriod timer", len(fns) == 1 or None, cq, str(fns))
        for fn in fns:
            if fn not in m:
                continue
            fi = m[fn]
            k = 0
            for p in c10._paths(ctx, fi, cq):
                if p.kind != "return":
                    continue
                k += 1
                reps, tms = _reports(p), _timers(p)
                rd = [e for e in events(p, "call") if e.name == "read" and
                      e.recv == S("_sensor")]
                if not _cancelled(p):
                    ctx.ob("timers", "SamplePeriod reports once a period", len(reps) == 1 and
                           bool(rd) and reps[0].allargs()[1] == rd[-1].res, fi.where,
                           "%d reports in a period (path: %s)" % (len(reps), path_str(p)))
                    ctx.ob("timers", "SamplePeriod sets the next timer", len(tms) == 1 and
                           c10._fname(p, tms[0].allargs()[1]) == fn, fi.where,
                           "%d timers are set (path: %s)" % (len(tms), path_str(p)))
                for t in tms:
                    v = t.allargs()[0]
                    nt = [e for e in events(p, "store") if e.attr == "next_time"]
                    base = S("next_time")
                    per = S("_period")
                    ok = None
                    if t.name == "call_later":
                        ok = v == per or None
                    elif v[0] == "bin" and v[1] == "Add" and per in (v[2], v[3]):
                        o = v[3] if v[2] == per else v[2]
                        ok = True if o == base or _is_time(o) else \
                            False if has(o, lambda x: x == per) else None
                    elif v[0] == "attr" or _is_time(v) or v[0] == "bin":
                        ok = False
                    ctx.ob("timers", "SamplePeriod the next timer is a period later", ok,
                           t.where, "the next report is set for %s" % show(v))
                    late = [e for e in p.events if e.kind == "cond" and e.extra[0] == "lt" and
                            has(e.extra, lambda x: _is_time(x))]
                    for e in late:
                        a, b = e.extra[1], e.extra[2]
                        if _is_time(b) and a[0] == "bin" and e.val:
                            ctx.ob("timers", "SamplePeriod catches up", v[0] == "bin" and any(
                                _is_time(x) for x in v[2:]) or None, t.where, "")
            ctx.ob("timers", "SamplePeriod analysed", k >= 1, fi.where, "")
        fi = m["start"]
        for p in c10._paths(ctx, fi, cq):
            if p.kind != "return" or any(e.kind == "cond" and e.extra == (
                    "truth", S("_cancelled")) and e.val for e in p.events):
                continue
            if any(e.kind == "enddefer" and e.val for e in p.events):
                continue
            ctx.ob("timers", "SamplePeriod first report", bool(_reports(p) or _timers(p)),
                   fi.where, "the period is never started (path: %s)" % path_str(p))
            st = [e for e in events(p, "store") if e.attr == "next_time"]
            ctx.ob("timers", "SamplePeriod counts from its start", bool(st) and _is_time(
                st[0].val) or None, fi.where, "")


def is_time_like(t):
    return t[0] in ("attr", "bin") or _is_time(t)


def _not(x):
    return None if x is None else not x


def _nothing_new(p, cq, rd):
    if not rd:
        return False
    sd, vd, unknown = _classify(p, cq, True, rd[-1].res)
    if sd is False and vd is False:
        return True
    return None if unknown else False


def attaching(ctx):
    for cq in c10.classes(ctx):
        if not c10._observes(ctx, cq):
            continue
        fi = c10._methods(ctx, cq)["start"]
        w = fi.where
        nm = cq.split(".")[1]
        k = 0
        for p in c10._paths(ctx, fi, cq):
            att = [e for e in events(p, "call") if e.name == "attach" and
                   e.recv == S("_sensor")]
            if not att or p.kind != "return":
                continue
            k += 1
            rd = [e for e in events(p, "call") if e.name == "read" and
                  e.recv == S("_sensor")]
            ctx.ob("attaching", "%s takes a first reading" % nm, bool(rd), w,
                   "no initial report is made")
            for r in rd[:1]:
                ctx.ob("attaching", "%s registers before its first reading" % nm,
                       att[0].idx < r.idx, w, "an update made by another thread between the "
                       "first reading and the registration is lost")
            reps = _reports(p)
            for r in reps[:1]:
                ctx.ob("attaching", "%s the first report is the reading" % nm,
                       any(x.res == r.allargs()[1] for x in rd), w,
                       "first report: %s" % show(r.allargs()[1]))
        ctx.ob("attaching", "%s analysed" % nm, k >= 1, w, "")


SPEC = {"SampleNone": 0, "SampleAuto": 0, "SampleEvent": 0, "SamplePeriod": 1,
        "SampleDifferential": 1, "SampleEventRate": 2, "SampleDifferentialRate": 3}


def _param(t):
    """i when t is the i-th parameter given to the strategy."""
    if t[0] == "item" and is_const(t[2]) and isinstance(t[2][2], int):
        if t[1] == PARAMS:
            return t[2][2]
        s = t[1]
        if s[0] == "slice" and s[1] == PARAMS and is_const(s[2]) and s[3] == NONE:
            return s[2][2] + t[2][2]
    return None


def _conv(t, i, kinds=("float", "int")):
    return t[0] == "call" and call_name(t) in kinds and len(t[2]) == 1 and \
        _param(t[2][0]) == i


def _count(p):
    """The number of parameters this path knows it has."""
    for e in p.events:
        if e.kind != "cond":
            continue
        a = e.extra
        if a == ("truth", PARAMS) and not e.val:
            return 0
        if a[0] == "eq" and e.val and is_const(a[2]) and call_name(a[1]) == "len":
            x = a[1][2][0]
            if x == PARAMS:
                return a[2][2]
            if x[0] == "slice" and x[1] == PARAMS and is_const(x[2]) and x[3] == NONE:
                return a[2][2] + x[2][2]
        if a[0] == "lt" and a[1] == const(0) and call_name(a[2]) == "len" and not e.val and \
                a[2][2][0] == PARAMS:
            return 0
    return None


def _atom(p, kind, a, b):
    return decided(p, lambda x: x[0] == kind and a(x[1]) and b(x[2]))


def _positive(p, i):
    zero = (lambda t: t == const(0) or t == const(0.0))
    return _atom(p, "lt", zero, lambda t: _conv(t, i))


def params(ctx):
    types = {n: ctx.cconst(ctx.p.cls("core.Sensor"), n) for n in (
        "INTEGER", "FLOAT", "TIMESTAMP")}
    for cq in c10.classes(ctx):
        nm = cq.split(".")[1]
        if nm not in SPEC:
            ctx.ob("params", "%s known" % nm, None, cq, "")
            continue
        fi = c10._methods(ctx, cq)["__init__"]
        w = fi.where
        n = 0
        for p in c10._paths(ctx, fi, cq):
            if p.kind != "return":
                continue
            n += 1
            c = _count(p)
            ctx.ob("params", "%s number of parameters" % nm, c == SPEC[nm], w,
                   "%s accepts %s parameters where it takes %d (path: %s)" % (
                       nm, "any number of" if c is None else c, SPEC[nm], path_str(p)))
            st = {}
            for e in events(p, "store"):
                if e.base == SELF:
                    st[e.attr] = e.val
            if nm == "SamplePeriod":
                ctx.ob("params", "period is positive", _positive(p, 0) is True, w,
                       "a period that is not positive is accepted")
                ctx.ob("params", "period used", _conv(st.get("_period", NONE), 0, ("float",)),
                       w, "the period is %s" % show(st.get("_period", NONE)))
            if nm in ("SampleEventRate", "SampleDifferentialRate"):
                i = SPEC[nm] - 2
                neg = _atom(p, "lt", lambda t: _conv(t, i), lambda t: t in (
                    const(0), const(0.0)))
                pos = _atom(p, "lt", lambda t: t in (const(0), const(0.0)),
                            lambda t: _conv(t, i))
                ctx.ob("params", "%s shortest period is not negative" % nm,
                       neg is False or pos is True, w,
                       "a negative shortest period is accepted")
                con = _atom(p, "lt", lambda t: _conv(t, i + 1), lambda t: _conv(t, i))
                con2 = _atom(p, "lt", lambda t: _conv(t, i), lambda t: _conv(t, i + 1))
                ctx.ob("params", "%s periods are consistent" % nm,
                       con is False or con2 is True, w,
                       "a longest period below the shortest one is accepted")
                for a, j in (("_shortest_period", i), ("_longest_period", i + 1)):
                    ctx.ob("params", "%s %s used" % (nm, a), _conv(st.get(a, NONE), j,
                           ("float",)), w, "%s is %s" % (a, show(st.get(a, NONE))))
            if nm == "SampleEvent":
                ctx.ob("params", "event strategies do not wait", _val(st.get(
                    "_shortest_period")) == 0, w, "the shortest period of an event strategy "
                    "is %s" % show(st.get("_shortest_period", NONE)))
                v = _val(st.get("_longest_period"))
                ctx.ob("params", "event strategies do not repeat", v is not None and v > 1e12,
                       w, "the longest period of an event strategy is %s" % v)
            if nm == "SampleDifferentialRate":
                ti = _stype(p, "integer")
                tf = _stype(p, "float")
                d = st.get("difference", NONE)
                ctx.ob("params", "differential-rate sensor types", ti is True or tf is True,
                       w, "a sensor that is neither integer nor float is accepted")
                ctx.ob("params", "differential-rate difference", _conv(d, 0, (
                    "int",) if ti else ("float",)), w, "the difference is %s" % show(d))
                ctx.ob("params", "differential-rate difference is positive",
                       _positive(p, 0) is True, w, "a difference that is not positive is "
                       "accepted")
            if nm == "SampleDifferential":
                ok = [k for k, v in types.items() if decided(
                    p, lambda a: a[0] == "eq" and a[1][0] == "attr" and
                    a[1][2] == "_sensor_type" and a[2] == const(v))]
                by = _stype(p, "integer") or _stype(p, "float") or _stype(p, "timestamp")
                ctx.ob("params", "differential sensor types", bool(ok) or by is True, w,
                       "a sensor that is not numeric is accepted (path: %s)" % path_str(p))
                t = st.get("_threshold", NONE)
                ctx.ob("params", "differential difference", _conv(t, 0, ("int",) if ok == [
                    "INTEGER"] else ("float",)), w, "the difference is %s" % show(t))
                ctx.ob("params", "differential difference is positive", _positive(p, 0)
                       is True, w, "a difference that is not positive is accepted")
                ctx.ob("params", "differential reports first", st.get("_lastStatus") == NONE,
                       w, "the first reading need not be reported")
            if _rate(ctx, cq):
                ctx.ob("params", "%s starts without limits" % nm, _val(st.get(
                    "_not_before")) == 0, w, "the first report waits for %s" % show(
                        st.get("_not_before", NONE)))
                l = st.get("_last_reading_sent", NONE)
                ctx.ob("params", "%s reports first" % nm, l[0] == "tuple" and len(l) > 1 and
                       NONE in _items(l)[1:2] or None if l[0] != "tuple" else NONE in
                       _items(l)[1:2], w, "the first reading need not be reported: %s"
                       % show(l))
        ctx.ob("params", "%s constructor analysed" % nm, n >= 1, w, "")


def _items(t):
    return t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and \
        isinstance(t[1][0], tuple) else t[1:]


def _val(t):
    if t is None:
        return None
    if is_const(t):
        return t[2]
    if t[0] == "call" and call_name(t) in ("float", "int") and t[2] and is_const(t[2][0]):
        return t[2][0][2]
    return None


def _stype(p, name):
    return decided(p, lambda a: a[0] == "eq" and a[1][0] == "attr" and a[1][2] == "stype" and
                   is_const(a[2]) and a[2][2] in (name, name.encode()))


def histories(ctx):
    """Histories of updates, waits and cancellation against the definition."""
    about = lambda what: not what.endswith("cancelling")
    wait = [("wait", 1)]
    strategies.follow(ctx, "histories", about, 2, befores=((), wait))
    strategies.follow(ctx, "histories", about, 2 if ctx.deep else 1, befores=([("fail", True)],))
    if ctx.deep:
        strategies.follow(ctx, "histories", about, 3, befores=((), wait))
    for a, b in (("NOMINAL", "WARN"), ("WARN", "UNKNOWN"), ("ERROR", "FAILURE"),
                 ("FAILURE", "NOMINAL"), ("UNREACHABLE", "INACTIVE"), ("INACTIVE", "UNREACHABLE")):
        strategies.follow(ctx, "histories", about, 2 if ctx.deep else 1, befores=(wait,),
                          statuses=(a, b))
    if ctx.deep:
        strategies.follow(ctx, "histories", about, 4, ("SampleEventRate",), befores=(wait,))


PARTS = [updates, timers, attaching, params, histories]
