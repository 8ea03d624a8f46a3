"""Vocabulary of the asynchronous client's pending-request table, shared by C07 and C08."""
from .engine import NONE, const, is_const, show, subterms
from .lib import (A, P, S, SELF, call_name, events, has, is_log, path_str, raised, tested,
                  uses)

AC = "client.AsyncClient."
DC = "client.DeviceClient."
REQ, REPLY, INFORM, DATA, HANDLE = range(5)
NOISE = ("exc_info", "format_exception", "join", "remove_timeout", "format", "time", "str",
         "partial", "get_ident", "get_thread_ident", "list", "values", "items", "isinstance",
         "append", "remove", "ioloop", "format_exc", "bytes", "repr", "printable_str",
         "isEnabledFor", "isSet", "tuple", "len", "pop", "get")
LOOKUPS = {AC + "_pop_async_request", AC + "_peek_async_request"}
BASEH = {DC + "handle_reply", DC + "handle_inform"}


def lookups(p):
    return [e for e in events(p, "call") if e.name in ("_pop_async_request",
                                                       "_peek_async_request")]


def field(t, entries):
    """(lookup event, field index) of a term taken out of a looked-up entry."""
    if t is None or t[0] != "item" or not is_const(t[2]):
        return None
    for e in entries:
        if t[1] == e.res and isinstance(t[2][2], int):
            return e, t[2][2] % 5
    return None


def deliveries(p, entries):
    """Calls of a callable taken out of an entry: (event, entry, field)."""
    out = []
    for e in events(p, "call"):
        f = e.f
        if f is None:
            continue
        r = field(f, entries)
        if r:
            out.append((e,) + r)
    return out


def defaults(p, name):
    return [e for e in events(p, "call") if (e.target or "") == DC + name]


def found(p, e):
    """Is the looked-up entry known to exist / not to exist on this path?"""
    r = None
    for z in p.events[e.idx:]:
        if z.kind != "cond":
            continue
        a = z.extra
        if a[0] == "is" and NONE in a[1:]:
            t = a[1] if a[2] == NONE else a[2]
            if t[0] == "item" and t[1] == e.res and is_const(t[2]):
                k = t[2][2] % 5
                if k in (REQ, REPLY, INFORM) and not z.val:
                    r = True
                elif k == REQ and z.val:
                    r = False
                elif k == HANDLE and not z.val:
                    r = True
    return r


def raises_first(p):
    return next((e for e in p.events if e.kind == "exc"), None)


def missing(p, e):
    """Is the looked-up entry known not to exist (its request is None)?"""
    return tested(p, lambda a: a[0] == "is" and NONE in a[1:] and any(
        x[0] == "item" and x[1] == e.res and is_const(x[2]) and x[2][2] % 5 == REQ
        for x in a[1:]), True)
