"""Routine sets as the JSON documents of docs/cli_api_usage.rst."""
from __future__ import annotations

from vlib import boot

SETTINGS = {"performance_progress_list_var_name": boot.PERF,
            "dungeon_mode_constants": {"open": "DMODE_OPEN", "closed": "DMODE_CLOSED", "request": "DMODE_REQUEST",
                                       "open_request": "DMODE_OPEN_AND_REQUEST"}}
TYPES = {"def": "GENERIC", "actor": "ACTOR", "object": "OBJECT", "performer": "PERFORMER", "coro": "COROUTINE"}


def half(v, off, ints=False):
    """A position mark coordinate: v, or v and a half."""
    if off:
        return f"{v}.5"
    return v if ints else str(v)


def arg(p, ints=False):
    k = p[0]
    if k == "int":
        return p[1]
    if k == "fix":
        return {"type": "FIXED_POINT", "value": p[1]}
    if k == "const":
        return {"type": "CONSTANT", "value": p[1]}
    if k == "cstr":
        return {"type": "CONST_STRING", "value": p[1]}
    if k == "lstr":
        return {"type": "LANG_STRING", "value": dict(p[1])}
    if k == "pos":
        return {"type": "POSITION_MARK", "value": {"name": p[1], "x": half(p[2], p[3], ints), "y": half(p[4], p[5], ints)}}
    raise TypeError(p)


def document(rs, ints=False, settings=None):
    """ints: whole position mark coordinates are written as numbers (like in the documentation), not as strings."""
    at, n = {}, 0
    for r in rs.routines:
        for o in r.ops:
            n += 1
            at[id(o)] = n
    out = []
    for r in rs.routines:
        d = {"type": TYPES[r.kind]}
        if r.kind == "coro":
            d["name"] = r.coro
        elif r.target is not None:
            d["target_id"] = r.target[1]
        d["ops"] = [{"opcode": o.name, "params": [arg(p, ints) for p in o.params] + ([at[id(o.tgt)]] if o.tgt is not None else [])}
                    for o in r.ops]
        out.append(d)
    return {"settings": settings or SETTINGS, "routines": out}
