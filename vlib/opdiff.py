"""Op-for-op comparison of a routine set with a compilation result."""
from __future__ import annotations

from vlib import ssbm


def exact_diff(rs, c) -> str | None:
    """None if the result is the routine set, up to the numbering of ops; else what differs."""
    want = rs.infos()
    try:
        ops = ssbm.norm_ops(c.routine_ops)
    except ssbm.Malformed as e:
        return str(e)
    if not len(ops) == len(c.routine_infos) == len(c.named_coroutines) == len(want):
        return (f"{len(want)} routines went in, tables of {len(ops)} op lists, {len(c.routine_infos)} infos, "
                f"{len(c.named_coroutines)} coroutine names came back")
    got = [ssbm.norm_info(i, n) for i, n in zip(c.routine_infos, c.named_coroutines)]
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return f"routine {i} is {a}, came back as {b}"
    where = {}
    for i, r in enumerate(ops):
        for k, o in enumerate(r):
            if o.offset in where:
                return f"two ops came back with offset {o.offset}"
            where[o.offset] = (i, k)
    place = {id(o): (i, k) for i, r in enumerate(rs.routines) for k, o in enumerate(r.ops)}
    for i, (r, g) in enumerate(zip(rs.routines, ops)):
        for k, (o, x) in enumerate(zip(r.ops, g)):
            if o.name != x.name:
                return f"routine {i} op {k} is {o.name}, came back as {x.name}"
            if tuple(o.params) != tuple(x.params):
                return f"routine {i} op {k} {o.name} has parameters {o.params}, came back with {x.params}"
            t = place[id(o.tgt)] if o.tgt is not None else None
            if t is not None and where.get(x.target) != t:
                return (f"routine {i} op {k} {o.name} jumps to op {t} (routine, number), came back as a jump to "
                        f"{x.target} which is op {where.get(x.target)}")
        if len(r.ops) != len(g):
            return f"routine {i} has {len(r.ops)} ops, came back with {len(g)}"
    return None
