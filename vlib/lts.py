"""Deterministic labelled transition systems over SSB events, and exact equivalence by product walk.

Node kinds
  goto : silent, one successor `nxt`
  op   : visible event (name, params), one successor `nxt`; nxt None never occurs (a stop node is used)
  test : visible event (name, params), two successors: `taken` / `nxt` (not taken)
  stop : the routine has stopped
  off  : control ran past the last op of a compiled routine (only in machines)
"""
from __future__ import annotations


class N:
    __slots__ = ("kind", "ev", "nxt", "taken", "src", "prov")

    def __init__(self, kind, ev=None, nxt=None, taken=None, src=None, prov=None):
        self.kind = kind
        self.ev = ev
        self.nxt = nxt
        self.taken = taken
        self.src = src
        self.prov = prov


class Diverges(Exception):
    """A silent cycle is reachable."""


def resolve(n: N) -> N:
    """Follow silent nodes."""
    steps, seen = 0, None
    while n.kind == "goto":
        steps += 1
        if steps > 16:
            if seen is None:
                seen = set()
            if id(n) in seen:
                raise Diverges()
            seen.add(id(n))
        n = n.nxt
    return n


def reachable(entries) -> list[N]:
    """All visible nodes reachable from the entries (raises Diverges on a reachable silent cycle)."""
    out, seen, todo = [], set(), [resolve(e) for e in entries]
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        out.append(n)
        if n.kind in ("op", "test"):
            todo.append(resolve(n.nxt))
        if n.kind == "test":
            todo.append(resolve(n.taken))
    return out


def fmt(n: N) -> str:
    if n.kind in ("op", "test"):
        return f"{n.ev[0]}{n.ev[1]!r}" + ("?" if n.kind == "test" else "")
    return n.kind


class Mismatch(Exception):
    def __init__(self, trace, left, right):
        self.trace, self.left, self.right = trace, left, right
        super().__init__(f"after {trace or 'start'}: expected {left}, got {right}")


def equivalent(pairs, ev_eq=None, stats=None, pairhook=None):
    """pairs: [(name, left entry, right entry)]. Raises Mismatch with a shortest distinguishing trace.

    A Diverges on the left propagates (case outside the domain); on the right it is a Mismatch.
    ev_eq(evl, evr) -> bool overrides exact event equality.
    """
    from collections import deque

    seen = set()
    q = deque()

    def push(l, r, trace):
        l = resolve(l)
        try:
            r = resolve(r)
        except Diverges:
            raise Mismatch(render(trace), fmt(l), "endless op-free loop") from None
        if (id(l), id(r)) not in seen:
            seen.add((id(l), id(r)))
            q.append((l, r, trace))

    def render(trace):
        items = []
        while trace is not None:
            items.append(trace[1])
            trace = trace[0]
        return " ; ".join(reversed(items))

    for name, l, r in pairs:
        push(l, r, (None, f"[{name}]"))
    n = 0
    while q:
        l, r, trace = q.popleft()
        n += 1
        if l.kind != r.kind or (l.kind in ("op", "test") and not (l.ev == r.ev or (ev_eq and ev_eq(l.ev, r.ev)))):
            raise Mismatch(render(trace), fmt(l), fmt(r))
        if pairhook:
            pairhook(l, r)
        if l.kind == "op":
            push(l.nxt, r.nxt, (trace, fmt(l)))
        elif l.kind == "test":
            push(l.taken, r.taken, (trace, fmt(l) + "=taken"))
            push(l.nxt, r.nxt, (trace, fmt(l) + "=not taken"))
    if stats is not None:
        stats["pairs"] = stats.get("pairs", 0) + n
