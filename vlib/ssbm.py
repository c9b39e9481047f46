"""SSB machine model: canonical ops, op list -> LTS. Own tables (not imported from the code under test)."""
from __future__ import annotations

from dataclasses import dataclass, field

from vlib.lts import N

BRANCH_ARITY = {  # number of parameters without the jump target
    "Branch": 2, "BranchBit": 2, "BranchDebug": 1, "BranchEdit": 1, "BranchExecuteSub": 1, "BranchPerformance": 2,
    "BranchScenarioNow": 3, "BranchScenarioNowAfter": 3, "BranchScenarioNowBefore": 3, "BranchScenarioAfter": 3,
    "BranchScenarioBefore": 3, "BranchSum": 3, "BranchValue": 3, "BranchVariable": 3, "BranchVariation": 1,
}
CASE_ARITY = {"Case": 1, "CaseMenu": 1, "CaseMenu2": 1, "CaseScenario": 2, "CaseValue": 2, "CaseVariable": 2}
TEST_OPS = {**BRANCH_ARITY, **CASE_ARITY, "Call": 0}
JUMP_OPS = {**TEST_OPS, "Jump": 0}
STOP_OPS = {"Return", "End", "Hold", "JumpCommon", "Destroy"}
CTX_OPS = {"lives", "object", "performer"}
SWITCHES = {"message_SwitchMenu", "message_SwitchMenu2", "Switch", "SwitchSector", "ProcessSpecial", "message_Menu", "SwitchScenario",
            "SwitchRandom", "SwitchScenarioLevel", "SwitchDungeonMode", "main_EnterAdventure", "main_EnterRescueUser",
            "main_EnterTraining", "main_EnterTraining2", "SwitchDirection", "SwitchDirectionLives", "SwitchDirectionLives2",
            "SwitchDirectionMark", "SwitchLives", "SwitchValue", "SwitchVariable"}


@dataclass
class MOp:
    """Canonical op: name, canonical params without target, target offset (jump-carrying ops)."""

    offset: int
    name: str
    params: tuple
    target: int | None = None


class Malformed(Exception):
    pass


PARAM_CLASSES = ("SsbOpParamFixedPoint", "SsbOpParamConstant", "SsbOpParamConstString", "SsbOpParamLanguageString",
                 "SsbOpParamPositionMarker")
PSEUDO_CLASSES = ("SsbLabel", "SsbForeignLabel", "SsbLabelJump")


def param_class(p) -> str:
    """The name of the (documented) parameter class; a private subclass counts as its base."""
    return next((c.__name__ for c in type(p).__mro__ if c.__name__ in PARAM_CLASSES), type(p).__name__)


def is_pseudo(op) -> bool:
    names = [c.__name__ for c in type(op).__mro__]
    return "SsbOperation" not in names or any(n in PSEUDO_CLASSES for n in names)


def norm_param(p) -> tuple:
    """Canonical form of a parameter object of the code under test."""
    cn = param_class(p)
    if isinstance(p, bool):
        return ("bool", p)
    if isinstance(p, int):
        return ("int", int(p))
    if cn == "SsbOpParamFixedPoint":
        return ("fix", p.value)
    if cn == "SsbOpParamConstant":
        return ("const", p.name)
    if cn == "SsbOpParamConstString":
        return ("cstr", p.name)
    if cn == "SsbOpParamLanguageString":
        return ("lstr", tuple(sorted(p.strings.items())))
    if cn == "SsbOpParamPositionMarker":
        return ("pos", p.name, p.x_relative, p.x_offset > 1, p.y_relative, p.y_offset > 1)
    raise Malformed(f"unexpected parameter object {p!r} of type {cn}")


def norm_ops(routine_ops) -> list[list[MOp]]:
    out = []
    for r in routine_ops:
        rr = []
        for op in r:
            name = op.op_code.name
            if is_pseudo(op):
                raise Malformed(f"pseudo operation {type(op).__name__} {name} in result")
            ps = [norm_param(p) for p in op.params]
            tgt = None
            if name in JUMP_OPS:
                if not ps or ps[-1][0] != "int":
                    raise Malformed(f"{name} at {op.offset} has no jump target as last parameter: {ps}")
                tgt = ps.pop()[1]
            rr.append(MOp(op.offset, name, tuple(ps), tgt))
        out.append(rr)
    return out


def machine(routines: list[list[MOp]], strict_off: bool = True):
    """-> (entries per routine, node by offset). Unknown targets raise Malformed."""
    by_off: dict[int, N] = {}
    order: list[list[N]] = []
    for r in routines:
        nodes = []
        for op in r:
            kind = "goto" if op.name == "Jump" else "test" if op.name in TEST_OPS else "op"
            n = N(kind, (op.name, op.params), src=op)
            if op.offset in by_off:
                raise Malformed(f"duplicate op offset {op.offset}")
            by_off[op.offset] = n
            nodes.append(n)
        order.append(nodes)
    stop = N("stop")
    off = N("off") if strict_off else N("op", ("Return", ()), nxt=stop)
    for r, nodes in zip(routines, order):
        for i, (op, n) in enumerate(zip(r, nodes)):
            nxt = nodes[i + 1] if i + 1 < len(nodes) else off
            if op.target is not None and op.target not in by_off:
                raise Malformed(f"{op.name} at {op.offset}: target {op.target} is not the offset of an op")
            if op.name == "Jump":
                n.nxt = by_off[op.target]
            elif n.kind == "test":
                n.taken = by_off[op.target]
                n.nxt = nxt
            elif op.name in STOP_OPS and not (i > 0 and r[i - 1].name in CTX_OPS):
                n.nxt = stop
            else:
                n.nxt = nxt
    entries = [nodes[0] if nodes else None for nodes in order]
    return entries, by_off


def show(routines: list[list[MOp]], infos=None) -> str:
    lines = []
    for i, r in enumerate(routines):
        lines.append(f"routine {i}" + (f" {infos[i]}" if infos else ""))
        for op in r:
            lines.append(f"  {op.offset:3} {op.name}{list(op.params)}" + (f" -> {op.target}" if op.target is not None else ""))
    return "\n".join(lines)


def norm_info(info, coro_name=None) -> tuple:
    """(kind, target) canonical: targets as ('int', n) / ('const', name) / None"""
    if info is None:
        return ("none", None)
    kind = info.type.name
    if kind in ("GENERIC",):
        return ("def", None)
    if kind == "COROUTINE":
        return ("coro", coro_name)
    tgt = ("const", info.linked_to_name) if info.linked_to_name else ("int", info.linked_to)
    return (kind.lower(), tgt)
