"""C07: SsbScript is a lossless spelling of SSB ops."""
from hypothesis import strategies as st

from vlib import es, gen_es, gen_ssb, gen_ssbscript, layout, ssbm
from vlib.gen_ssb import RSet, SGen, SOp
from vlib.harness import Campaign, Discard, Violation, run
from vlib.opdiff import exact_diff

NAMES = ["a", "_", "x1", "X_y", "Nop", "return", "jump", "end", "hold", "call", "if", "else", "switch", "case", "macro", "import",
         "with", "Position2", "position", "Label", "label_0", "label_1", "ES_LABEL", "CaseText", "DefaultText", "message_SwitchTalk",
         "SwitchRandom", "Destroy", "JumpCommon", "lives", "object", "performer", "main_EnterDungeon", "flag_Set", "CallCommon",
         "default", "forever", "not", "value", "TRUE", "FALSE", "for1", "def0", "coro1", "aliasX", "previously", "actor", "_0"]
STOPS = ["Return", "End", "Hold"]


@st.composite
def soups(draw):
    """Arbitrary op lists: any op anywhere, jumps anywhere (also into other routines and backwards), unreachable ops, no end op."""
    g = SGen(draw)
    rich = gen_es.RICH
    heads = g.headers(g.i(1, 5))
    big = g.chance(12)
    for r in heads:
        if not g.i(0, 7):
            continue
        for _ in range(g.i(1, 60 if big else 7)):
            k = g.i(0, 9)
            if k < 4:
                n = g.pick(gen_ssb.REALNAMES + NAMES)
                r.ops.append(SOp(n, tuple(g.value() for _ in range(g.i(0, 3)))))
            elif k < 5:
                r.ops.append(g.pick([g.flag, g.plain, g.branch, g.switch_op])())
            elif k < 8:
                n = g.pick(sorted(ssbm.JUMP_OPS)) if g.i(0, 1) else g.pick(["Jump", "Call", "Branch", "Case"])
                r.ops.append(SOp(n, tuple(g.value() for _ in range(ssbm.JUMP_OPS[n]))))
            else:
                r.ops.append(SOp(g.pick(STOPS)))
    ops = [o for r in heads for o in r.ops]
    for o in ops:
        if o.name in ssbm.JUMP_OPS:
            o.tgt = g.pick(ops)
        elif g.chance(8):
            s = draw(rich)
            if "\r\n" not in s:
                o.params = o.params + (("cstr", s),)
    order = draw(st.permutations(range(len(heads)))) if g.chance(4) else ()
    return RSet(heads, g.pick(["bytes", "seq1", "seq0", "wide"]), tuple(order))


def prop(rs, ctx):
    if rs is None:
        raise Discard("no input")
    shown = rs.show()
    try:
        text, sm = gen_ssb.decompile_ssb(rs)
    except Exception as e:
        raise Violation(f"decompiling to SsbScript raised {type(e).__name__}: {e}", shown)
    t = f"{shown}\n=== SsbScript ===\n{text}"
    try:
        c = gen_ssbscript.compile_ssbs(text)
    except Exception as e:
        raise Violation(f"the SsbScript is rejected: {type(e).__name__}: {e}", t)
    d = exact_diff(rs, c)
    if d:
        raise Violation(d, t)
    # the same text, marked, through the ExplorerScript compiler
    try:
        c2 = es.compile_es("//?: is-ssb-script: true\n" + text)
    except Exception as e:
        raise Violation(f"the marked SsbScript is rejected by the ExplorerScript compiler: {type(e).__name__}: {e}", t)
    d = exact_diff(rs, c2)
    if d:
        raise Violation("through the ExplorerScript compiler: " + d, t)
    # an op list read back and spelled again
    rs2 = gen_ssb.from_compiled(c, rs.numbering)
    rs2.order = rs.order
    text2, _ = gen_ssb.decompile_ssb(rs2)
    if text2 != text:
        raise Violation("the routine set read back prints another text", t + "\n=== then ===\n" + text2)
    where = {id(o): i for i, r in enumerate(rs.routines) for o in r.ops}
    j = [o for r in rs.routines for o in r.ops if o.tgt is not None]
    cross = any(where[id(o)] != where[id(o.tgt)] for o in j)
    if j:
        ctx.nontrivial(shown)
    ctx.label("cross-routine jump" if cross else "local jumps" if j else "no jumps", f"routines:{len(rs.routines)}",
              *(["alias routine"] if any(not r.ops for r in rs.routines) else []),
              *(["coroutine"] if any(r.kind == "coro" for r in rs.routines) else []),
              *(["open end"] if any(r.ops and r.ops[-1].name not in ssbm.STOP_OPS and r.ops[-1].tgt is None for r in rs.routines) else []))


RULE = ("(soup) Routine sets of 1-5 routines of all kinds, each a random list of up to 60 ops: arbitrary opcode names (keywords of "
        "ExplorerScript included), every jump-carrying kind with targets drawn from all ops of all routines, end ops anywhere, "
        "routines without ops, with an open end, all parameter types, four ways of numbering ops (one starting at 0). (cfg) random "
        "control-flow graphs; (compiled) compiler output with jumps retargeted and pieces moved. Each is decompiled to SsbScript, "
        "compiled by the SsbScript compiler and, marked, by the ExplorerScript compiler; routine kinds, targets, names, ops, "
        "parameters and the op every jump denotes must equal the input; the result decompiled again must give the same text. "
        "Non-trivial: at least one jump.")


def campaigns():
    return [
        Campaign("soup", soups(), prop, 8000, 200000, shards=4, budget=(60, 800)),
        Campaign("cfg", gen_ssb.cfg_sets(weird=True), prop, 3000, 60000, shards=2, budget=(60, 800)),
        Campaign("compiled", gen_ssb.compiled_sets(mutate=3), prop, 1200, 40000, shards=2, budget=(60, 800)),
    ]


def main(replay=None):
    return run("C07", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "Opcode names are identifiers of SsbScript other than its own keywords (there is no spelling for others). Jump-carrying ops "
        "have the parameter count of their kind. Parameter printing at the extremes is C04's business."])
