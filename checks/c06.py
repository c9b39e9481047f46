"""C06: the decompiler always answers; its SsbScript fallback is marked and exact."""
from hypothesis import strategies as st

from vlib import es, gen_es, gen_ssb
from vlib.harness import Campaign, Discard, Violation, run
from vlib.opdiff import exact_diff

MARK = "//?: is-ssb-script: true\n"


def prop(rs, ctx):
    if rs is None:
        raise Discard("no input")
    w = gen_ssb.wellformed(rs)
    if w:
        raise Discard(w)
    shown = rs.show()
    try:
        res = gen_ssb.decompile(rs)
    except Exception as e:
        raise Violation(f"decompiling raised {type(e).__name__}: {e}", shown)
    from explorerscript.source_map import SourceMap
    if not (isinstance(res, tuple) and len(res) == 2 and isinstance(res[0], str) and isinstance(res[1], SourceMap)):
        raise Violation(f"decompiling did not return a text and a source map: {res!r}"[:300], shown)
    text, sm = res
    ctx.nontrivial(shown)
    if not text.startswith(MARK):
        if "is-ssb-script" in text:
            raise Violation("the marker is not the first line", shown + "\n\n" + text)
        # a routine set that is printed as SsbScript below an ExplorerScript name is neither
        ctx.label("structured")
        for i, r in enumerate(rs.routines):
            head = f"coro {r.coro} {{" if r.kind == "coro" else f"def {i} "
            if head not in text:
                raise Violation(f"the text has no routine {i}", shown + "\n\n" + text)
        return
    ctx.label("fallback")
    t = shown + "\n=== fallback ===\n" + text
    try:
        c = es.compile_es(text)
    except Exception as e:
        raise Violation(f"the ExplorerScript compiler rejects the fallback: {type(e).__name__}: {e}", t)
    d = exact_diff(rs, c)
    if d:
        raise Violation("the fallback is not exact: " + d, t)


RULE = ("Well-formed routine sets (offsets increase, targets exist, every path ends in an end op, no Jump-only cycle): (cfg, cfgbig) random "
        "control-flow graphs of 1-3 routines with up to 7 / 25 blocks in random order, calls, cross-routine jumps, unusual op "
        "sequences; (nocalls) the same without Call ops; (compiled) output of the compiler for generated programs with up to 6 random "
        "edits: retargeted jumps, inserted jumps, moved pieces. decompile must return a text and a source map within 30 s of CPU time. A text "
        "starting with the marker line must compile (ExplorerScript compiler) to the input op for op. Non-trivial: every "
        "well-formed set.")


def campaigns():
    kw = dict(case_seconds=30, hang_is_violation=True, budget=(110, 800))
    return [
        Campaign("cfg", gen_ssb.cfg_sets(weird=True), prop, 5000, 120000, shards=3, **kw),
        Campaign("cfgbig", gen_ssb.cfg_sets(weird=True, maxblocks=25, maxroutines=2, small=False), prop, 500, 15000, shards=2, **kw),
        Campaign("nocalls", gen_ssb.cfg_sets(calls=False, maxblocks=10), prop, 2000, 60000, shards=2, **kw),
        Campaign("compiled", gen_ssb.compiled_sets(mutate=6), prop, 1600, 40000, shards=2, **kw),
    ]


def main(replay=None):
    return run("C06", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "Termination is judged by a limit of 30 s of CPU time per routine set (typical: 10 ms). Whether structured text denotes the "
        "input is C02's business."])
