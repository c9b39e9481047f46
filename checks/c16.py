"""C16: layout, comments and alternative spellings do not change the compiled ops."""
import random
from dataclasses import replace

from hypothesis import strategies as st

from vlib import es, esast as E, gen_es, gen_ssbscript, layout, project, ssbm
from vlib.harness import Campaign, Discard, Violation, run

PM = ("name", "x_offset", "y_offset", "x_relative", "y_relative")


def image(c):
    """Everything of a compilation result except source positions."""
    ops = [[(op.offset, op.op_code.name, tuple(ssbm.norm_param(p) for p in op.params)) for op in r] for r in c.routine_ops]
    infos = [None if i is None else (i.type.name, i.linked_to, i.linked_to_name) for i in c.routine_infos]
    sm = c.source_map
    marks = [tuple(getattr(p, f) for f in PM) for p in sm.get_position_marks__direct()]
    mmarks = [(a, b) + tuple(getattr(p, f) for f in PM) for a, b, p in sm.get_position_marks__macros()]
    return {"ops": ops, "routine infos": infos, "coroutine names": [x for x in c.named_coroutines], "position marks": marks,
            "macro position marks": mmarks}


def compare(a, b, text):
    for k in a:
        if a[k] != b[k]:
            d = next(((x, y) for x, y in zip(a[k], b[k]) if x != y), (a[k], b[k]))
            raise Violation(f"{k} differ: {str(d[0])[:700]} / {str(d[1])[:700]}", text)


def ops_only(c):
    return [[(op.offset, op.op_code.name, tuple(map(str, op.params))) for op in r] for r in c.routine_ops]


def prop(case, ctx):
    prog, seed, level, seplevel = case
    base = E.to_text(prog)
    try:
        a = image(es.compile_es(base))
    except Exception as e:
        raise Discard("compile: " + type(e).__name__)
    rnd = random.Random(seed)
    tp, r = layout.respell(prog, rnd, level, seplevel)
    shown = base + "\n=== respelled as ===\n" + r.text
    try:
        b = image(es.compile_es(r.text))
    except Exception as e:
        raise Violation(f"the respelled program is rejected: {type(e).__name__}: {e}", shown)
    compare(a, b, shown)
    ctx.nontrivial(shown, r.text)
    ctx.label(*("spelling:" + x for x in tp.sp.used), f"seps:{seplevel}")


def prop_proj(case, ctx):
    proj, seed, level, seplevel = case
    root, texts = project.write(proj)
    try:
        a = image(project.compile_project(proj, root, texts[proj.main.path][1].text))
    except Exception as e:
        raise Discard("compile: " + type(e).__name__)
    rnd = random.Random(seed)
    root, t2 = project.write(proj, sep=lambda: layout.random_seps(rnd, seplevel), speller=lambda: layout.RandomSpeller(rnd, level))
    shown = project.show(proj, texts) + "\n=== respelled as ===\n" + project.show(proj, t2)
    try:
        b = image(project.compile_project(proj, root, t2[proj.main.path][1].text))
    except Exception as e:
        raise Violation(f"the respelled project is rejected: {type(e).__name__}: {e}", shown)
    compare(a, b, shown)
    ctx.nontrivial(shown)
    ctx.label(f"seps:{seplevel}", f"files:{len(proj.files)}")


def prop_ssb(case, ctx):
    rs, seed, level, seplevel = case
    if rs is None:
        raise Discard("no input")
    base = gen_ssbscript.text(rs)
    rnd = random.Random(seed)
    other = gen_ssbscript.text(rs, layout.RandomSpeller(rnd, level), layout.random_seps(rnd, seplevel))
    shown = base + "\n=== respelled as ===\n" + other
    try:
        a = image(gen_ssbscript.compile_ssbs(base))
    except Exception as e:
        raise Discard("compile: " + type(e).__name__)
    try:
        b = image(gen_ssbscript.compile_ssbs(other))
    except Exception as e:
        raise Violation(f"the respelled SsbScript is rejected: {type(e).__name__}: {e}", shown)
    compare(a, b, shown)
    ctx.nontrivial(shown, other)


RULE = ("Each program (or project, or SsbScript file) is printed in a fixed plain form and in a random form: whitespace, CRLF, line "
        "joinings, line/block comments (also unterminated at the end) between any two tokens, label prefix, routine header syntax, "
        "trailing commas, integer bases, zeros, decimals, quote style / triple quoted forms. Both results are compared except for "
        "positions. Non-trivial: accepted; distinct by both texts.")


def campaigns():
    seeds = st.integers(0, 2**32 - 1)
    lv, sl = st.integers(0, 2), st.sampled_from([0, 1, 2, 2, 3, 4])
    rich = [replace(c, rich=True) for c in gen_es.CFGS.values()]
    from vlib import gen_ssb
    return [
        Campaign("rich", st.tuples(st.one_of(*[gen_es.programs(c) for c in rich]), seeds, lv, sl), prop, 2400, 24000),
        Campaign("forms", st.tuples(gen_es.forms(), seeds, lv, sl), prop, 2400, 24000),
        Campaign("large", st.tuples(gen_es.large(), seeds, lv, sl), prop, 300, 3000),
        Campaign("projects", st.tuples(gen_es.projects(gen_es.Cfg(budget=8, routines=2, rich=True, cr=False), 2), seeds, lv, sl), prop_proj, 800, 8000),
        Campaign("ssbscript", st.tuples(gen_ssb.cfg_sets(weird=True), seeds, lv, sl), prop_ssb, 800, 6000),
    ]


def main(replay=None):
    return run("C16", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "Comments that begin with '?' at the start of a file are file attributes, not comments, and are not generated."])
