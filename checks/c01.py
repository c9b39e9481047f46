"""C01: compiled bytecode behaves exactly as the source program says."""
import re

from hypothesis import strategies as st
from checks import c10
from vlib import boot, es, esast as E, gen_es, gen_text as T, lts, refsem, ssbm
from vlib.harness import Campaign, Discard, Violation, run


def classify(prog, ctx):
    kinds = {type(n).__name__ for r in prog.routines for n in E.walk(r)}
    ctx.label(*("has:" + k for k in kinds))
    ctx.label(f"routines:{len(prog.routines)}")
    return kinds


def expected_info(r):
    if r.kind == "def":
        return ("def", None)
    if r.kind == "coro":
        return ("coro", r.name)
    return (r.kind, E.canon(r.target))


def check_tables(prog, c, text):
    n = len(prog.routines)
    if not (len(c.routine_infos) == len(c.named_coroutines) == len(c.routine_ops) == n):
        raise Violation("routine tables have the wrong length", text)
    for i, r in enumerate(prog.routines):
        got = ssbm.norm_info(c.routine_infos[i], c.named_coroutines[i])
        if got != expected_info(r):
            raise Violation(f"routine {i}: expected {expected_info(r)}, got {got}", text)


def check_program(prog, ctx, text=None, macros=None, compiled=None, perf=boot.PERF):
    """The complete C01 oracle for one program."""
    ref = refsem.Ref(prog, perf, macros)
    ents = [e for e in ref.entries if e is not None]
    try:
        nodes = lts.reachable(ents)
    except lts.Diverges:
        raise Discard("op-free cycle")
    if text is None:
        text = E.to_text(prog)
    if compiled is None:
        try:
            compiled = es.compile_es(text, perf=perf)
        except es.REJECT as e:
            raise Violation(f"valid program rejected: {type(e).__name__}: {e}", text)
        except Exception as e:
            raise Violation(f"valid program crashed the compiler: {type(e).__name__}: {e}", text)
    c = compiled
    check_tables(prog, c, text)
    try:
        ops = ssbm.norm_ops(c.routine_ops)
        ments, _ = ssbm.machine(ops, strict_off=False)
    except ssbm.Malformed as e:
        raise Violation(f"malformed result: {e}", text)
    pairs = []
    for i, r in enumerate(prog.routines):
        if r.body is None:
            if ops[i]:
                raise Violation(f"alias routine {i} has ops", text + "\n" + ssbm.show(ops))
            continue
        if not ops[i]:
            raise Violation(f"routine {i} is empty", text)
        pairs.append((f"routine {i}", ref.entries[i], ments[i]))
    try:
        lts.equivalent(pairs, stats=ctx._s.counts)
    except lts.Mismatch as m:
        raise Violation(f"behaviour differs {m}", text + "\n" + ssbm.show(ops))
    tests = sum(1 for x in nodes if x.kind == "test")
    if tests or len(nodes) > 4:
        ctx.nontrivial(text)
    ctx.label("tests:0" if not tests else "tests:1-3" if tests < 4 else "tests:4+")
    return c, ref, ops


def prop_other(case, ctx):
    """With another variable as the performance progress list"""
    prog, perf = case
    check_program(E.swapped(prog, boot.PERF, perf), ctx, perf=perf)


def prop(prog, ctx):
    classify(prog, ctx)
    check_program(prog, ctx)


# ---------------------------------------------------------------- nothing that is written is lost

TOK = re.compile(r"'(?:[^'\\]|\\.)*'|\"(?:[^\"\\]|\\.)*\"|[A-Za-z_$@%~][A-Za-z0-9_$]*|&<<|[=!<>+\-*/]=|-?[0-9.]+[0-9xXa-fA-F]*|\s+|.", re.S)
SWAPS = [["==", ">=", "<=", "!=", "&", "^", "&<<"], ["+=", "-=", "*=", "/="], ["actor", "object", "performer"], ["debug", "edit", "variation"], ["end", "hold"],
         ["TRUE", "FALSE"]]


def _other(toks, i):
    t = toks[i]
    if i >= 1 and toks[i - 1] in ("@", "\u00a7"):
        return None
    if t.isdecimal() and t.isascii():
        return str(int(t) + 1000)
    if t[0] in "'\"":
        return None if i >= 1 and toks[i - 1] == "=" and i >= 2 and toks[i - 2].isidentifier() else t[0] + "zz" + t[1:]
    for s in SWAPS:
        if t in s:
            return s[(s.index(t) + 1) % len(s)]
    if t[0] == "$" and len(t) > 1:
        return "$ZZZ" if t != "$ZZZ" else None
    if re.fullmatch("[A-Z][A-Za-z0-9_]+", t) and t != "Position":
        return t + "zz"
    return None


def _meaning(text):
    c = es.compile_es(text)
    return repr(ssbm.norm_ops(c.routine_ops)) + repr([ssbm.norm_info(a, b) for a, b in zip(c.routine_infos, c.named_coroutines)])


@st.composite
def varied(draw):
    text = draw(st.one_of(T.derived(wild=50), T.derived(wild=50), T.corrupted(0, 1)))
    toks = TOK.findall(text)
    at = [(i, _other(toks, i)) for i in range(len(toks))]
    at = [x for x in at if x[1] is not None]
    if "macro" in toks or not at:
        return None
    return text, [draw(st.sampled_from(at)) for _ in range(min(8, len(at)))]


def prop_sensitive(case, ctx):
    """Every value, operator and name that is written is part of the result: with another one the result is another one."""
    if case is None:
        raise Discard()
    text, changes = case
    toks = TOK.findall(text)
    try:
        base = _meaning(text)
    except es.REJECT:
        raise Discard("rejected")
    except ssbm.Malformed:
        raise Discard("malformed")
    for i, new in changes:
        other = "".join(toks[:i] + [new] + toks[i + 1:])
        try:
            got = _meaning(other)
        except es.REJECT:
            ctx.count("rejected changes")
            continue
        if got == base:
            raise Violation(f"{toks[i]!r} is written, but {new!r} instead compiles to the same", text + "\n--- instead ---\n" + other)
        ctx.count("changes")
        ctx.nontrivial(text)


RULE = ("Programs are drawn from an AST grammar covering every statement, header and routine form; non-trivial: "
        "accepted, no op-free cycle, and the reference transition system reachable from the routine entries contains a "
        "condition test or more than 4 events; distinct by source text. Every pair of states of the exact product of "
        "reference and compiled machine is visited (counter 'pairs').")


def campaigns():
    return [
        Campaign("forms", gen_es.forms(), prop, 6000, 60000),
        Campaign("settings", st.tuples(st.one_of(gen_es.forms(), gen_es.programs(gen_es.CFGS["small"])), st.sampled_from(boot.PERFS[1:])), prop_other, 1200, 12000),
        Campaign("full", gen_es.programs(gen_es.CFGS["full"]), prop, 1600, 16000),
        Campaign("small", gen_es.programs(gen_es.CFGS["small"]), prop, 3200, 30000),
        Campaign("nojump", gen_es.programs(gen_es.CFGS["nojump"]), prop, 1000, 12000),
        Campaign("inexpressible", st.sampled_from(["indexop", "casetext"]).flatmap(lambda k: c10.ruined(k)), c10.prop_rejected, 400, 4000),
        Campaign("sensitive", varied(), prop_sensitive, 800, 8000),
        Campaign("large", gen_es.large(), prop, 800, 10000),
        Campaign("deep", gen_es.programs(gen_es.CFGS["deep"]), prop, 500, 6000),
    ]


def main(replay=None):
    return run("C01", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "An op directly after lives/object/performer does not end the routine's own control flow (the rule the repository "
        "itself uses); a compiled routine must not run off its end.",
        "Programs with reachable op-free cycles are outside the property's domain and discarded.",
    ])
