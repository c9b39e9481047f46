"""C03: compiled output is a closed, uniquely addressed op list."""
import re

from hypothesis import strategies as st

from vlib import es, esast as E, gen_es, gen_ssb, gen_ssbscript, gen_text as T, project, ssbm
from vlib.harness import Campaign, Discard, Violation, run
from checks import c01, c07, c10

PARAMS = {"int", "SsbOpParamFixedPoint", "SsbOpParamConstant", "SsbOpParamConstString", "SsbOpParamLanguageString", "SsbOpParamPositionMarker"}


def jump_carrying(name):
    """The property's own words, plus the exception of the message switch cases, which hold a text."""
    return name in ("Jump", "Call") or name.startswith("Branch") and name in ssbm.JUMP_OPS or name.startswith("Case") and name in ssbm.JUMP_OPS


def closed(c, text, ctx):
    """The whole invariant, on the attributes a user of the compiler reads."""
    ops, infos, names = c.routine_ops, c.routine_infos, c.named_coroutines
    if not (isinstance(ops, list) and len(ops) == len(infos) == len(names)):
        raise Violation(f"table lengths differ: {len(ops)} op lists, {len(infos)} infos, {len(names)} coroutine names", text)
    seen = {}
    for i, r in enumerate(ops):
        for op in r:
            if ssbm.is_pseudo(op):
                raise Violation(f"pseudo operation {type(op).__name__} {op.op_code.name} in routine {i}", text)
            if type(op.offset) is not int or op.offset < 0:
                raise Violation(f"op {op.op_code.name} of routine {i} has the offset {op.offset!r}", text)
            if op.offset in seen:
                raise Violation(f"offset {op.offset} used by {seen[op.offset]} and by {op.op_code.name} of routine {i}", text)
            seen[op.offset] = f"{op.op_code.name} of routine {i}"
            if op.op_code.name.startswith("ES_") and op.op_code.name not in text:
                raise Violation(f"pseudo operation {op.op_code.name} in routine {i}", text)
            for p in op.params:
                if ssbm.param_class(p) not in PARAMS:
                    raise Violation(f"{op.op_code.name} of routine {i} has a parameter of type {type(p).__name__}", text)
    jumps = removed = 0
    for i, r in enumerate(ops):
        for k, op in enumerate(r):
            n = op.op_code.name
            if jump_carrying(n):
                jumps += 1
                if not op.params or type(op.params[-1]) is not int:
                    raise Violation(f"{n} at {op.offset} has no jump target as last parameter: {op.params}", text)
                if op.params[-1] not in seen:
                    raise Violation(f"{n} at {op.offset}: no op has the target offset {op.params[-1]}", text)
    if seen:
        removed = max(seen) - min(seen) + 1 - len(seen)
    heads = [("coro", c.named_coroutines[i]) if x is not None and x.type.name == "COROUTINE" else ("def", None) for i, x in enumerate(infos)]
    if jumps:
        ctx.nontrivial(text)
    ctx.label("jumps:0" if not jumps else "jumps:1-3" if jumps < 4 else "jumps:4+", *(["offset gaps"] if removed else []),
              *(["empty op list"] if any(not r for r in ops) else []), f"routines:{min(len(ops), 6)}")
    return heads


STRIP = re.compile(r"/\*.*?\*/|//[^\r\n]*|'''.*?'''|\"\"\".*?\"\"\"|'(?:\\.|[^\\'])*'|\"(?:\\.|[^\\\"])*\"", re.S)


def heads_of(text):
    """Routine headers of a text that the compiler accepts, in order."""
    s = STRIP.sub(" ", text)
    out, depth = [], 0
    for m in re.finditer(r"[{}]|\b(def|coro)\s+([^\s{(]+)(?:\s*(for\w*)[\s(]*(\w*))?", s):
        if m[0] == "{":
            depth += 1
        elif m[0] == "}":
            depth -= 1
        elif depth == 0 and m[1]:
            if m[1] == "coro":
                out.append(("coro", m[2]))
            else:
                out.append(("def", None, m[3] and (m[3][4:] or m[4]), int(m[2], 0) if m[2].lstrip("-")[:2].lower() in ("0x", "0b", "0o") else int(m[2])))
    return out


def check_text(text, ctx, compile_=es.compile_es):
    try:
        c = compile_(text)
    except Exception as e:
        raise Discard(type(e).__name__)  # C10's business
    got = closed(c, text, ctx)
    want = heads_of(text)
    if len(want) != len(got):
        raise Violation(f"{len(want)} routines in the source, {len(got)} in the tables", text)
    for i, w in enumerate(want):
        if w[0] == "coro":
            if got[i] != w:
                raise Violation(f"routine {i} should be the coroutine {w[1]}, is {got[i]}", text)
        elif w[3] != i or c.routine_infos[i].type.name != {"actor": "ACTOR", "object": "OBJECT", "performer": "PERFORMER"}.get(w[2], "GENERIC"):
            raise Violation(f"routine {i} of the tables is {c.routine_infos[i].type.name}, the source has {w}", text)
    return c


def prop_prog(prog, ctx):
    text = E.to_text(prog)
    c = check_text(text, ctx)
    c01.check_tables(prog, c, text)


def prop_proj(proj, ctx):
    root, texts = project.write(proj)
    shown = project.show(proj, texts)
    try:
        c = project.compile_project(proj, root, texts[proj.main.path][1].text)
    except Exception as e:
        raise Discard(type(e).__name__)
    closed(c, shown, ctx)
    c01.check_tables(proj.main.prog, c, shown)


def prop_text(text, ctx):
    check_text(text, ctx)


def prop_labelled(text, ctx):
    """These are valid by construction, except that a label at the end of everything may have nothing to denote."""
    try:
        es.compile_es(text)
    except Exception as e:
        raise Violation(f"rejected: {type(e).__name__}: {e}", text)
    check_text(text, ctx)


def prop_ssb(text, ctx):
    check_text(text, ctx, gen_ssbscript.compile_ssbs)
    check_text("//?: is-ssb-script: true\n" + text, ctx)


def prop_soup(rs, ctx):
    if rs is None:
        raise Discard()
    prop_ssb(gen_ssbscript.text(rs), ctx)


RULE = ("Accepted sources of every kind: generated programs, macro projects, grammar derivations with unusual values, programs with "
        "moved, copied or deleted pieces, a grammar of little else than labels and jumps (with macros), SsbScript derivations and "
        "arbitrary op lists printed as SsbScript. The whole invariant is checked on each result, and the routine tables against the "
        "headers in the source. Non-trivial: at least one op that carries a jump; distinct by text.")


def campaigns():
    C, G = Campaign, gen_es
    return [
        C("programs", G.any_programs(), prop_prog, 2400, 30000),
        C("large", G.large_projects(), prop_proj, 400, 4000),
        C("projects", G.projects(G.Cfg(budget=10, routines=2), 2), prop_proj, 1200, 12000),
        C("labelled", T.labelled(), prop_labelled, 4000, 60000),
        C("derived", st.one_of(T.derived(), T.derived(wild=3)), prop_text, 1600, 20000),
        C("reshaped", c10.reshaped(), prop_text, 1600, 20000),
        C("ssb-derived", st.one_of(T.derived(ssb=True), T.derived(ssb=True, wild=3)), prop_ssb, 1600, 20000),
        C("ssb-soup", c07.soups(), prop_soup, 1600, 20000),
    ]


def main(replay=None):
    return run("C03", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "CaseText and DefaultText carry texts and count as no jump-carrying kind."])
