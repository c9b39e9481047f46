"""C18: the position-mark listing mirrors the literals of the source and supports editing them in place."""
import copy
import os
import random

from hypothesis import strategies as st

from vlib import boot, es, esast as E, gen_es, gen_text as T, layout, project, ssbm
from vlib.harness import Campaign, Discard, Violation, run
from explorerscript.explorerscript_reader import ExplorerScriptReader
from explorerscript.ssb_converting.compiler.compiler_visitor.position_mark_visitor import PositionMarkVisitor
from explorerscript.ssb_converting.ssb_data_types import SsbOpParamPositionMarker

NAMES = ["", "m", "Mark 1", "it's", 'say "x"', "Position<'a', 1, 2>", "a\nb", ">", "é☃", "\U0001f600", "//", "/*", "\\x", "'\"", "\t", " ", "name>", "𝔘'"]
COORDS = [0, 1, 2, 5, 9, 10, 63, 64, 127, 255, 256, 300, -1, -2, -45, 1000, 99999]


def listing(text):
    return PositionMarkVisitor().visit(ExplorerScriptReader(text).read())


def entry(m):
    return (m.line_number, m.column_number, m.end_line_number, m.end_column_number, m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)


def values(p):
    return (p.name, p.x_offset, p.y_offset, p.x_relative, p.y_relative)


def sprinkle(progs, rnd, density):
    """Position literals put into every kind of argument list; every literal gets a name of its own. -> names used"""
    n = [0]
    marks = {}

    def mark():
        base = rnd.choice(NAMES)
        name = rnd.choice([f"{base}{n[0]}", f"{n[0]}{base}", f"{n[0]}"])
        if not layout.spellable(name, True) or name in marks:
            name = f"u{n[0]}"
        n[0] += 1
        marks[name] = E.Pos(name, rnd.choice(COORDS) if rnd.random() < 0.3 else rnd.randint(0, 70), rnd.random() < 0.5,
                            rnd.choice(COORDS) if rnd.random() < 0.3 else rnd.randint(0, 70), rnd.random() < 0.5)
        return marks[name]

    in_macro_args = set()
    for prog in progs:
        for o in list(prog.macros) + list(prog.routines):
            for node in E.walk(o):
                if isinstance(node, (E.Op, E.HOper, E.SOper, E.MCall)):
                    args = node.args
                    for k, a in enumerate(args):
                        if isinstance(a, E.Pos) or rnd.random() < density and not (isinstance(a, E.Const) and a.name.startswith("$p")):
                            args[k] = mark()
                            if isinstance(node, E.MCall) or isinstance(o, E.Macro):
                                in_macro_args.add(args[k].name)
                    if not isinstance(node, E.MCall) and node_free(node):
                        while rnd.random() < density:
                            args.insert(rnd.randint(0, len(args)), mark())
                            if isinstance(o, E.Macro):
                                in_macro_args.update(a.name for a in args if isinstance(a, E.Pos))
    return marks, in_macro_args


def node_free(node):
    return node.name not in ssbm.JUMP_OPS


def find(tp, rendered, marks):
    """Expected entries, from the tokens printed."""
    out = []
    t = [x.text for x in tp.toks]
    for i, x in enumerate(t):
        if x == "Position" and t[i + 1] == "<":
            p = marks[layout.read_single(t[i + 2])]
            assert t[i + 7] == ">", t[i:i + 9]
            (l, c), (l2, c2) = rendered.starts[i], rendered.starts[i + 7]
            out.append((l, c, l2, c2, p.name, 2 if p.xh else 0, 2 if p.yh else 0, p.x, p.y))
    return out


def replace_span(text, m, new):
    lines = text.split("\n")
    def off(l, c):
        return sum(len(x) + 1 for x in lines[:l]) + c
    a, b = off(m[0], m[1]), off(m[2], m[3])
    if text[a:a + 8] != "Position" or text[b:b + 1] != ">":
        raise Violation(f"the span of {m} is {text[a:b + 1]!r}", text)
    return text[:a] + new + text[b + 1:]


def image(c):
    return ([[(op.offset, op.op_code.name, [ssbm.norm_param(p) for p in op.params]) for op in r] for r in c.routine_ops],
            [ssbm.norm_info(x) for x in c.routine_infos], list(c.named_coroutines))


def params(c):
    return [p for r in c.routine_ops for op in r for p in op.params if isinstance(p, SsbOpParamPositionMarker)]


def check_listing(text, want, shown):
    try:
        got = [entry(m) for m in listing(text)]
    except Exception as e:
        raise Violation(f"the listing raised {type(e).__name__}: {e}", shown)
    if got != want:
        if len(got) != len(want):
            raise Violation(f"{len(want)} literals, {len(got)} entries: {got}", shown)
        d = next((w, g) for w, g in zip(want, got) if w != g)
        raise Violation(f"entry: expected {d[0]}, got {d[1]}", shown)


def edited(rnd):
    name = rnd.choice(NAMES) + rnd.choice(["", "EDIT", "9"])
    if not layout.spellable(name, True):
        name = "EDIT"
    return SsbOpParamPositionMarker(name, rnd.choice([0, 2]), rnd.choice([0, 2]), rnd.choice(COORDS), rnd.choice(COORDS))


def check_edit(texts, fi, want, compile_, shared, rnd, shown, ctx):
    """Replaces one literal of texts[fi] and compiles again."""
    try:
        c = compile_(texts)
    except Exception as e:
        raise Discard("compile: " + type(e).__name__)
    old = image(c)
    ps = params(c)
    for w in want:
        hits = [p for p in ps if p.name == w[4]]
        for p in hits:
            if values(p) != (w[4], w[5], w[6], w[7], w[8]):
                raise Violation(f"listed {w}, compiled as {values(p)}", shown)
        if w[4] not in shared and len(hits) != 1:
            raise Violation(f"the literal {w} has {len(hits)} parameters in the program", shown)
    if not want:
        return
    for w in rnd.sample(want, min(2, len(want))):
        new = edited(rnd)
        t2 = dict(texts)
        t2[fi] = replace_span(texts[fi], w, str(new))
        shown2 = f"{shown}\n=== {w} replaced by {new} ===\n{t2[fi]}"
        try:
            c2 = compile_(t2)
        except Exception as e:
            raise Violation(f"rejected after the edit: {type(e).__name__}: {e}", shown2)
        o, n = ("pos", w[4], w[7], w[5] > 1, w[8], w[6] > 1), ssbm.norm_param(new)
        expect = ([[(off, name, [n if p == o else p for p in pp]) for off, name, pp in r] for r in old[0]], old[1], old[2])
        got = image(c2)
        if got != expect:
            raise Violation(f"the edit changed something else: expected {str(expect)[:600]}, got {str(got)[:600]}", shown2)
        again = [entry(m) for m in listing(t2[fi])]
        k = want.index(w)
        if len(again) != len(want) or again[k][:2] != w[:2] or again[k][4:] != values(new):
            raise Violation(f"the listing after the edit: {again}", shown2)
        if [e[4:] for j, e in enumerate(again) if j != k] != [e[4:] for j, e in enumerate(want) if j != k]:
            raise Violation(f"the listing after the edit: {again}", shown2)
    ctx.count("edits", min(2, len(want)))


def classify(want, ctx):
    multi = any(w[0] != w[2] for w in want)
    same = len({w[0] for w in want}) < len(want)
    ctx.label(*(["spread over lines"] if multi else []), *(["several per line"] if same else []), f"marks:{min(len(want), 5)}")


def prop(case, ctx):
    prog, seed, level, seplevel, dens = case
    rnd = random.Random(seed)
    prog = copy.deepcopy(prog)
    marks, shared = sprinkle([prog], rnd, dens)
    tp, r = layout.respell(prog, rnd, level, seplevel)
    want = find(tp, r, marks)
    check_listing(r.text, want, r.text)
    check_edit({0: r.text}, 0, want, lambda t: es.compile_es(t[0]), shared, rnd, r.text, ctx)
    if want:
        ctx.nontrivial(r.text)
    classify(want, ctx)


def prop_proj(case, ctx):
    proj, seed, level, seplevel, dens = case
    rnd = random.Random(seed)
    proj = copy.deepcopy(proj)
    marks, shared = sprinkle([f.prog for f in proj.files], rnd, dens)
    root, texts = project.write(proj, sep=lambda: layout.random_seps(rnd, seplevel), speller=lambda: layout.RandomSpeller(rnd, level))
    shown = project.show(proj, texts)
    src = {p: r.text for p, (_, r) in texts.items()}
    wants = {}
    for p, (tp, r) in texts.items():
        wants[p] = find(tp, r, marks)
        check_listing(r.text, wants[p], shown + f"\n(listing of {p})")

    def compile_(t):
        for p in t:
            with open(os.path.join(root, p), "w", encoding="utf-8", newline="") as fh:
                fh.write(t[p])
        return project.compile_project(proj, root, t[proj.main.path])

    p = rnd.choice(sorted(p for p in src if wants[p]) or [proj.main.path])
    check_edit(src, p, wants[p], compile_, shared, rnd, shown, ctx)
    if wants[p]:
        ctx.nontrivial(shown)
    classify(wants[p], ctx)
    ctx.label("edited:" + ("main" if p == proj.main.path else "import"))


def prop_derived(case, ctx):
    """Whatever parses, meaningful or not: one entry per literal, at its place."""
    toks, seed, seplevel = case
    rnd = random.Random(seed)
    tl = [E.Tok(t) for t in toks]
    r = E.render(tl, layout.random_seps(rnd, seplevel))
    want = []
    for i, t in enumerate(toks):
        if t == "Position" and toks[i + 1] == "<":
            def half(s):
                neg = s.startswith("-")
                w, _, f = s.lstrip("-").partition(".")
                n = int(w or "0", 0) if "." not in s else int(w or "0")
                return (-n if neg else n), 2 if f.strip("0") else 0
            (x, xo), (y, yo) = half(toks[i + 4]), half(toks[i + 6])
            want.append((*r.starts[i], *r.starts[i + 7], layout.read_single(toks[i + 2]), xo, yo, x, y))
    try:
        ExplorerScriptReader(r.text).read()
    except Exception as e:
        raise Discard("parse: " + type(e).__name__)
    check_listing(r.text, want, r.text)
    if want:
        ctx.nontrivial(r.text)
    classify(want, ctx)


@st.composite
def derived_tokens(draw):
    g = T.TG(draw, T.G_ES)
    base = g.lex

    def lex(kind):
        if kind == "HALF":
            return g.pick(["1.5", "-1.5", ".5", "1.0", "12.0", "0.50", "3.500"])
        if kind == "SHORT":
            return g.pick(["'a'", '"b"', "''", "'it\\'s'", "'\\n'", '"é"', "'>'", '"\\""', "'Position<'"])
        x = base(kind)
        return "'x'" if x == "'''''''" else x

    g.lex = lex
    toks = g.derive("start", g.i(3, 9), [])
    # more literals
    out = []
    for i, t in enumerate(toks):
        out.append(t)
        if t == "(" and i and toks[i - 1].isidentifier() and toks[i - 1] in T.OPS and toks[i + 1] == ")" and g.i(0, 1):
            for k in range(g.i(1, 3)):
                if k:
                    out.append(",")
                out += ["Position", "<", lex("SHORT"), ",", g.pick(["1", "0", "-3", "0x10", lex("HALF")]), ",", g.pick(["1", "7", "0b1", lex("HALF")]), ">"]
    return out


RULE = ("Generated programs and multi-file macro projects with Position literals put into operations, context blocks, loop, if and switch "
        "headers, macro bodies and macro calls, each with a name of its own, printed in random layouts and spellings; and grammar "
        "derivations. Expected entries come from the printed tokens. Then literals are replaced by edited ones and everything is "
        "compiled again. Non-trivial: at least one literal; distinct by text.")


def campaigns():
    C, G = Campaign, gen_es
    seeds, lv, sl, dens = st.integers(0, 2**32 - 1), st.integers(0, 2), st.sampled_from([0, 1, 2, 2, 3, 4]), st.sampled_from([0.1, 0.3, 0.6])
    return [
        C("programs", st.tuples(G.any_programs(), seeds, lv, sl, dens), prop, 2400, 30000),
        C("projects", st.tuples(G.projects(G.Cfg(budget=9, routines=2, cr=False), 2), seeds, lv, sl, dens), prop_proj, 1200, 12000),
        C("derived", st.tuples(derived_tokens(), seeds, sl), prop_derived, 2400, 24000),
    ]


def main(replay=None):
    return run("C18", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "Lines end at line feeds and columns count characters, as the parser counts them.",
        "A literal in a macro body or macro call stands for the parameters of all expansions that use it."])
