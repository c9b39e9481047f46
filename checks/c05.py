"""C05: a macro call means its body inlined, in any definition order and file layout."""
from hypothesis import strategies as st

from vlib import boot, es, esast as E, gen_es, project
from vlib.harness import Campaign, Discard, Violation, run
from checks.c01 import check_program


def prop_other(case, ctx):
    """With another variable as the performance progress list"""
    proj, perf = case
    if not perf.startswith("$") and any(boot.PERF in m.params for f in proj.files for m in f.prog.macros):
        raise Discard("a macro variable that is none")
    prop(E.swapped(proj, boot.PERF, perf), ctx, perf)


def prop(proj, ctx, perf=boot.PERF):
    root, texts = project.write(proj)
    text = texts[proj.main.path][1].text
    shown = project.show(proj, texts)
    try:
        c = project.compile_project(proj, root, text, perf)
    except es.REJECT as e:
        raise Violation(f"valid project rejected: {type(e).__name__}: {e}", shown)
    except Exception as e:
        raise Violation(f"valid project crashed the compiler: {type(e).__name__}: {e}", shown)
    macros = proj.all_macros()
    _, ref, ops = check_program(proj.main.prog, ctx, text=shown, macros=macros, compiled=c, perf=perf)
    reach = set()

    def visit(j):
        if j not in reach:
            reach.add(j)
            for _, k in proj.files[j].imports:
                visit(k)

    visit(len(proj.files) - 1)
    expect = {m.name for j in reach for m in proj.files[j].prog.macros}
    if set(c.macros) != expect:
        raise Violation(f"macros available: expected {sorted(expect)}, got {sorted(c.macros)}", shown)
    exp_imports = [gen_es.spelled(proj, proj.main, s, proj.files[j], root) for s, j in proj.main.imports]
    if list(c.imports) != exp_imports:
        raise Violation(f"imports: expected {exp_imports}, got {c.imports}", shown)
    calls = [n for r in proj.main.prog.routines for n in E.walk(r) if isinstance(n, E.MCall)]
    nested = any(isinstance(n, E.MCall) for m in macros.values() for n in E.walk(m))
    if calls:
        ctx.nontrivial(shown)
    else:
        ctx.key = None
    ctx.label("nested" if nested else "flat", f"files:{len(proj.files)}", *("import:" + s for f in proj.files for s, _ in f.imports))
    if proj.decoys:
        ctx.label("decoys")


RULE = ("Projects: 1-6 macros forming an acyclic call graph, spread over 1-4 files in random definition order, imported "
        "relatively, absolutely or through 3 lookup paths (with decoy files of the same name in later lookup paths). The "
        "reference system inlines each call natively. Non-trivial: a routine of the main file calls a macro and the project is "
        "accepted; distinct by the text of all files.")


def campaigns():
    G = gen_es
    return [
        Campaign("single", G.projects(G.Cfg(budget=12, routines=2), 0), prop, 3000, 24000, hang_is_violation=True),
        Campaign("files", G.projects(G.Cfg(budget=10, routines=2), 3), prop, 3000, 24000, hang_is_violation=True),
        Campaign("settings", st.tuples(G.projects(G.Cfg(budget=8, routines=1), 1), st.sampled_from(boot.PERFS[1:])), prop_other, 800, 6000, hang_is_violation=True),
        Campaign("many-files", G.projects(G.Cfg(budget=2, routines=1, small=True, depth=1), 10), prop, 400, 4000, hang_is_violation=True),
        Campaign("large", G.large_projects(), prop, 600, 8000, hang_is_violation=True),
        Campaign("small", G.projects(G.Cfg(budget=4, routines=1, small=True, depth=2), 2), prop, 2400, 16000, hang_is_violation=True),
    ]


def main(replay=None):
    return run("C05", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "Macro bodies mention no variable that is a parameter of another macro only (capture is unspecified).",
        "Imported files sit in a scratch directory on /dev/shm.",
    ])
