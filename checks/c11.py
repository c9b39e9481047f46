"""C11: results depend only on the input, not on what was processed before."""
import copy
import gc
import pickle
import re

from hypothesis import strategies as st

from vlib import boot, calls, clidoc, es, esast as E, gen_es, gen_ssb, gen_ssbscript, gen_text, harness, project
from vlib.harness import Campaign, Discard, Violation, run


# ---------------------------------------------------------------- inputs

def vary_text(draw, text):
    """A text that looks almost the same."""
    spots = [m for m in re.finditer(r"(?<![\w$.'\"\\])\d+(?![\w.])|(?<=[ (])[A-Za-z_]\w*(?=\()", text)]
    if not spots:
        return text + "\n"
    m = spots[draw(st.integers(0, len(spots) - 1))]
    w = m.group()
    new = str(draw(st.integers(0, 30))) if w.isdigit() else w + "Q"
    return text[:m.start()] + new + text[m.end():]


def vary_set(draw, rs):
    """A routine set that looks almost the same."""
    c = gen_ssb.clone(rs)
    ops = [o for r in c.routines for o in r.ops]
    if not ops:
        return c
    k = draw(st.integers(0, 3))
    o = ops[draw(st.integers(0, len(ops) - 1))]
    js = [o for o in ops if o.tgt is not None]
    if k == 0 and js:
        o = js[draw(st.integers(0, len(js) - 1))]
        o.tgt = ops[draw(st.integers(0, len(ops) - 1))]
    elif k == 1 and any(p[0] == "int" for p in o.params):
        o.params = tuple(("int", p[1] + 1) if p[0] == "int" else p for p in o.params)
    elif k == 2 and o.tgt is None and o.name in gen_ssb.REALNAMES:
        o.name = draw(st.sampled_from(gen_ssb.REALNAMES))
    else:
        c.numbering = draw(st.sampled_from(["bytes", "seq1", "seq0", "wide"]))
    return c


def vary_project(draw, proj):
    """The same files with one of them changed."""
    c = copy.deepcopy(proj)
    macros = [m for f in c.files for m in f.prog.macros]
    k = draw(st.integers(0, 7))
    fs = [f for f in c.files if f.prog.macros]
    if k == 7:  # the same files, compiled from elsewhere
        c.main.path = draw(st.sampled_from(["else/where/", "proj/q/", ""])) + "other.exps"
        return c
    if k == 3 and fs:  # a macro disappears: its calls must fail now
        f = fs[draw(st.integers(0, len(fs) - 1))]
        m = f.prog.macros[draw(st.integers(0, len(f.prog.macros) - 1))]
        f.prog.macros = [x for x in f.prog.macros if x is not m]
        if f.prog.order:
            f.prog.order = [x for x in f.prog.order if x is not m]
    elif k == 4 and any(f.imports for f in c.files):
        f = [f for f in c.files if f.imports][-1]
        f.imports = f.imports[:-1]
    elif k == 5 and macros:  # other parameters
        m = macros[draw(st.integers(0, len(macros) - 1))]
        m.params = m.params[1:] if m.params and draw(st.booleans()) else list(m.params) + ["$more"]
    elif k == 6 and c.main.prog.routines:
        r = c.main.prog.routines
        if len(r) > 1:
            c.main.prog.order = None
            del r[-1]
    elif macros and k < 2:
        m = macros[draw(st.integers(0, len(macros) - 1))]
        ops = [n for n in E.walk(m.body) if isinstance(n, E.Op)]
        if ops:
            ops[draw(st.integers(0, len(ops) - 1))].name = "Changed"
    else:
        ops = [n for n in E.walk(c.main.prog.routines) if isinstance(n, E.Op)]
        if ops:
            ops[draw(st.integers(0, len(ops) - 1))].name = "Changed"
    return c


@st.composite
def ins_es(draw):
    perf = draw(st.integers(0, 9)) // 8
    k = draw(st.integers(0, 9))
    if k < 6:
        text = E.to_text(draw(gen_es.any_programs()))
        if perf:
            text = text.replace(boot.PERF, calls.PERFS[1]) if draw(st.booleans()) else text
    elif k < 8:
        text = draw(gen_text.corrupted())
    else:
        text = draw(gen_text.labelled() if k == 8 else gen_text.derived())
    return ("es", text, perf)


@st.composite
def rsets(draw):
    k = draw(st.integers(0, 9))
    rs = draw(gen_ssb.compiled_sets(mutate=2 if k < 3 else 0) if k < 6 else gen_ssb.cfg_sets(weird=k == 9))
    return rs


@st.composite
def inputs(draw):
    k = draw(st.integers(0, 11))
    if k < 4:
        return draw(ins_es())
    if k == 4:
        return ("PROJ", draw(gen_es.projects()), draw(st.integers(0, 9)) // 8)
    rs = draw(rsets())
    if rs is None:
        return draw(ins_es())
    if k == 5:
        return ("ssbs", gen_ssbscript.text(rs))
    if k == 6:
        return ("ssbdec", rs)
    if k == 7:
        return ("json", rs)
    return ("dec", rs, draw(st.integers(0, 9)) // 8, draw(st.integers(0, 9)) // 8)


def vary(draw, inp):
    if inp[0] == "es":
        return ("es", vary_text(draw, inp[1]), inp[2])
    if inp[0] == "PROJ":
        return ("PROJ", vary_project(draw, inp[1]), inp[2])
    if inp[0] == "ssbs":
        return ("ssbs", vary_text(draw, inp[1]))
    if inp[0] == "dec" and draw(st.booleans()):  # other settings
        return inp[:2] + ((1 - inp[2], inp[3]) if draw(st.booleans()) else (inp[2], 1 - inp[3]))
    return (inp[0], vary_set(draw, inp[1])) + inp[2:]


@st.composite
def alike(draw):
    """Small inputs that have much in common, under both settings"""
    if draw(st.booleans()):
        rs = draw(gen_ssb.cfg_sets(odd=True, calls=False, maxblocks=3, maxroutines=1))
        pool = [("dec", rs, 0, 0), ("dec", rs, 0, 1), ("dec", rs, 1, 0)]
    else:
        text = E.to_text(draw(gen_es.forms()))
        pool = [("es", text, 0), ("es", text, 1), ("es", text.replace(boot.PERF, calls.PERFS[1]), 1)]
    pool.append(vary(draw, pool[draw(st.integers(0, 2))]))
    steps = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.integers(0, 3), st.booleans()), min_size=2, max_size=6))
    return pool, steps


@st.composite
def histories(draw):
    pool = [draw(inputs()) for _ in range(draw(st.integers(1, 3)))]
    for _ in range(draw(st.integers(0, 2))):
        pool.append(vary(draw, pool[draw(st.integers(0, len(pool) - 1))]))
    steps = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.integers(0, 3), st.booleans()), min_size=2, max_size=9))
    return pool, steps


@st.composite
def rebuilds(draw):
    """One compiler object for successive states of a project and for other files."""
    pool = [("PROJ", draw(gen_es.projects()), 0)]
    for _ in range(draw(st.integers(1, 3))):
        pool.append(vary(draw, pool[draw(st.integers(0, len(pool) - 1))]) if draw(st.integers(0, 3)) else ins_plain(draw))
    steps = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.integers(1, 3), st.just(False)), min_size=2, max_size=7))
    return pool, steps


def ins_plain(draw):
    i = draw(ins_es())
    return i[:2] + (0,)


# ---------------------------------------------------------------- the check

def show_input(i, inp):
    if inp[0] == "PROJ":
        return f"[{i}] project (progress list {calls.PERFS[inp[2]]}):\n" + "\n".join(
            f"--- {f.path}\n{E.to_text(f.prog)}" for f in inp[1].files)
    if inp[0] in ("es", "ssbs"):
        return f"[{i}] {inp[0]} {inp[2:]}:\n{inp[1]}"
    return f"[{i}] {inp[0]} {inp[2:]}:\n{inp[1].show()}"


def show(case):
    pool, steps = case
    return "\n".join(show_input(i, p) for i, p in enumerate(pool)) + "\nsteps: " + "; ".join(
        f"[{i}] mode {m}{' gc' if g else ''}" for i, m, g in steps)


def setup(state):
    state.scratch["cold"] = calls.Cold(boot.SEED * 31 + len(state.scratch) + hash_of_process())


def hash_of_process():
    import os
    return os.getpid() % 100000


def check(case, ctx):
    if case[0] == "chain":
        for c in case[1]:
            check(c, ctx)
        return
    log = ctx.scratch.setdefault("log", [])
    log.append(case)
    del log[:-400]
    pool, steps = case
    cold = ctx.scratch["cold"]
    root = harness.scratch_dir() + "/p"
    instances, objects, decs, held = {}, {}, {}, []
    oks = fails = repeats = reuses = 0
    done = set()
    kinds = set()

    def fail(n, what):
        raise Violation(f"step {n} ({steps[n]}): {what}", show(case))

    for n, (i, mode, collect) in enumerate(steps):
        inp = pool[i]
        key = pickle.dumps(inp)
        if inp[0] == "PROJ":
            proj = inp[1]
            project.write(proj, root)
            call = ("proj", root, proj.main.path, tuple(project.lookup_paths(proj, root)), inp[2])
        elif inp[0] == "json":
            call = ("json", clidoc.document(inp[1]))
        else:
            call = inp
        want = cold.ask(call, key)
        if want[0] == "dead":
            raise Discard("the cold process gave no answer")
        if collect:
            gc.collect()
        before = None
        if calls.is_compile(call):
            if mode < 2:
                inst = calls.compiler(call)
                how = "a new compiler object"
            else:
                cls = calls.compiler_class(call)
                how = "a used compiler object" if cls in instances else "a new compiler object"
                reuses += cls in instances
                inst = instances.setdefault(cls, calls.compiler(call))
            got = None
            try:
                h = calls.do_compile(call, inst)
                got = ("ok", h.image())
                held.append((n, h, got[1]))
            except RecursionError:
                got = ("error", "RecursionError", "")
            except Exception as e:
                got = ("error", type(e).__name__ if not isinstance(e.__cause__, RecursionError) else "RecursionError", str(e)[:300])
        else:
            if mode < 2 or i not in objects:
                objs = calls.outcome_of(calls.routine_set, call)
                how = "fresh op objects"
                if objs[0] == "ok":
                    objects[i] = objs[1]
            else:
                objs = ("ok", objects[i])
                how = "op objects that were decompiled before"
                reuses += 1
            if objs[0] != "ok":
                got = objs
            else:
                infos, ops, coros = objs[1]
                before = (calls.infos_image(infos), calls.ops_image(ops), calls.coros_image(coros))
                if mode == 3 and i in decs:
                    dec = decs[i]
                    how = "a decompiler object that was used before"
                else:
                    dec = calls.decompiler(call, objs[1])
                    if mode >= 2:
                        decs[i] = dec
                got = calls.outcome(calls.do_decompile, call, dec)
                after = (calls.infos_image(infos), calls.ops_image(ops), calls.coros_image(coros))
                if before != after:
                    fail(n, f"decompiling ({call[0]}) changed the routine set it was given:\n{before}\n{after}")
        if "RecursionError" in (got[1], want[1]):
            raise Discard("recursion depth")
        d = calls.differences(got, want)
        if d:
            fail(n, f"{call[0]} with {how} differs from the same call in a fresh process:\n{d}")
        oks += got[0] == "ok"
        fails += got[0] != "ok"
        repeats += i in done
        done.add(i)
        kinds.add(call[0])
    for n, h, was in held:
        d = calls.differences(("ok", h.image()), ("ok", was))
        if d:
            fail(n, f"later calls changed what this {h.call[0]} call had returned:\n{d}")
    ctx.label(*("kind:" + k for k in kinds), "fails:%d" % min(fails, 3), "reused objects:%d" % min(reuses, 4),
              "repeated inputs:%d" % min(repeats, 4))
    ctx.count("calls", len(steps))
    if oks >= 2 and len(done) + reuses + repeats >= 2:
        ctx.nontrivial(show(case))


def finalize(case, state):
    """If the history does not fail by itself in a new process, save what came before it as well."""
    before = state.scratch["log"][:-1]
    k = 0
    while True:
        cand = case if k == 0 else ("chain", before[-k:] + [case])
        if calls.Cold(0).raw("check", "checks.c11", cand) == "violation":
            return cand
        if k >= len(before):
            return case
        k = max(1, 4 * k)


def main(replay=None):
    return run(
        "C11", "exploration",
        "distinct histories in which at least two calls succeeded and an input was repeated, an object used again, or two inputs mixed",
        [Campaign("alike", alike(), check, quick=600, thorough=20000, setup=setup, finalize=finalize, case_seconds=60),
         Campaign("rebuild", rebuilds(), check, quick=800, thorough=24000, setup=setup, finalize=finalize, case_seconds=60),
         Campaign("history", histories(), check, quick=1200, thorough=60000, setup=setup, finalize=finalize, case_seconds=60)],
        assumptions=[
            "A call in a forked child of a process that has only imported the code (with another string hash seed) stands for a fresh process",
            "Calls that failed must fail everywhere; which error they raise is not compared",
            "Histories in which some call runs into Python's recursion limit are left out (its distance depends on the caller's stack)",
        ],
        replay=replay)
