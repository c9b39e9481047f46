"""C12: concurrent compilation and decompilation give the sequential results."""
import multiprocessing
import os
import pickle
from dataclasses import replace

from hypothesis import strategies as st

from vlib import boot, calls, clidoc, esast as E, gen_es, gen_ssb, gen_ssbscript, harness, project
from vlib.harness import Campaign, Discard, Violation, run
from checks import c11


# (at bytecodes, also in the ANTLR runtime, indexes of the gaps): the finest mixtures are the slowest
KINDS = [(False, False, range(9)), (False, False, range(9)), (False, False, [0, 1, 4, 5]), (True, False, [4, 5, 6]),
         (True, False, [0, 1, 2, 3]), (False, True, [5, 6, 7]), (True, True, [5, 6, 7, 8])]


SMALL = gen_es.Cfg(budget=7, depth=3, routines=2, rich=True)
MULTI = ["two\nlines", "a\n b\nc", "x", 'q"', "it's\nme"]


def spice(draw, rs):
    """More strings of several lines, printed differently at different depths."""
    for r in rs.routines:
        for o in r.ops:
            if o.tgt is None and o.name in gen_es.PLAINOPS + gen_ssb.REALNAMES and draw(st.booleans()):
                t = draw(st.sampled_from(MULTI))
                o.params += (("lstr", (("english", t), ("german", t + "!"))) if draw(st.booleans()) else ("cstr", t),)
    return rs

# meet 1: at one line that touches something shared; n: at one in n places
MEETS = [(False, False, 1), (False, False, 1), (False, False, 1), (False, False, 1), (False, False, 4), (False, False, 10), (False, False, 30), (False, False, 100), (True, False, 30), (True, False, 100),
         (True, False, 300), (False, True, 100), (True, True, 1000)]


@st.composite
def inputs(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return draw(c11.inputs())
    if k < 4:
        return ("es", E.to_text(draw(gen_es.programs(SMALL))), 0)
    if k == 4:
        return ("PROJ", draw(gen_es.projects(replace(SMALL, rich=False), maxfiles=1)), 0)
    rs = draw(gen_ssb.compiled_sets(SMALL) if k < 9 else gen_ssb.cfg_sets(maxroutines=2, maxblocks=4))
    if rs is None:
        return draw(c11.inputs())
    spice(draw, rs)
    if k == 5:
        return ("ssbs", gen_ssbscript.text(rs))
    if k == 6:
        return ("ssbdec", rs)
    return ("dec", rs, draw(st.integers(0, 9)) // 8, draw(st.integers(0, 9)) // 8)


@st.composite
def loads(draw, native=False, meet=False):
    """A pool of inputs (often near copies of each other), who works on which of them, and a schedule."""
    pool = [draw(inputs()) for _ in range(draw(st.integers(1, 3)))]
    for _ in range(draw(st.integers(0, 2))):
        pool.append(c11.vary(draw, pool[draw(st.integers(0, len(pool) - 1))]))
    ref = st.integers(0, len(pool) - 1)
    n = draw(st.integers(2, 6) if native else st.integers(2, 3))
    lists = [draw(st.lists(ref, min_size=1, max_size=4 if native else 2)) for _ in range(n)]
    warm = draw(st.integers(0, 2)) == 0
    if native:
        sched = ("native", draw(st.sampled_from([1e-6, 1e-5, 1e-4])))
    elif meet:
        ins, antlr, every = draw(st.sampled_from(MEETS))
        sched = ("turns", draw(st.integers(0, 2**32)), 0, ins, antlr, every)
    else:
        ins, antlr, gaps = draw(st.sampled_from(KINDS))
        sched = ("turns", draw(st.integers(0, 2**32)), draw(st.sampled_from(gaps)), ins, antlr)
    return pool, lists, sched, warm


def show(case):
    pool, lists, sched, warm = case
    return "\n".join(c11.show_input(i, p) for i, p in enumerate(pool)) + f"\nthreads: {lists}\nschedule: {sched}" + (
        " (in a used process)" if warm else " (in a fresh process)")


def setup(state):
    state.scratch["cpu"] = sum(multiprocessing.current_process()._identity)
    state.scratch["cold"] = calls.Cold(boot.SEED * 37 + os.getpid() % 100000)
    state.scratch["ready"] = calls.Cold(boot.SEED * 43 + os.getpid() % 100000)
    state.scratch["ready"].raw("prepare")
    state.scratch["warm"] = calls.Cold(boot.SEED * 41 + os.getpid() % 100000)


def check(case, ctx):
    pool, lists, sched, warm = case
    cold = ctx.scratch["cold"]
    root = harness.scratch_dir()
    used = sorted({i for l in lists for i in l})
    real, want = {}, {}
    for i in used:
        inp = pool[i]
        if inp[0] == "PROJ":
            proj = inp[1]
            r = f"{root}/p{i}"
            project.write(proj, r)
            real[i] = ("proj", r, proj.main.path, tuple(project.lookup_paths(proj, r)), inp[2])
        elif inp[0] == "json":
            real[i] = ("json", clidoc.document(inp[1]))
        else:
            real[i] = inp
        want[i] = cold.ask(real[i], pickle.dumps((i, inp) if inp[0] == "PROJ" else inp))
        if want[i][0] == "dead" or want[i][0] == "error" and want[i][1] == "RecursionError":
            raise Discard("no sequential result")
    todo = [[real[i] for i in l] for l in lists]
    tries = 2 if sched[0] == "native" else 5 if sched[-1] == 1 and len(sched) > 5 else 1
    for r in range(tries):
        if r and sched[0] == "turns":
            sched = sched[:1] + (sched[1] + 1,) + sched[2:]
        if warm and len(sched) < 6:
            res = ctx.scratch["warm"].raw("warm threads", todo, sched, ctx.scratch["cpu"])
        else:
            res = ctx.scratch["ready" if len(sched) > 5 else "cold"].raw("threads", todo, sched, ctx.scratch["cpu"])
        if res[0] == "dead":
            res = cold.raw("threads", todo, sched, ctx.scratch["cpu"])
            if res[0] == "dead":
                raise Violation("the threads did not all finish (within 60 s of processor time)", show(case))
        out, switches, stalls = res
        for t, (l, os_) in enumerate(zip(lists, out)):
            if len(os_) < len(l):
                raise Violation(f"thread {t} ended early", show(case))
            for k, (i, got) in enumerate(zip(l, os_)):
                d = calls.differences(got, want[i])
                if d:
                    raise Violation(f"call {k} of thread {t} (input {i}) does not give the result it gives alone:\n"
                                    f"{got if got[0] == 'error' else ''}\n{d}", show(case))
    ok = [l for l in lists if any(want[i][0] == "ok" for i in l)]
    ctx.label("sched:" + sched[0], "warm" if warm else "cold", "threads:%d" % len(lists))
    if sched[0] == "turns":
        ctx.label(f"meet:{sched[5]}" if len(sched) > 5 else f"gap:{calls.Schedule.GAPS[sched[2]]}", "switches:%s" % ("0" if not switches else "1-9" if switches < 10 else "10-99"
                  if switches < 100 else "100-999" if switches < 1000 else "1000+"), "bytecode" if sched[3] else "lines")
    ctx.count("switches", switches)
    ctx.count("stalled turns", stalls)
    if len(ok) > 1 and (switches > 1 or sched[0] == "native"):
        ctx.nontrivial(show(case))


def main(replay=None):
    if replay:  # schedules of the native kind are not reproducible: try often
        for _ in range(40):
            rc = run_(replay)
            if rc:
                return rc
        return 0
    return run_(None)


def run_(replay):
    return run(
        "C12", "exploration",
        "distinct combinations of inputs and schedules in which at least two threads had a call that succeeds, and threads really took turns",
        [Campaign("meet", loads(meet=True), check, quick=1600, thorough=40000, setup=setup, case_seconds=60, budget=(20, 300)),
         Campaign("turns", loads(), check, quick=1200, thorough=40000, setup=setup, case_seconds=60, budget=(18, 250)),
         Campaign("native", loads(native=True), check, quick=400, thorough=8000, setup=setup, case_seconds=60, budget=(12, 150))],
        assumptions=[
            "Thread switches are explored at line and bytecode boundaries of the project's code and (in a part of the cases) of the ANTLR "
            "runtime, one thread running at a time, plus freely running threads with a small switch interval; calls into C code are atomic",
            "The sequential result is the one of the same call alone in a fresh process",
        ],
        replay=replay)
