"""C08: the compile-time source map says for every emitted op where it was written."""
import bisect
import os
import random

from hypothesis import strategies as st

from vlib import boot, es, esast as E, gen_es, layout, lts, project, refsem, ssbm
from vlib.harness import Campaign, Discard, Violation, run
from explorerscript.included_usage_map import IncludedUsageMap

PM = ("name", "x_offset", "y_offset", "x_relative", "y_relative")
BLOCKS = (E.If, E.Arm, E.Switch, E.Case, E.Forever, E.While, E.For, E.Routine, E.Macro)
EXPLICIT = (E.Jump, E.Ctl)


class FileInfo:
    """Where the parts of one file begin."""

    def __init__(self, path, prog, tp, r):
        self.path, self.prog = path, prog
        self.at = {}  # (line, col) -> nodes that begin there
        self.pos = {}  # id(node) -> allowed positions
        self.spans = {}
        toks = [t.text for t in tp.toks]
        start = {}
        for n in tp.keep:
            i = tp.begin[id(n)]
            start[id(n)] = i
            self.pos[id(n)] = {r.starts[i]}
            self.at.setdefault(r.starts[i], []).append(n)
        for n in tp.keep:
            if isinstance(n, E.With):  # the header of a with block starts behind `with (`
                self.add(n, r.starts[start[id(n)] + 2])
            elif isinstance(n, (E.MCase, E.Case)) and n.hdr is not None:
                self.add(n, r.starts[start[id(n)] + 1])
                self.add(n.hdr, r.starts[start[id(n)]])  # the keyword of the case
            elif isinstance(n, E.Arm):
                self.header(n.hdrs[0], r, start, id(n))
            elif isinstance(n, E.While):
                self.header(n.hdr, r, start, id(n))
            elif isinstance(n, E.Switch):
                self.header(n.hdr, r, start, id(n))
        for i, n in tp.elses:
            self.at.setdefault(r.starts[i], []).append(n)
        order = sorted(((start[id(n)], n) for n in tp.keep if isinstance(n, (E.Routine, E.Macro))), key=lambda x: x[0])
        for (i, n), nx in zip(order, order[1:] + [(len(toks), None)]):
            self.spans[id(n)] = (r.starts[i], r.starts[nx[0] - 1])
        self.tops = [n for _, n in order]
        self.posmarks = [(r.starts[a], p) for a, b, p, owner in tp.posmarks]

    def add(self, n, pos):
        self.pos[id(n)].add(pos)
        self.at.setdefault(pos, []).append(n)

    def header(self, h, r, start, owner):
        """A condition may be said to begin at the keyword of its statement."""
        self.pos[id(h)].add(r.starts[start[owner]])


def val(p) -> tuple:
    return tuple(getattr(p, f) for f in PM)


def pos_val(p: E.Pos) -> tuple:
    return (p.name, 2 if p.xh else 0, 2 if p.yh else 0, p.x, p.y)


def chain(env):
    out = []
    while env is not None and env.parent is not None:
        out.append(env)
        env = env.parent
    return out  # innermost first


def fits(name, nodes) -> bool:
    """Whether an op of this name can come from something that begins here."""
    for n in nodes:
        if name == "Jump":
            if isinstance(n, BLOCKS + EXPLICIT + (E.Label,)):
                return True
        elif name == "Return" and isinstance(n, BLOCKS + EXPLICIT):  # for jumps to the end of the routine
            return True
        elif isinstance(n, E.Op):
            if n.name == name or n.ctx and name == refsem.CTXOP[n.ctx[0]]:
                return True
        elif isinstance(n, (E.Routine, E.Macro)):
            if name == "Return":
                return True
        elif isinstance(n, E.Ctl):
            if n.kw.capitalize() == name:
                return True
        elif isinstance(n, E.With):
            if name == refsem.CTXOP[n.kind]:
                return True
        elif isinstance(n, E.CallL):
            if name == "Call":
                return True
        elif isinstance(n, (E.HOp, E.HBit, E.HNeg, E.HScn, E.HOper)):
            if name in ssbm.BRANCH_ARITY or getattr(n, "name", None) == name:
                return True
        elif isinstance(n, (E.SVar, E.SOper, E.SScn, E.SRandom, E.SDun, E.SSector)):
            if name in ssbm.SWITCHES or getattr(n, "name", None) == name:
                return True
        elif isinstance(n, (E.CVal, E.CMenu, E.CMenu2, E.COp)):
            if name in ssbm.CASE_ARITY or name == "CaseText":
                return True
        elif isinstance(n, E.MSwitch):
            if name == n.kind:
                return True
        elif isinstance(n, E.MCase):
            if name in ("CaseText", "DefaultText"):
                return True
        elif isinstance(n, E.SIMPLE) and name.startswith("flag_"):
            return True
    return False


def check(main, files, macros, macro_file, c, main_abs, shown, ctx):
    """main: FileInfo; files: {abs path: FileInfo}; macro_file: {macro name: abs path}."""
    sm = c.source_map
    prog = main.prog
    ref = refsem.Ref(prog, boot.PERF, macros)
    try:
        lts.reachable([e for e in ref.entries if e is not None])
    except lts.Diverges:
        raise Discard("op-free cycle")
    try:
        ops = ssbm.norm_ops(c.routine_ops)
        ments, _ = ssbm.machine(ops, strict_off=False)
    except ssbm.Malformed:
        raise Discard("malformed result")  # C03's business
    if any(not ops[i] for i, r in enumerate(prog.routines) if r.body is not None):
        raise Violation("a routine is empty", shown)
    paired: dict = {}

    def hook(l, r):
        if r.src is not None:
            paired.setdefault(r.src.offset, []).append(l)

    try:
        lts.equivalent([("", ref.entries[i], ments[i]) for i, r in enumerate(prog.routines) if r.body is not None], pairhook=hook)
    except lts.Mismatch:
        raise Discard("behaviour differs")  # C01's business

    listing = shown + "\n=== ops and map ===\n" + "\n".join(
        f"{o.offset:4} {o.name} {o.params} -> {o.target}  {(m := sm.get_op_line_and_col(o.offset)) and m.serialize()}" for r in ops for o in r)

    def bad(msg):
        raise Violation(msg, listing)

    base = os.path.dirname(main_abs)
    flat = [o for r in ops for o in r]
    index = {o.offset: i for i, o in enumerate(flat)}

    def fileof(rel):
        if rel is None:
            return main_abs
        if os.path.isabs(rel):
            bad(f"path {rel} is not relative")
        return os.path.normpath(os.path.join(base, rel))

    direct = {k: m for k, m in ((o.offset, sm.get_op_line_and_col__direct(o.offset)) for o in flat) if m}
    fmac = {k: m for k, m in ((o.offset, sm.get_op_line_and_col__macros(o.offset)) for o in flat) if m}
    expansions: dict = {}  # id(env) -> (env, indices of paired ops)
    owner: dict = {}  # index -> innermost env, for the paired
    contributed = set()
    routine_of = {}
    follower = {}  # statement -> the explicit jump written right behind it
    for r in prog.routines:
        for n in E.walk(r):
            for body in (getattr(n, "body", None), getattr(n, "els", None)):
                for a, b in zip(body or (), (body or ())[1:]):
                    if isinstance(b, EXPLICIT):
                        follower[id(a)] = b
    for ri, r in enumerate(ops):
        for o in r:
            routine_of[o.offset] = ri
    for o in flat:
        d, m = direct.get(o.offset), fmac.get(o.offset)
        what = f"{o.offset} {o.name}"
        if not d and not m:
            bad(f"no entry for {what}")
        if d and m:
            bad(f"direct and macro entry for {what}")
        if (d or m).line < 0:
            bad(f"negative line for {what}")
        got = ((d or m).line, (d or m).column)
        ls = paired.get(o.offset)
        if not ls or any(isinstance(l.src, tuple) for l in ls):
            # jumps (at the end of a routine they are turned to returns), returns added to routines and unreachable ops: something this op can come from has to begin there
            if d:
                fi, tops = main, [prog.routines[routine_of[o.offset]]]
            else:
                fi = files.get(fileof(m.relpath_included_file))
                if fi is None or macro_file.get(m.macro_name) != fi.path:
                    bad(f"entry of {what}: no macro {m.macro_name} in file {m.relpath_included_file}")
                tops = [x for x in fi.prog.macros if x.name == m.macro_name]
            a, b = fi.spans[id(tops[0])]
            if not a <= got <= b:
                bad(f"entry of {what}: {got} is outside of its {'macro' if m else 'routine'}")
            name = o.name
            if not fits(name, fi.at.get(got, ())):
                bad(f"entry of {what}: nothing at {got} can have it as op")
            continue
        errors = []
        for l in ls:
            env = l.prov if isinstance(l.prov, refsem.Env) else None
            ch = chain(env)
            src = l.src
            if not ch:
                want = main.pos[id(src)]
                if m:
                    errors.append(f"{what} is written directly, but has macro entry {m.serialize()}")
                elif got not in want:
                    errors.append(f"{what} is written at {sorted(want)}, entry says {got}")
                else:
                    break
                continue
            mac = ch[0].macro
            path = macro_file[mac.name]
            want = files[path].pos[id(src)]
            if not m:
                errors.append(f"{what} comes from macro {mac.name}, but has a direct entry")
            elif m.macro_name != mac.name:
                errors.append(f"{what} comes from macro {mac.name}, entry says {m.macro_name}")
            elif fileof(m.relpath_included_file) != path or (m.relpath_included_file is None) != (path == main_abs):
                errors.append(f"{what} comes from a macro in {path}, entry says {m.relpath_included_file}")
            elif got not in want:
                errors.append(f"{what} is written at {sorted(want)} of {path}, entry says {got}")
            else:
                break
        else:
            bad(errors[0])
        if len(ls) > 1:
            ctx.count("ops paired with several places", 1)
        for e in ch:
            expansions.setdefault(id(e), (e, []))[1].append(index[o.offset])
            contributed.add(macro_file[e.macro.name]) if e is ch[0] else None
        owner[index[o.offset]] = ch
        # an explicit jump written behind an op
        if l.kind == "op" and l.nxt.kind == "goto" and not ch and id(src) in follower and l.nxt.src is follower[id(src)]:
            i = index[o.offset] + 1
            # (a number left out is that of a jump dropped)
            if i < len(flat) and flat[i].name == "Jump" and flat[i].offset == o.offset + 1 and flat[i].offset in direct and routine_of[flat[i].offset] == routine_of[o.offset]:
                srcs, n = [], l.nxt
                while n.kind == "goto":
                    srcs.append(n.src)
                    n = n.nxt
                okpos = set()
                for s in srcs:
                    if isinstance(s, E.Node) and id(s) in main.pos:
                        okpos |= main.pos[id(s)]
                dm = direct[flat[i].offset]
                ctx.count("explicit jumps", 1)
                if (dm.line, dm.column) not in okpos and len(srcs) == 1:
                    bad(f"jump {flat[i].offset} behind {what} is written at {sorted(okpos)}, entry says {(dm.line, dm.column)}")

    def nested_calls(macro, seen):
        for n in E.walk(macro):
            if isinstance(n, E.MCall):
                p = macro_file[macro.name]
                yield from ((None if p == main_abs else p, *x) for x in files[p].pos[id(n)])
                if n.name not in seen:
                    yield from nested_calls(macros[n.name], seen | {n.name})

    # expansions: return address and call position
    envs = sorted(expansions.values(), key=lambda x: x[1][0])
    first_of: dict = {}
    maybe_first: set = set()
    for env, idx in envs:
        lo, hi = min(idx), max(idx)
        for i in range(lo, hi + 1):
            if i in owner and env not in owner[i]:
                bad(f"op {flat[i].offset} between those of an expansion of {env.macro.name} is not from it")  # can not be: emitted in order
        # Behind it: the default's jump of a switch is emitted early, so the next op is not always the one with the next number.
        last = max(flat[i].offset for i in range(lo, hi + 1))
        behind = [i for i in range(len(flat)) if not lo <= i <= hi and (i in owner or flat[i].offset in direct)]
        nxt = max([min([flat[i].offset for i in behind if flat[i].offset > last], default=-1)] + [flat[i].offset for i in behind if i > hi][:1])
        for i in idx:
            if owner[i][0] is not env:
                continue
            m = fmac[flat[i].offset]
            if m.return_addr is None or m.return_addr <= last:
                bad(f"return address {m.return_addr} of {flat[i].offset} is not behind the last op {last} of the "
                    f"expansion of {env.macro.name}")
            if nxt > last and m.return_addr > nxt:
                bad(f"return address {m.return_addr} of {flat[i].offset} is behind the first op {nxt} after the expansion of {env.macro.name}")
        # jumps in front of the first op that is reached can belong to it as well
        before = lo
        while before > 0 and before - 1 not in owner and flat[before - 1].offset in fmac:
            before -= 1
        first_of.setdefault((before, lo), []).append(env)
        maybe_first |= set(range(before, lo + 1))
    for (before, lo), es_ in first_of.items():
        calls = set()
        for env in es_:
            outer = chain(env.parent)
            p = macro_file[outer[0].macro.name] if outer else main_abs
            fi = files[p] if outer else main
            calls |= {(None if p == main_abs else p, *x) for x in fi.pos[id(env.prov)]}
            if before < lo:  # that op may be the first of a nested expansion none of whose ops are reached
                calls |= set(nested_calls(env.macro, {env.macro.name}))
        have = []
        for i in range(before, lo + 1):
            ci = fmac[flat[i].offset].called_in
            if ci is not None:
                f = None if ci[0] is None else fileof(ci[0])
                have.append((f, ci[1], ci[2]))
        if not any(h in calls for h in have):
            bad(f"first op {flat[lo].offset} of the expansion of {es_[0].macro.name}: called in {have}, expected one of {sorted(map(str, calls))}")
        innermost = [env for env in es_ if env is owner[lo][0]]
        if before == lo and innermost:
            ctx.count("first ops", 1)
    for i, ch in owner.items():
        if i not in maybe_first and ch and fmac[flat[i].offset].called_in is not None:
            bad(f"op {flat[i].offset} is not the first of an expansion, but has call position {fmac[flat[i].offset].called_in}")

    # files
    got = {os.path.realpath(x) for x in IncludedUsageMap(sm, main_abs).included_files}
    need = {os.path.realpath(p) for p in contributed} - {os.path.realpath(main_abs)}
    may = need | {os.path.realpath(fileof(m.relpath_included_file)) for m in fmac.values()} - {os.path.realpath(main_abs)}
    if not need <= got:
        bad(f"included files {sorted(got)} lack {sorted(need - got)}")
    if not got <= may:
        bad(f"included files {sorted(got - may)} contributed no op")

    # position marks
    emitted = {p[1:] for o in flat for p in o.params if p[0] == "pos"}
    emitted = {(n, 2 if xh else 0, 2 if yh else 0, x, y) for n, x, xh, y, yh in emitted}
    dm = [val(p) for p in sm.get_position_marks__direct()]
    mm = [(fileof(rel), name, val(p)) for rel, name, p in sm.get_position_marks__macros()]
    for v in emitted:
        if v not in dm and v not in {x[2] for x in mm}:
            bad(f"no position mark recorded for {v}")
    args = {pos_val(x) for n in E.walk(list(prog.routines)) if isinstance(n, E.MCall) for x in n.args if isinstance(x, E.Pos)}
    for f in files.values():
        args |= {pos_val(x) for m in f.prog.macros for n in E.walk(m) if isinstance(n, E.MCall) for x in n.args if isinstance(x, E.Pos)}
    for v in dm + [x[2] for x in mm]:
        if v not in emitted and v not in args:
            bad(f"position mark {v} recorded, but in no parameter")
    lit = sorted(pos_val(p) for at, p in main.posmarks if any(
        main.spans[id(t)][0] <= at <= main.spans[id(t)][1] for t in main.tops if isinstance(t, E.Routine)))
    if sorted(dm) != lit:
        bad(f"position marks of the file {sorted(dm)}, written in its routines: {lit}")
    for p, name, v in mm:
        fi = files.get(p)
        tops = [t for t in fi.tops if isinstance(t, E.Macro) and t.name == name] if fi else []
        if not tops:
            bad(f"position mark recorded for macro {name} of {p}, which is not there")
        a, b = fi.spans[id(tops[0])]
        if v not in {pos_val(x) for at, x in fi.posmarks if a <= at <= b}:
            bad(f"position mark {v} recorded for macro {name}, where it is not written")
    ctx.count("entries", len(flat))
    ctx.count("macro entries", len(fmac))
    ctx.count("expansions", len(envs))
    return flat, fmac, envs


def seps_lf(rnd, level):
    """The compiler reads imported files with all line endings turned into newlines."""
    inner = layout.random_seps(rnd, level)
    return lambda i, a, b: inner(i, a, b).replace("\r\n", "\n").replace("\r", "\n")


def prop_proj(case, ctx):
    proj, seed, seplevel = case
    rnd = random.Random(seed)
    if seplevel < 0:
        root, texts = project.write(proj)
    else:
        root, texts = project.write(proj, sep=lambda: seps_lf(rnd, seplevel), speller=lambda: layout.RandomSpeller(rnd, 1))
    shown = project.show(proj, texts)
    try:
        c = project.compile_project(proj, root, texts[proj.main.path][1].text)
    except Exception as e:
        raise Discard("compile: " + type(e).__name__)
    files, macro_file = {}, {}
    for f in proj.files:
        p = os.path.join(root, f.path)
        files[p] = FileInfo(p, f.prog, *texts[f.path])
        for m in f.prog.macros:
            macro_file[m.name] = p
    main_abs = os.path.join(root, proj.main.path)
    flat, fmac, envs = check(files[main_abs], files, proj.all_macros(), macro_file, c, main_abs, shown, ctx)
    if envs:
        ctx.nontrivial(shown)
    nested = any(len(chain(e)) > 1 for e, _ in envs)
    ctx.label(f"files:{len(proj.files)}", "nested" if nested else "flat" if envs else "no call",
              f"seps:{seplevel}", *(["imported ops"] if any(m.relpath_included_file for m in fmac.values()) else []))


def prop_prog(case, ctx):
    prog, seed, seplevel = case
    rnd = random.Random(seed)
    if seplevel < 0:
        tp = E.TokenPrinter().program(prog)
        r = E.render(tp.toks, E.pretty_seps())
    else:
        tp, r = layout.respell(prog, rnd, 1, seplevel)
    try:
        c = es.compile_es(r.text)
    except Exception as e:
        raise Discard("compile: " + type(e).__name__)
    main_abs = "/main.exps"
    fi = FileInfo(main_abs, prog, tp, r)
    flat, _, _ = check(fi, {main_abs: fi}, {m.name: m for m in prog.macros}, {m.name: main_abs for m in prog.macros}, c, main_abs, r.text, ctx)
    if len(flat) > 3:
        ctx.nontrivial(r.text)
    ctx.label(f"seps:{seplevel}")


RULE = ("Programs and macro projects as for C01 and C05, printed in random layouts. The product walk of C01 pairs every reachable emitted "
        "op with the statement or header of the source (and the macro expansion) it comes from; its entry must say the position the "
        "printer put that at, the macro and the file. Other ops (jumps, unreachable) must be mapped to something of that routine or "
        "macro that can have such an op. Return addresses, call positions, included files and position marks are compared with the "
        "expansions found. Non-trivial: an expansion with ops, or more than three ops for single programs; distinct by text.")


def campaigns():
    G = gen_es
    seps = st.sampled_from([-1, -1, 0, 1, 2, 3, 4])
    seeds = st.integers(0, 2 ** 32)
    P = lambda cfg, n: st.tuples(G.projects(cfg, n), seeds, seps)  # noqa: E731
    S = lambda name: st.tuples(G.programs(G.CFGS[name]), seeds, seps)  # noqa: E731
    return [
        Campaign("single", P(G.Cfg(budget=12, routines=2), 0), prop_proj, 1500, 24000),
        Campaign("files", P(G.Cfg(budget=10, routines=2), 3), prop_proj, 3000, 24000),
        Campaign("small", P(G.Cfg(budget=4, routines=1, small=True, depth=2), 2), prop_proj, 2400, 16000),
        Campaign("full", S("full"), prop_prog, 1600, 16000),
        Campaign("little", S("small"), prop_prog, 2000, 20000),
        Campaign("forms", st.tuples(G.forms(), seeds, seps), prop_prog, 3000, 30000),
        Campaign("large", st.tuples(G.large_projects(), seeds, seps), prop_proj, 500, 5000),
        Campaign("many-files", P(G.Cfg(budget=2, routines=1, small=True, depth=1), 10), prop_proj, 300, 3000),
        Campaign("deep", S("deep"), prop_prog, 300, 6000),
    ]


def main(replay=None):
    return run("C08", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "A condition or header may be mapped to its first token or to the keyword in front of it.",
        "The op of `with` and of `op<actor X>()` is mapped to the statement or its header; the Return added to a routine to any place of it.",
        "The first op of nested expansions has room for one call position: that of any of them.",
    ])
