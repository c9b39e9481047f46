"""C02: decompiled source denotes the input routines; recompiling preserves behaviour."""
from hypothesis import strategies as st

from vlib import es, gen_es, gen_ssb, lts, ssbm
from vlib.harness import Campaign, Discard, Violation, run

EQ = ("int", 2)
MARK = "//?: is-ssb-script: true\n"


def as_written(ents):
    """Rewrites, in place, ops of the input to the op that the compiler gives what the language writes in the same way:
    CaseValue/CaseScenario by the kind of the switch, comparisons and calculations with `=`."""
    todo, seen = [(lts.resolve(e), None) for e in ents if e], set()
    while todo:
        n, sw = todo.pop()
        if n.kind not in ("op", "test") or (id(n), sw) in seen:
            continue
        seen.add((id(n), sw))
        name, ps = n.ev
        nsw = None
        if name == "CaseScenario" and sw and sw != "SwitchScenario":
            n.ev = ("CaseValue", ps)
        elif name == "CaseValue" and sw == "SwitchScenario":
            n.ev = ("CaseScenario", ps)
        elif name == "BranchValue" and ps[1] == EQ:
            n.ev = ("Branch", ps[:1] + ps[2:])
        elif name == "flag_CalcValue" and ps[1] == ("int", 0):
            n.ev = ("flag_Set", ps[:1] + ps[2:])
        if name in ssbm.SWITCHES:
            nsw = name
        elif name.startswith("Case"):
            nsw = sw
        todo.append((lts.resolve(n.nxt), nsw))
        if n.kind == "test":
            todo.append((lts.resolve(n.taken), None))


def check(rs, ctx=None, strict_off=True, text=None, perf=es.boot.PERF, dmodes=gen_ssb.DMODES):
    """Decompile (unless the text is given), recompile, compare. -> (text, compiled)"""
    targets = {id(o.tgt) for r in rs.routines for o in r.ops}
    for r in rs.routines:
        for a, b in zip(r.ops, r.ops[1:]):
            if a.name in ssbm.CTX_OPS:
                if b.name == "JumpCommon":
                    raise Discard("JumpCommon in a context: nothing says whether it ends the flow")
                if id(b) in targets and b.name in ssbm.STOP_OPS:
                    raise Discard("jump between a context and its end op: nothing says whether it ends the flow")
    shown = rs.show()
    if text is None:
        try:
            text, sm = gen_ssb.decompile(rs, None, perf, dmodes)
        except Exception as e:
            raise Discard(f"decompiler: {type(e).__name__}")  # C06's business
    t = f"{shown}\n=== decompiled ===\n{text}"
    if text.startswith(MARK):
        if ctx:
            ctx.label("fallback")
    try:
        c = es.compile_es(text, perf=perf)
    except Exception as e:
        raise Violation(f"the compiler rejects the text: {type(e).__name__}: {str(e)[:300]}", t)
    try:
        ops = ssbm.norm_ops(c.routine_ops)
        gen_ssb.plain_dmodes(ops, dmodes)
        ents, _ = ssbm.machine(ops, strict_off)
    except ssbm.Malformed as e:
        raise Violation(f"recompiled result is malformed: {e}", t)
    want = rs.infos()
    got = [ssbm.norm_info(i, n) for i, n in zip(c.routine_infos, c.named_coroutines)]
    if got != want or len(ops) != len(want):
        raise Violation(f"routine headers {want} came back as {got}", t)
    model = rs.model()
    gen_ssb.plain_dmodes(model, dmodes)
    rents, _ = ssbm.machine(model, strict_off)
    pairs = []
    for i, (a, b) in enumerate(zip(rents, ents)):
        if (a is None) != (b is None):
            raise Violation(f"routine {i} is {'an alias' if a is None else 'not an alias'}, came back as the opposite", t)
        if a is not None:
            pairs.append((f"routine {i}", a, b))
    try:
        lts.equivalent(pairs)
    except lts.Diverges:
        raise Discard("input diverges")
    except lts.Mismatch as e:
        sig = ""
        try:
            as_written(rents)
            lts.equivalent(pairs)
            sig = "same-test-other-opcode"
        except lts.Mismatch:
            pass
        raise Violation(f"behaviour differs: {e}", t + "\n=== recompiled ===\n" + ssbm.show(ops), sig)
    return text, c


def note(rs, text, ctx):
    if text.startswith(MARK):
        return
    ctx.label("structured", *(["jumps"] if "jump @" in text else ["jump-free"]),
              *[w for w in ("forever", "switch", "elseif", "call @", "||", "not (") if w in text])
    ctx.nontrivial(rs.show() + "\n\n" + text)


def prop(rs, ctx):
    if rs is None:
        raise Discard("no input")
    w = gen_ssb.wellformed(rs)
    if w:
        raise Discard(w)
    text, c = check(rs, ctx)
    note(rs, text, ctx)


def prop_compiled(rs, ctx):
    """decompile(compile(p)) behaves like p, also if a routine of p runs off its end (where it returns)."""
    if rs is None:
        raise Discard("no input")
    w = gen_ssb.wellformed(rs)
    if w and w != "runs off its end":
        raise Discard(w)
    text, c = check(rs, ctx, strict_off=not w)
    note(rs, text, ctx)


def prop_settings(case, ctx):
    """With another performance progress list and other names for the dungeon modes"""
    rs, perf, dmodes = case
    if rs is None:
        raise Discard("no input")
    names = {es.boot.PERF: perf, perf: es.boot.PERF}
    names.update(zip(gen_ssb.DMODES, dmodes))
    rs = gen_ssb.renamed(rs, names)
    w = gen_ssb.wellformed(rs)
    if w:
        raise Discard(w)
    text, c = check(rs, ctx, perf=perf, dmodes=dmodes)
    note(rs, text, ctx)


def known(v, case, entries):
    for e in entries:
        if v.sig and e["id"] == v.sig:
            return e["id"]
    return None


RULE = ("Well-formed routine sets: (cfg, cfgbig) random control-flow graphs of 1-3 routines with up to 7 / 25 blocks in random order "
        "- branches, switches with shared and falling-through cases, menus, loops, shared tails, calls, cross-routine jumps, leading "
        "jumps, unreachable ops, contexts, message switches, every opcode with special syntax; (nocalls) no Call ops, hence fewer "
        "fallbacks; (settings) another performance progress list and other dungeon mode names; (weird) unusual op sequences; (odd) special ops with unusual parameters; (mut) compiler output with up to 4 "
        "edits (retargeted and inserted jumps, relocated pieces); (compiled) compiler output for generated ExplorerScript, laid out "
        "with four numberings. The decompiled text is compiled and every routine compared with the input on all paths (product walk of both "
        "transition systems: ops and tests with parameters), and all headers. Non-trivial: a structured text (not the SsbScript "
        "fallback); distinct by text.")


def campaigns():
    kw = dict(case_seconds=60)
    S = gen_ssb
    return [
        Campaign("cfg", S.cfg_sets(), prop, 2500, 60000, **kw),
        Campaign("cfgbig", S.cfg_sets(maxblocks=25, small=False), prop, 500, 20000, shards=2, **kw),
        Campaign("nocalls", S.cfg_sets(calls=False, cross=10 ** 6, maxblocks=9), prop, 4000, 100000, shards=2, **kw),
        Campaign("weird", S.cfg_sets(weird=True), prop, 1500, 40000, **kw),
        Campaign("odd", S.cfg_sets(odd=True, calls=False, maxblocks=3), prop, 2000, 40000, **kw),
        Campaign("settings", st.tuples(st.one_of(S.cfg_sets(calls=False, maxblocks=4), S.cfg_sets(odd=True, calls=False, maxblocks=3)),
                                       st.sampled_from(es.boot.PERFS), st.sampled_from(S.DMODE_NAMES)), prop_settings, 1500, 30000, **kw),
        Campaign("mut", S.compiled_sets(mutate=4), prop, 1500, 40000, **kw),
        Campaign("compiled", S.compiled_sets(), prop_compiled, 2500, 60000, shards=2, **kw),
    ]


def main(replay=None):
    return run("C02", "exploration", RULE, campaigns(), replay=replay, known_match=known, assumptions=[
        "dungeon mode constants are their values; a half-tile offset of 4 equals one of 2; the compiler is the reader of the text "
        "(C01 checks it against the language specification).",
        "An input on which the decompiler raises or does not end is C06's business and discarded here.",
        "Running off the last op of a compiled routine counts as Return (only in the campaign `compiled`)."])
