"""C14: source maps survive storage and offset rewriting."""
import json

from hypothesis import strategies as st

from vlib import boot, es, esast as E, gen_es, gen_ssb, project
from vlib.harness import Campaign, Discard, Violation, run
from explorerscript.source_map import MacroSourceMapping, SourceMap, SourceMapPositionMark, SourceMapping

PM = ("line_number", "column_number", "end_line_number", "end_column_number", "name", "x_offset", "y_offset",
      "x_relative", "y_relative")


def pm_tuple(p):
    return tuple(getattr(p, f) for f in PM)


def macro_tuple(m):
    ci = m.called_in
    return (m.relpath_included_file, m.macro_name, m.line, m.column, None if ci is None else (type(ci).__name__, tuple(ci)),
            m.return_addr, tuple(sorted((k, type(v).__name__, v) for k, v in m.parameter_mapping.items())))


def snapshot(sm):
    """Everything observable through the public accessors, as plain data."""
    keys = [k for k, _ in sm]
    macro = {k: macro_tuple(m) for k, m in sm.collect_mappings__macros()}
    direct = {}
    for k in keys:
        d = sm.get_op_line_and_col__direct(k)
        if d is not None:
            direct[k] = (d.line, d.column)
    return (direct, macro, [pm_tuple(p) for p in sm.get_position_marks__direct()],
            [(a, b, pm_tuple(p)) for a, b, p in sm.get_position_marks__macros()])


def diff(a, b):
    for n, x, y in zip(("op entries", "macro entries", "position marks", "macro position marks"), a, b):
        if x != y:
            return f"{n}: {x!r:.600} / {y!r:.600}"
    return None


TEXT = st.text(max_size=8) | st.sampled_from(["", "a", "../x.exps", "é\ud800", 'q"uo', "nul\0"])
INT = st.integers(0, 30) | st.integers(0, 2**31) | st.integers(-5, 10**12)
KEY = st.integers(0, 40) | st.integers(0, 10**6)
MARK = st.tuples(INT, INT, INT, INT, TEXT, INT, INT, INT, INT)
MACRO = st.tuples(st.none() | TEXT, TEXT, INT, INT, st.none() | st.tuples(st.none() | TEXT, INT, INT), st.none() | KEY,
                  st.dictionaries(TEXT, INT | TEXT, max_size=4))


@st.composite
def synthetic(draw):
    keys = sorted(draw(st.sets(KEY, max_size=14)))
    keys = draw(st.permutations(keys)) if draw(st.booleans()) else keys
    direct, macro = [], []
    for k in keys:
        if draw(st.booleans()):
            macro.append((k, draw(MACRO)))
        else:
            direct.append((k, draw(st.tuples(INT, INT))))
    raw = (direct, draw(st.lists(MARK, max_size=4)), macro, draw(st.lists(st.tuples(st.none() | TEXT, TEXT, MARK), max_size=4)))
    # renumberings: applied one after the other, each over the key space of the previous result
    maps = []
    pool = sorted(set(keys) | {m[1][5] for m in macro if m[1][5] is not None})
    for _ in range(draw(st.integers(1, 2))):
        extra = draw(st.sets(KEY, max_size=4))
        near = {p + d for p in pool for d in draw(st.sets(st.integers(1, 3), max_size=2))}
        olds = sorted({k for k in set(pool) | extra | near if draw(st.integers(0, 3))})
        style = draw(st.sampled_from(["dense", "stretch", "shift", "random", "ident", "reverse"]))
        if style == "dense":
            news = list(range(len(olds)))
        elif style == "stretch":
            news = [4 + 3 * i for i in range(len(olds))]
        elif style == "shift":
            news = [o + 1 for o in olds]
        elif style == "ident":
            news = list(olds)
        elif style == "reverse":
            news = list(range(len(olds)))[::-1]
        else:
            news = draw(st.permutations(sorted(draw(st.sets(KEY, min_size=len(olds), max_size=len(olds) or 1)))[: len(olds)]))
        m = list(zip(olds, news))
        if draw(st.booleans()):
            m = draw(st.permutations(m))
        maps.append(dict(m))
        pool = sorted(news)
    return raw, maps


def build(raw):
    direct, marks, macro, mmarks = raw
    return SourceMap({k: SourceMapping(*v) for k, v in direct}, [SourceMapPositionMark(*m) for m in marks],
                     {k: MacroSourceMapping(*v) for k, v in macro}, [(a, b, SourceMapPositionMark(*m)) for a, b, m in mmarks])


def expect_raw(raw):
    direct, marks, macro, mmarks = raw
    return (dict(direct),
            {k: (v[0], v[1], v[2], v[3], None if v[4] is None else ("tuple", v[4]), v[5],
                 tuple(sorted((a, type(b).__name__, b) for a, b in v[6].items()))) for k, v in macro},
            list(marks), list(mmarks))


def check_storage(sm, text):
    before = snapshot(sm)
    for pretty in (False, True):
        s = sm.serialize(pretty=pretty) if pretty else sm.serialize()
        d = snapshot(sm)
        if d != before:
            raise Violation("serialize() changed the map: " + diff(before, d), text)
        back = SourceMap.deserialize(s)
        e = diff(before, snapshot(back))
        if e:
            raise Violation("serialize -> deserialize changes " + e, text + "\n" + s)
        if not (back == sm and sm == back) or back != sm:
            raise Violation("the deserialized map does not compare equal to the original", text + "\n" + s)
        again = back.serialize(pretty=pretty) if pretty else back.serialize()
        if again != s:
            raise Violation("serialising the deserialized map gives another text", s + "\n" + again)
    return back


def check_rewrite(sm, m, text):
    before = snapshot(sm)
    arg = dict(m)
    sm.rewrite_offsets(arg)
    if arg != m:
        raise Violation("rewrite_offsets changed the mapping it was given", text)
    after = snapshot(sm)
    direct, macro, marks, mmarks = before
    ed = {m[k]: v for k, v in direct.items() if k in m}
    if after[0] != ed:
        raise Violation(f"rewrite {m}: op entries expected {ed}, got {after[0]}", text)
    if set(after[1]) != {m[k] for k in macro if k in m}:
        raise Violation(f"rewrite {m}: macro entries {sorted(after[1])}, expected {sorted(m[k] for k in macro if k in m)}", text)
    for k, v in macro.items():
        if k not in m:
            continue
        got = after[1][m[k]]
        if got[:5] + got[6:] != v[:5] + v[6:]:
            raise Violation(f"rewrite {m}: macro entry of {k} became {got}, was {v}", text)
        if v[5] is None:
            want = None
        else:
            later = [o for o in m if o >= v[5]]
            if not later:
                continue  # no surviving op: unspecified
            want = m[min(later)]
        if got[5] != want:
            raise Violation(f"rewrite {m}: return address {v[5]} of the entry of {k} became {got[5]}, expected {want}", text)
    if after[2:] != (marks, mmarks):
        raise Violation("rewrite_offsets changed the position marks", text)


def prop_syn(case, ctx):
    raw, maps = case
    text = repr(case)
    sm = build(raw)
    e = diff(expect_raw(raw), snapshot(sm))
    if e:
        raise Violation("accessors of a fresh map: " + e, text)
    sm = check_storage(sm, text)
    for m in maps:
        check_rewrite(sm, m, text)
        sm = check_storage(sm, text)
    nm = sum(1 for _, v in raw[2] if v[5] is not None)
    if (raw[0] or raw[2]) and maps[0]:
        ctx.nontrivial(text)
    ctx.label("macro entries with return" if nm else "no return address", f"rewrites:{len(maps)}",
              "dropped return op" if any(v[5] is not None and v[5] not in maps[0] for _, v in raw[2]) else "return ops kept")


def renumber(rnd, sm):
    """A renumbering as an assembler makes it: the ops of the map plus some ops it does not know, some dropped."""
    keys = sorted({k for k, _ in sm})
    out, pos = {}, rnd.randint(0, 3)
    for k in range(0, (keys[-1] if keys else 0) + 3):
        if rnd.randint(0, 5):
            out[k] = pos
            pos += rnd.randint(1, 4)
    return out


def prop_es(case, ctx):
    proj, rnd = case
    root, texts = project.write(proj)
    shown = project.show(proj, texts)
    try:
        c = project.compile_project(proj, root, texts[proj.main.path][1].text)
    except Exception as e:
        raise Discard("compile: " + type(e).__name__)
    sm = check_storage(c.source_map, shown)
    for _ in range(2):
        check_rewrite(sm, renumber(rnd, sm), shown)
        sm = check_storage(sm, shown)
    if list(c.source_map.collect_mappings__macros()):
        ctx.nontrivial(shown)
    ctx.label("compiled map")


def prop_dec(case, ctx):
    rs, rnd = case
    if rs is None:
        raise Discard("no input")
    try:
        _, sm = gen_ssb.decompile(rs)
        _, sm2 = gen_ssb.decompile_ssb(rs)
    except Exception as e:
        raise Discard("decompile: " + type(e).__name__)
    for s in (sm, sm2):
        s = check_storage(s, rs.show())
        check_rewrite(s, renumber(rnd, s), rs.show())
    ctx.nontrivial(rs.show())
    ctx.label("decompiled map")


RULE = ("Source maps built from random tables (shared key space of op and macro entries, arbitrary names, call sites, return "
        "addresses, parameter mappings and marks), from compiled macro projects, and from both decompilers; each is stored and "
        "read back (compact and pretty) before and after 1-2 random renumberings that drop, keep, permute and add ops. "
        "Non-trivial: the map has entries and the renumbering keeps some op (synthetic), or has macro entries (compiled).")


def campaigns():
    rnd = st.randoms(use_true_random=False)
    return [
        Campaign("synthetic", synthetic(), prop_syn, 8000, 80000),
        Campaign("compiled", st.tuples(gen_es.projects(gen_es.Cfg(budget=8, routines=2), 2), rnd), prop_es, 1000, 8000),
        Campaign("large", st.tuples(gen_es.large_projects(), rnd), prop_es, 200, 2000),
        Campaign("decompiled", st.tuples(gen_ssb.compiled_sets(gen_es.Cfg(budget=8)), rnd), prop_dec, 400, 3000, case_seconds=5),
    ]


def main(replay=None):
    return run("C14", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "Renumberings are injective. A return address with no surviving op at or after it may become anything."])
