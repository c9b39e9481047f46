"""C09: the decompilers' source maps point at the statement printed for each op."""
import bisect
import re

from hypothesis import strategies as st

from vlib import boot, es, gen_ssb, ssbm
from vlib.gen_ssb import RSet
from vlib.harness import Campaign, Discard, Violation, run

FALLBACK = "//?: is-ssb-script: true\n"
TOK = re.compile(r"""(?P<skip>\s+|//[^\n]*|/\*.*?\*/)|(?P<str>\"\"\".*?\"\"\"|'''.*?'''|'(?:\\.|[^'\\])*'|"(?:\\.|[^"\\])*")"""
                 r"""|(?P<word>[@§]?[\w$.]+|-[\d.]+)|(?P<punct>.)""", re.S)
MARKER = re.compile(r"(?<![0-9])([2-9][0-9]{4})(?![0-9])")
KEYWORD = {"Return": "return", "End": "end", "Hold": "hold", "Call": "call"}


class Seg:
    """A statement or header of the text: up to `;`, `{`, `:` or the end of the text of a message switch case."""

    __slots__ = ("line", "col", "toks", "depth", "end", "block")

    def __init__(self, line, col, depth, block):
        self.line, self.col, self.toks, self.depth, self.end, self.block = line, col, [], depth, "", block

    @property
    def first(self):
        return self.toks[0]

    def markers(self):
        return [int(m) for t in self.toks for m in MARKER.findall(t)]


def segments(text) -> list[Seg]:
    starts = [0] + [i + 1 for i, c in enumerate(text) if c == "\n"]
    toks = [(m.lastgroup, m.group(), m.start()) for m in TOK.finditer(text) if m.lastgroup != "skip"]
    segs, cur, par, i, block, nblock = [], None, 0, 0, [0], 0
    while i < len(toks):
        kind, s, pos = toks[i]
        if cur is None:
            if s == "}":
                i += 1
                if len(block) > 1:
                    block.pop()
                continue
            line = bisect.bisect_right(starts, pos) - 1
            cur = Seg(line, pos - starts[line], len(block), block[-1])
            segs.append(cur)
            if kind == "str":  # text of a message switch case
                cur.toks.append(s)
                cur = None
                i += 1
                continue
            if s == "{":  # the same in several languages
                while toks[i][1] != "}":
                    cur.toks.append(toks[i][1])
                    i += 1
                cur = None
                i += 1
                continue
        if par == 0 and s in (";", "{", ":"):
            cur.end = s
            if s == "{":
                nblock += 1
                block.append(nblock)
            cur = None
            i += 1
            continue
        cur.toks.append(s)
        par += (s in "([{") - (s in ")]}") if len(s) == 1 else 0
        i += 1
    return segs


# ---------------------------------------------------------------- markers

FIXED = {("BranchDebug", 0), ("BranchEdit", 0), ("BranchVariation", 0), ("BranchPerformance", 1), ("flag_SetPerformance", 1),
         ("flag_CalcBit", 2)} | set(gen_ssb.OPERATOR_AT)


def mark(rs: RSet) -> dict[int, int]:
    """Gives every op that can carry one a number of its own in a parameter. -> id(op) -> number"""
    out, n = {}, 20001
    for r in rs.routines:
        for o in r.ops:
            order = sorted(range(len(o.params)), key=lambda i: ("lstr", "cstr", "const", "pos", "int", "fix").index(o.params[i][0]))
            if o.name in ("CaseText", "DefaultText"):
                order = [0][:o.name == "CaseText"]  # the text is not part of the header
            for i in order:
                p = o.params[i]
                if (o.name, i) in FIXED or o.name == "Case" and p[0] == "const":
                    continue
                if p[0] == "int":
                    p = ("int", n)
                elif p[0] == "const" and p[1] != boot.PERF and p[1] not in gen_ssb.DMODES:
                    p = ("const", f"$V{n}")
                elif p[0] == "cstr":
                    p = ("cstr", f"{p[1]} {n}")
                elif p[0] == "lstr" and p[1]:
                    (k, s), *rest = p[1]
                    p = ("lstr", ((k, f"{s} {n}"), *rest))
                elif p[0] == "pos":
                    p = (p[0], f"m{n}", *p[2:])
                else:
                    continue
                o.params = o.params[:i] + (p,) + o.params[i + 1:]
                out[id(o)] = n
                n += 1
                break
    return out


# ---------------------------------------------------------------- oracle


def fits(op, seg, ssbs) -> bool:
    """Whether the statement is one the language has for this kind of op."""
    f = seg.first
    if ssbs:
        return f == op.name
    if op.name in KEYWORD:
        return f in (KEYWORD[op.name], op.name)
    if op.name == "Jump":
        return f in ("jump", "break_loop", "continue")
    if op.name in ssbm.BRANCH_ARITY:
        return f in ("if", "elseif")
    if op.name in ssbm.CASE_ARITY or op.name == "CaseText":
        return f == "case"
    if op.name == "DefaultText":
        return f == "default"
    if op.name in ssbm.CTX_OPS:
        return f == "with" or "<" in seg.toks
    if op.name in ("message_SwitchTalk", "message_SwitchMonologue"):
        return f == op.name
    if op.name in ssbm.SWITCHES:
        return f in ("switch", op.name)
    if op.name.startswith("flag_"):
        return f not in ("jump", "if", "elseif", "switch", "case", "with", "forever", "else")
    return f == op.name


def check(rs, text, sm, ssbs, ctx=None, recompile=True):
    off = rs.offsets()
    byoff = {off[id(o)]: o for r in rs.routines for o in r.ops}
    nums = {off[id(o)]: n for o, n in ((o, rs.marks.get(id(o))) for r in rs.routines for o in r.ops) if n}
    nxt = {off[id(a)]: b for r in rs.routines for a, b in zip(r.ops, r.ops[1:])}
    ofnum = {n: k for k, n in nums.items()}
    targets = {id(o.tgt) for r in rs.routines for o in r.ops}
    segs = segments(text)
    at = {(s.line, s.col): s for s in segs}
    lines = text.split("\n")
    shown = lambda: f"{rs.show()}\n=== decompiled ===\n" + "\n".join(f"{i:3} {x}" for i, x in enumerate(lines))  # noqa: E731
    entries = {}
    for k, m in sm:
        if k in entries:
            raise Violation(f"two entries for offset {k}", shown())
        entries[k] = (m.line, m.column)
    if list(sm.collect_mappings__macros()):
        raise Violation("macro entries in a decompiled source map", shown())
    here: dict = {}
    for k, pos in entries.items():
        op = byoff.get(k)
        if op is None:
            raise Violation(f"entry for offset {k}, which is no op of the input", shown())
        seg = at.get(pos)
        what = f"entry for {k} {op.name} says line {pos[0]}, column {pos[1]}"
        if seg is None:
            raise Violation(f"{what}, where no statement begins", shown())
        if not fits(op, seg, ssbs):
            raise Violation(f"{what}, where the statement is `{' '.join(seg.toks)[:60]}`", shown())
        if k in nums and nums[k] not in seg.markers():
            raise Violation(f"{what}, but its parameter {nums[k]} is not in the statement that begins there", shown())
        here.setdefault(pos, []).append(k)
    for pos, ks in here.items():
        if len(ks) > 1 and not (len(ks) == 2 and byoff[ks[0]].name in ssbm.CTX_OPS and at[pos].first != "with"):
            raise Violation(f"several ops at line {pos[0]}, column {pos[1]}: {ks}", shown())
    # every op printed as a statement has an entry
    seen: dict = {}
    prev = {}
    for s in segs:
        ms = s.markers()
        pos = (s.line, s.col)
        p = prev.get(s.block)
        prev[s.block] = s
        if ms:
            ks = [ofnum[m] for m in ms if m in ofnum]
            have = here.get(pos, [])
            for k in ks:
                seen.setdefault(k, s)
            if s.first in ("if", "elseif") and not ssbs:
                if ks and not have:
                    raise Violation(f"no entry for `{' '.join(s.toks)[:60]}` in line {s.line}", shown())
                continue
            for k in ks:
                if k in have or byoff[k].name in ssbm.CTX_OPS and s.first != "with":
                    continue
                raise Violation(f"no entry for {k} {byoff[k].name}, printed in line {s.line}", shown())
            continue
        if ssbs:
            if s.end == ";" and s.first[0] not in "@§" and s.first != "alias" and not here.get(pos):
                raise Violation(f"no entry for `{' '.join(s.toks)[:60]}` in line {s.line}", shown())
            continue
        # the decompiler adds a return of its own behind with blocks that hold the last op of a path
        added = s.first == "return" and p is not None and p.first == "with"
        if s.first in ("return", "end", "hold", "call") and not here.get(pos) and not added:
            raise Violation(f"no entry for `{s.first}` in line {s.line}", shown())
        if s.first in ("jump", "break_loop", "continue") and p is not None and p.end == ";":
            # control falls from the plain op in front of it to this jump: is it that of the op that follows in the input?
            pm = [ofnum[m] for m in p.markers() if m in ofnum]
            if pm and p.first[0] not in "@§":
                b = nxt.get(max(pm))
                if b is not None and b.name == "Jump":
                    if ctx:
                        ctx.count("jumps", 1)
                    # a jump to a jump may be written as one: which of them it is then is up to the decompiler
                    chain = [b]
                    while len(chain) < 20 and chain[-1].name == "Jump":
                        chain.append(chain[-1].tgt)
                    chain = [off[id(x)] for x in chain if x.name == "Jump"]
                    have = here.get(pos, [])
                    if not have and id(b) in targets:
                        continue  # reached by jumps too: those can go to its own target, and so can the op before
                    if len(have) != 1 or have[0] not in chain:
                        raise Violation(f"entry {have} instead of {chain} for the jump printed in line {s.line}", shown())
    if not recompile:
        return entries, seen
    try:
        if ssbs and not text.startswith(FALLBACK):
            from vlib.gen_ssbscript import compile_ssbs

            c = compile_ssbs(text)
        else:
            c = es.compile_es(text)
    except Exception as e:
        raise Discard(f"text does not compile: {type(e).__name__}")  # C02's and C07's business
    there: dict = {}
    names: dict = {}
    for r in c.routine_ops:
        for o in r:
            m = c.source_map.get_op_line_and_col(o.offset)
            if m is None:
                continue  # C08's business
            names.setdefault((m.line, o.op_code.name), []).append(o)
            for num in MARKER.findall(" ".join(map(str, o.params))):
                there.setdefault(int(num), set()).add(m.line)
    for k, pos in entries.items():
        op = byoff[k]
        if k in nums:
            got = there.get(nums[k])
            if got is not None and got != {pos[0]}:
                raise Violation(f"the map says line {pos[0]} for {k} {op.name}; compiling the text puts it on {sorted(got)}", shown())
            if got is None:
                raise Violation(f"compiling the text loses {k} {op.name} in line {pos[0]}", shown())
        elif op.name in KEYWORD or op.name not in ssbm.JUMP_OPS and op.name not in ssbm.CTX_OPS:
            if (pos[0], op.name) not in names:
                raise Violation(f"the map says line {pos[0]} for {k} {op.name}; compiling the text puts no {op.name} there", shown())
    if ctx:
        ctx.count("entries", len(entries))
    return entries, seen


def prepare(rs):
    if rs is None:
        raise Discard("no input")
    w = gen_ssb.wellformed(rs)
    if w:
        raise Discard(w)
    rs.marks = mark(rs)
    return rs


def prop(rs, ctx):
    prepare(rs)
    try:
        text, sm = gen_ssb.decompile(rs)
    except Exception as e:
        raise Discard(f"decompiler: {type(e).__name__}")  # C06's business
    fb = text.startswith(FALLBACK)
    entries, seen = check(rs, text, sm, fb, ctx)
    multi = sum("\n" in str(p) for r in rs.routines for o in r.ops for p in o.params)
    ctx.label("fallback" if fb else "structured", *(["multi-line"] if "\n" in "".join(
        str(p[1]) for r in rs.routines for o in r.ops for p in o.params if p[0] in ("cstr", "lstr")) else []),
        *[w for w in ("forever", "break_loop", "continue", "switch", "elseif", "with (", "call @", "||") if w in text])
    if len(entries) > 2:
        ctx.nontrivial(text)


def prop_ssbs(rs, ctx):
    prepare(rs)
    text, sm = gen_ssb.decompile_ssb(rs)
    check(rs, text, sm, True, ctx)
    ctx.nontrivial(text)


RULE = ("Well-formed routine sets as for C02 (random control-flow graphs, compiler output, edited compiler output), every op marked with "
        "a number of its own where it has a parameter for it; decompiled to ExplorerScript (or the fallback) and to SsbScript. The text "
        "is cut into statements by an independent tokenizer. Every entry must be for an input op and at the very position where a "
        "statement that fits the op and contains its number begins; every statement with the number of an op, every return, end, hold, "
        "call, and every jump that an input jump after a plain op became, must have its entry; the text is compiled and the op with the "
        "number must be mapped to the same line. Non-trivial: more than two entries; distinct by text.")


def campaigns():
    kw = dict(case_seconds=60)
    S = gen_ssb
    return [
        Campaign("cfg", S.cfg_sets(), prop, 3000, 60000, **kw),
        Campaign("cfgbig", S.cfg_sets(maxblocks=25, small=False), prop, 500, 20000, shards=2, **kw),
        Campaign("nocalls", S.cfg_sets(calls=False, cross=10 ** 6, maxblocks=9), prop, 3000, 100000, shards=2, **kw),
        Campaign("odd", S.cfg_sets(odd=True, calls=False, maxblocks=3), prop, 1500, 40000, **kw),
        Campaign("mut", S.compiled_sets(mutate=4), prop, 1500, 40000, **kw),
        Campaign("compiled", S.compiled_sets(), prop, 2500, 60000, shards=2, **kw),
        Campaign("ssbs", S.cfg_sets(weird=True), prop_ssbs, 1500, 40000, **kw),
    ]


def main(replay=None):
    return run("C09", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "The statement of a condition is its if or elseif header; several conditions joined by || need one entry.",
        "An op of an inline context (op<actor X>()) needs no entry; if it has one, it is that of the op.",
        "Jumps need an entry where the text shows that an op was printed as jump; jumps that the decompiler adds have no op."])
