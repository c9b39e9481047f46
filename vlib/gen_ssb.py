"""SSB routine sets as plain data: strategies, conversion to and from the objects of the code under test."""
from __future__ import annotations

import copy
from dataclasses import dataclass, field

from hypothesis import strategies as st

from vlib import boot, esast as E, gen_es, ssbm
from vlib.gen_es import ints
from vlib.ssbm import JUMP_OPS, STOP_OPS, CTX_OPS, TEST_OPS, MOp


@dataclass
class SOp:
    name: str
    params: tuple = ()
    tgt: "SOp | None" = field(default=None, repr=False)


@dataclass
class SRoutine:
    kind: str  # def | actor | object | performer | coro
    target: tuple | None
    coro: str | None
    ops: list


@dataclass
class RSet:
    routines: list
    numbering: str = "bytes"  # how the reader numbers ops: bytes | seq0 | seq1 | wide
    order: tuple = ()  # the order in which the routines are laid out, if it is not that of the routine table

    def offsets(self) -> dict[int, int]:
        out, cur = {}, {"bytes": 9, "seq0": 0, "seq1": 1, "wide": 100}[self.numbering]
        for r in [self.routines[i] for i in self.order] if self.order else self.routines:
            for op in r.ops:
                out[id(op)] = cur
                if self.numbering.startswith("seq"):
                    cur += 1
                else:
                    n = sum(4 if p[0] == "pos" else 1 for p in op.params)
                    cur += 1 + n + (op.tgt is not None) + (7 if self.numbering == "wide" else 0)
        return out

    def model(self) -> list[list[MOp]]:
        off = self.offsets()
        return [[MOp(off[id(o)], o.name, tuple(o.params), off[id(o.tgt)] if o.tgt is not None else None) for o in r.ops]
                for r in self.routines]

    def infos(self) -> list[tuple]:
        return [("coro", r.coro) if r.kind == "coro" else (r.kind, r.target) for r in self.routines]

    def show(self) -> str:
        return ssbm.show(self.model(), self.infos())

    def __str__(self):
        return self.show()


def to_param(p):
    from explorerscript.ssb_converting import ssb_data_types as t

    k = p[0]
    if k == "int":
        return p[1]
    if k == "fix":
        return t.SsbOpParamFixedPoint.from_str(p[1])
    if k == "const":
        return t.SsbOpParamConstant(p[1])
    if k == "cstr":
        return t.SsbOpParamConstString(p[1])
    if k == "lstr":
        return t.SsbOpParamLanguageString(dict(p[1]))
    if k == "pos":
        return t.SsbOpParamPositionMarker(p[1], 2 if p[3] else 0, 2 if p[5] else 0, p[2], p[4])
    raise TypeError(p)


def to_objects(rs: RSet):
    """-> (infos, ops, coroutines) as a binary reader would deliver them (fresh objects)."""
    from explorerscript.ssb_converting import ssb_data_types as t

    off = rs.offsets()
    infos, ops, coros = [], [], []
    kinds = {"def": t.SsbRoutineType.GENERIC, "actor": t.SsbRoutineType.ACTOR, "object": t.SsbRoutineType.OBJECT,
             "performer": t.SsbRoutineType.PERFORMER, "coro": t.SsbRoutineType.COROUTINE}
    codes: dict[str, int] = {}
    for i, r in enumerate(rs.routines):
        if r.target is None:
            infos.append(t.SsbRoutineInfo(kinds[r.kind], 0))
        elif r.target[0] == "int":
            infos.append(t.SsbRoutineInfo(kinds[r.kind], r.target[1]))
        else:
            infos.append(t.SsbRoutineInfo(kinds[r.kind], -1, r.target[1]))
        if r.kind == "coro":
            coros.append(t.SsbCoroutine(i, r.coro))
        rr = []
        for o in r.ops:
            ps = [to_param(p) for p in o.params]
            if o.tgt is not None:
                ps.append(off[id(o.tgt)])
            rr.append(t.SsbOperation(off[id(o)], t.SsbOpCode(codes.setdefault(o.name, len(codes)), o.name), ps))
        ops.append(rr)
    return infos, ops, coros


def from_compiled(c, numbering="seq1") -> RSet:
    """Compiler output as a routine set (renumbered as a reader would)."""
    ops = ssbm.norm_ops(c.routine_ops)
    by = {}
    rs = []
    for i, r in enumerate(ops):
        k, t = ssbm.norm_info(c.routine_infos[i], c.named_coroutines[i])
        lst = []
        for o in r:
            s = SOp(o.name, o.params)
            by[o.offset] = s
            lst.append(s)
        rs.append(SRoutine(k, None if k == "coro" else t, t if k == "coro" else None, lst))
    for r, sr in zip(ops, rs):
        for o, s in zip(r, sr.ops):
            if o.target is not None:
                s.tgt = by[o.target]
    return RSet(rs, numbering)


def decompile(rs: RSet, objs=None, perf=boot.PERF, dmodes=None):
    from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
    from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler

    infos, ops, coros = objs or to_objects(rs)
    return ExplorerScriptSsbDecompiler(infos, ops, coros, perf, DungeonModeConstants(*(dmodes or DMODES))).convert()


def decompile_ssb(rs: RSet, objs=None):
    from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler

    infos, ops, coros = objs or to_objects(rs)
    return SsbScriptSsbDecompiler(infos, ops, coros).convert()


DMODES = ("DMODE_CLOSED", "DMODE_OPEN", "DMODE_REQUEST", "DMODE_OPEN_AND_REQUEST")


DMODE_NAMES = [DMODES, DMODES[::-1], ("OPEN", "CLOSED", "OR", "REQUESTED"), ("D_1", "$D_2", "D_0", "d_3")]  # what may be configured


def renamed(rs: RSet, names: dict) -> RSet:
    """A copy with constants renamed."""
    new = clone(rs)
    for r in new.routines:
        for o in r.ops:
            o.params = tuple(("const", names.get(p[1], p[1])) if p[0] == "const" else p for p in o.params)
    return new


def plain_dmodes(routines: list, names=DMODES) -> None:
    """Write the dungeon mode constants 0..3 as numbers where they stand for them (dungeon_mode(X) = ..., cases of its switch)."""
    def n(p):
        return ("int", names.index(p[1])) if p[0] == "const" and p[1] in names else p
    for r in routines:
        cases = False
        for o in r:
            if o.name == "flag_SetDungeonMode" and len(o.params) == 2:
                o.params = (o.params[0], n(o.params[1]))
            if o.name == "Case" and cases:
                o.params = tuple(map(n, o.params))
            cases = o.name == "SwitchDungeonMode" or cases and o.name.startswith("Case")


# ---------------------------------------------------------------- well-formedness


def wellformed(rs: RSet) -> str | None:
    """None if well-formed, else a reason."""
    ids = {id(o) for r in rs.routines for o in r.ops}
    if not rs.routines:
        return "no routines"
    for i, r in enumerate(rs.routines):
        for k, o in enumerate(r.ops):
            if (o.name in JUMP_OPS) != (o.tgt is not None):
                return "jump op without target"
            if o.tgt is not None and id(o.tgt) not in ids:
                return "dangling target"
        if r.ops:
            last, prev = r.ops[-1], r.ops[-2] if len(r.ops) > 1 else None
            if last.name != "Jump" and not (last.name in STOP_OPS and not (prev and prev.name in CTX_OPS)):
                return "runs off its end"
    # cycles of Jump ops only
    for r in rs.routines:
        for o in r.ops:
            seen = set()
            while o.name == "Jump":
                if id(o) in seen:
                    return "jump-only cycle"
                seen.add(id(o))
                o = o.tgt
    return None


# ---------------------------------------------------------------- strategies

REALNAMES = ["WaitEffect", "SetEffect", "camera_Move", "me_Play", "back_SetGround", "message_Talk", "screen_FadeIn", "Null",
             "supervision_Acting", "CallCommon", "Lock", "debug_Print", "Turn2Direction", "MovePositionMark"]
TEXTS = ["a", "Hello World", "", " lead", "trail ", "it's", 'say "hi"', "[CN]x", "two\nlines", "three\n\nlines", "é→日",
         "//no", "/* x */", "x;y{}", "@l", "\n", " \n b", "a\u2028b", "v\x0bt\x85", "end\n"]


CASEV = ("CaseValue", "CaseScenario")


OPERATOR_AT = {("BranchValue", 1): 10, ("BranchVariable", 1): 10, ("CaseValue", 0): 10, ("CaseScenario", 0): 10,
               ("CaseVariable", 0): 10, ("flag_CalcValue", 1): 4, ("flag_CalcVariable", 1): 4}


class SGen:
    def __init__(self, draw, texts=TEXTS, names=REALNAMES, small=False):
        self.draw, self.texts, self.names, self.small = draw, texts, names, small
        self.uid = 0
        self.odd = False

    def i(self, a, b):
        return self.draw(ints(a, b))

    def chance(self, k):
        return self.draw(ints(0, k - 1)) == k - 1

    def pick(self, xs):
        return xs[self.draw(ints(0, len(xs) - 1))]

    def u(self):
        self.uid += 1
        return ("int", self.uid)

    def const(self):
        return ("const", self.pick(gen_es.CONSTS))

    def num(self):
        k = self.i(0, 7)
        if k < 4:
            return ("int", self.i(-3, 300))
        if k < 7:
            return self.const()
        return ("int", self.pick([-16384, 16383, -1, 0]))

    def var(self):
        if self.chance(6):
            return ("int", self.i(0, 90))
        self.uid += 1
        return ("const", "$V%d" % self.uid)

    def text(self):
        if self.i(0, 2):
            return ("cstr", self.pick(self.texts))
        n = self.i(1, 3)
        return ("lstr", tuple(sorted((gen_es.LANGS[j], self.pick(self.texts)) for j in range(n))))

    def pos(self):
        x, y = [self.pick([-1, -1, -2, -40]) if self.chance(8) else self.i(0, 70) for _ in range(2)]
        return ("pos", self.pick(["m0", "Mark 1", "ab"]), x, self.chance(2), y, self.chance(2))

    def value(self):
        k = self.i(0, 9)
        if k < 6:
            return self.num()
        if k == 6:
            return ("fix", self.pick(["1.5", "-0.25", "12.0", "0.004"]))
        if k == 7:
            return self.pos()
        return self.text()

    def plain(self) -> SOp:
        return SOp(self.pick(self.names), (self.u(), *[self.value() for _ in range(self.i(0, 5 if self.small else 7) // 3)]))

    def _flag(self) -> SOp:
        k = self.i(0, 11)
        if k == 0:
            return SOp("flag_CalcBit", (self.var(), ("int", self.i(0, 40)), ("int", self.i(0, 1))))
        if k == 1:
            return SOp("flag_CalcValue", (self.var(), ("int", self.pick([1, 2, 3, 4, 0])), self.num()))
        if k == 2:
            return SOp("flag_CalcVariable", (self.var(), ("int", self.i(0, 4)), self.var()))
        if k == 3:
            return SOp("flag_Clear", (self.var(),))
        if k == 4:
            return SOp("flag_Initial", (self.var(),))
        if k == 5:
            return SOp("flag_ResetDungeonResult", ())
        if k == 6:
            return SOp("flag_ResetScenario", (self.var(),))
        if k == 7:
            return SOp("flag_SetAdventureLog", (self.num(),))
        if k == 8:
            return SOp("flag_SetDungeonMode", (self.num(), ("int", self.i(0, 3))))
        if k == 9:
            return SOp("flag_SetPerformance", (("int", self.i(0, 63)), ("int", self.i(0, 1))))
        if k == 10:
            return SOp("flag_SetScenario", (self.var(), ("int", self.i(0, 40)), ("int", self.i(0, 40))))
        return SOp("flag_Set", (self.var(), self.num()))

    def straight(self) -> list:
        """One plain statement's ops."""
        k = self.i(0, 9)
        if k < 6:
            return [self.plain()]
        if k < 8:
            return [self.flag()]
        if k == 8:
            return [SOp(self.pick(["lives", "object", "performer"]), (self.num(),)),
                    self.plain() if self.i(0, 2) else self.flag()]
        out = [SOp(self.pick(["message_SwitchTalk", "message_SwitchMonologue"]), (self.var(),))]
        for _ in range(self.i(0, 3)):
            out.append(SOp("CaseText", (self.num(), self.text())))
        if self.i(0, 1):
            out.append(SOp("DefaultText", (self.text(),)))
        return out

    def _branch(self) -> SOp:
        k = self.i(0, 13)
        if k < 3:
            return SOp("Branch", (self.var(), self.num()))
        if k == 3:
            return SOp("BranchBit", (self.var(), ("int", self.i(0, 40))))
        if k == 4:
            return SOp(self.pick(["BranchDebug", "BranchEdit", "BranchVariation"]), (("int", self.i(0, 1)),))
        if k == 5:
            return SOp("BranchPerformance", (("int", self.i(0, 63)), ("int", self.i(0, 1))))
        if k < 8:
            return SOp(self.pick(["BranchScenarioNow", "BranchScenarioNowAfter", "BranchScenarioNowBefore",
                                  "BranchScenarioAfter", "BranchScenarioBefore"]),
                       (self.var(), ("int", self.i(0, 40)), ("int", self.i(0, 40))))
        if k < 10:
            return SOp("BranchValue", (self.var(), ("int", self.pick([3, 4, 5, 6, 7, 8, 9, 10, 0, 1, 2])), self.num()))
        if k == 10:
            return SOp("BranchVariable", (self.var(), ("int", self.i(0, 10)), self.var()))
        if k == 11:
            return SOp("BranchExecuteSub", (self.num(),))
        if k == 12:
            return SOp("BranchSum", (self.u(), self.num(), self.num()))
        return SOp("Branch", (self.var(), self.u()))

    def _switch_op(self) -> SOp:
        k = self.i(0, 9)
        if k < 4:
            return SOp("Switch", (self.var(),))
        if k == 4:
            return SOp("SwitchScenario", (self.var(),))
        if k == 5:
            return SOp("SwitchScenarioLevel", (self.var(),))
        if k == 6:
            return SOp("SwitchRandom", (self.u(),))
        if k == 7:
            return SOp("SwitchDungeonMode", (self.u(),))
        if k == 8:
            return SOp("SwitchSector", ())
        return SOp(self.pick(["ProcessSpecial", "message_Menu", "main_EnterAdventure", "main_EnterRescueUser",
                              "main_EnterTraining", "main_EnterTraining2", "message_SwitchMenu", "message_SwitchMenu2"]),
                   (self.u(),))

    def _case_op(self, sw: SOp) -> SOp:
        if sw.name in ("message_SwitchMenu", "message_SwitchMenu2"):
            if self.i(0, 2):
                return SOp("CaseMenu", (self.text(),))
            return SOp("CaseMenu2", (self.num(),))
        k = self.i(0, 7)
        if k < 5:
            return SOp("Case", (self.u() if self.i(0, 1) else self.num(),))
        if k < 7:
            return SOp(CASEV[sw.name == "SwitchScenario"] if self.i(0, 5) else "CaseScenario",
                       (("int", self.pick([3, 4, 5, 6, 7, 8, 9, 10, 0, 1, 2])), self.num()))
        return SOp("CaseVariable", (("int", self.i(0, 10)), self.var()))

    def stop(self) -> list:
        k = self.i(0, 11)
        name = "Return" if k < 6 else "End" if k < 9 else "Hold" if k < 11 else "Destroy"
        if name == "Destroy" and self.chance(2):
            return [SOp("JumpCommon", (self.u(),))]
        return [SOp(name, (self.u(),) if name == "Destroy" else ())]

    # with `odd`, some parameters of the special ops are unusual (other kinds of values, flags other than 0 and 1)
    def twist(self, o: SOp) -> SOp:
        if self.odd and o.params and self.chance(6):
            i = self.i(0, len(o.params) - 1)
            old = o.params[i]
            if old[0] in ("cstr", "lstr"):
                return o
            new = self.pick([("int", 2), ("int", -1), ("int", 5), ("int", 300), ("const", boot.PERF), ("const", "$LOCAL"),
                             ("const", "DIR_UP"), ("fix", "1.5"), ("int", 0), ("int", 1)])
            if (o.name, i) in OPERATOR_AT and (new[0] != "int" or not 0 <= new[1] <= OPERATOR_AT[o.name, i]):
                return o
            o.params = o.params[:i] + (new,) + o.params[i + 1:]
        return o

    def flag(self):
        return self.twist(self._flag())

    def branch(self):
        return self.twist(self._branch())

    def switch_op(self):
        return self.twist(self._switch_op())

    def case_op(self, sw):
        return self.twist(self._case_op(sw))

    def headers(self, n, aliases=True):
        out = []
        coro = self.chance(4)
        for r in range(n):
            if coro and self.i(0, 3):
                out.append(SRoutine("coro", None, f"CORO_{r}", []))
                continue
            k = self.i(0, 5)
            kind = "def" if k < 3 else ["actor", "object", "performer"][k - 3]
            t = None
            if kind != "def":
                t = ("int", self.pick(gen_es.TARGETS)) if self.i(0, 1) else ("const", self.pick(["ACTOR_PLAYER", "NPC_1"]))
            out.append(SRoutine(kind, t, None, []))
        return out


@st.composite
def cfg_sets(draw, maxroutines=3, maxblocks=7, cross=8, small=True, calls=True, texts=TEXTS, alias=True, weird=False, odd=False):
    """Random control-flow graphs laid out in random order."""
    g = SGen(draw, small=small, texts=texts)
    g.odd = odd
    n = g.i(1, maxroutines)
    heads = g.headers(n)
    allblocks: list[list] = []  # (routine, ops)
    per: list[list] = []
    for r in range(n):
        if alias and r > 0 and g.chance(10):
            per.append([])
            continue
        bs = [[] for _ in range(g.i(1, maxblocks))]
        per.append(bs)
        allblocks += bs
    fix: list = []  # (op, block)

    def target(bs):
        if g.chance(cross):
            return g.pick(allblocks)
        return g.pick(bs)

    for r, bs in enumerate(per):
        for k, b in enumerate(bs):
            for _ in range(g.i(0, 4) // 2):
                b.extend(g.straight())
            t = g.i(0, 11)
            last = k == len(bs) - 1
            nxt = None
            if t < 4:
                op = g.branch()
                b.append(op)
                fix.append((op, target(bs)))
                nxt = "fall"
            elif t == 4:
                sw = g.switch_op()
                b.append(sw)
                for _ in range(g.i(0, 3)):
                    c = g.case_op(sw)
                    b.append(c)
                    fix.append((c, target(bs)))
                nxt = "fall"
            elif t < 7:
                op = SOp("Jump")
                b.append(op)
                fix.append((op, target(bs)))
            elif t == 7 and calls:
                op = SOp("Call")
                b.append(op)
                fix.append((op, target(bs)))
                nxt = "fall"
            elif t < 10:
                b.extend(g.stop())
            else:
                if not b:
                    b.extend(g.straight())
                nxt = "fall"
            if weird and g.chance(12):
                b.insert(g.i(0, len(b)), SOp(g.pick(["lives", "object", "performer"]), (g.num(),)))
            if weird and g.chance(12):
                op = g.case_op(SOp("Switch"))
                b.insert(g.i(0, len(b)), op)
                fix.append((op, target(bs)))
            if nxt == "fall" and last:
                if g.i(0, 1):
                    b.extend(g.stop())
                else:
                    op = SOp("Jump")
                    b.append(op)
                    fix.append((op, target(bs)))
    for op, b in fix:
        op.tgt = b[0]
    for h, bs in zip(heads, per):
        h.ops = [o for b in bs for o in b]
    rs = RSet(heads, g.pick(["bytes", "seq1", "seq0", "wide"]))
    if g.chance(6):
        rs.order = tuple(draw(st.permutations(range(len(heads)))))
    return rs


def compile_prog(prog):
    from vlib import es

    text = E.to_text(prog)
    return es.compile_es(text)


@st.composite
def compiled_sets(draw, cfg=gen_es.Cfg(), mutate=0):
    """Compiler output for generated programs; optionally with retargeted jumps, moved blocks."""
    k = draw(ints(0, 15))
    prog = draw(gen_es.forms() if k > 11 else gen_es.large() if k > 10 else gen_es.programs(cfg))
    try:
        rs = from_compiled(compile_prog(prog), draw(st.sampled_from(["bytes", "seq1", "seq0", "wide"])))
    except Exception:
        return None  # compiler defects are C01's and C10's business
    g = SGen(draw)
    for _ in range(g.i(0, mutate) if mutate else 0):
        ops = [o for r in rs.routines for o in r.ops]
        js = [o for o in ops if o.tgt is not None]
        k = g.i(0, 3)
        if k < 2 and js:
            g.pick(js).tgt = g.pick(ops)
        elif k == 2 and ops:
            r = g.pick([r for r in rs.routines if r.ops])
            # insert a jump somewhere
            r.ops.insert(g.i(0, len(r.ops) - 1), SOp("Jump", (), g.pick(ops)))
        elif ops:
            relayout(g, g.pick([r for r in rs.routines if r.ops]))
    return rs


def relayout(g, r):
    """Cut the routine at random places and permute the pieces, keeping behaviour by adding jumps."""
    n = len(r.ops)
    if n < 3:
        return
    cuts = sorted({g.i(1, n - 1) for _ in range(g.i(1, 3))})
    # never cut between a switch and its cases, a context op and its op, or inside a message switch
    good = []
    for c in cuts:
        if r.ops[c].name.startswith(("Case", "DefaultText")) or r.ops[c - 1].name in CTX_OPS:
            continue
        good.append(c)
    cuts = [0] + good + [n]
    pieces = [r.ops[a:b] for a, b in zip(cuts, cuts[1:])]
    nexts = [p[0] for p in pieces[1:]] + [None]
    for p, nx in zip(pieces, nexts):
        last = p[-1]
        ends = last.name == "Jump" or last.name in STOP_OPS and not (len(p) > 1 and p[-2].name in CTX_OPS)
        if nx is not None and not ends:
            p.append(SOp("Jump", (), nx))
    perm = g.draw(st.permutations(range(len(pieces))))
    first = pieces[0][0]
    out = [o for k in perm for o in pieces[k]]
    if out[0] is not first:
        out.insert(0, SOp("Jump", (), first))
    r.ops = out


def simplify_jumps(ops):
    return ops


def clone(rs: RSet) -> RSet:
    return copy.deepcopy(rs)
