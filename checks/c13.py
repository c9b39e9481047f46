"""C13: structured programs decompile to structured text."""
import re
from collections import Counter

from hypothesis import strategies as st

from vlib import boot, es, esast as E, gen_es, gen_ssb, ssbm
from vlib.harness import Campaign, Discard, Violation, run

OPS = ["WaitEffect", "Turn2Direction", "se_Play", "Xyz", "message_Talk", "camera_Move", "bgm_Stop"]
CONDS = ["==", "!=", "<", ">", "<=", ">=", "&", "^", "&<<", "TRUE", "FALSE"]


class Flat(gen_es.Gen):
    def __init__(self, draw, cfg):
        super().__init__(draw, cfg)
        self.n = 10000
        self.wide = False
        self.plain, self.hdrs = [], []  # markers

    def mk(self, into):
        self.n += 1
        into.append(self.n)
        return self.n

    def simple(self):
        m = self.mk(self.plain)
        k = self.i(0, 11)
        if k < 6:
            a = [E.Int(m)]
            if k == 1:
                a.append(self.value())
            if k == 2:
                a.insert(0, self.value())
            return E.Op(self.pick(OPS), a)
        if k == 6:
            return E.ASet(E.Const(self.pick(["$A", "$B"])), None, self.pick(["=", "+=", "-=", "*=", "/="]), E.Int(m))
        if k == 7:
            return E.ASet(E.Const("$A"), None, self.pick(["=", "+="]), E.Const(f"$V{m}"), True)
        if k == 8:
            return E.ASet(E.Const(self.pick(["$A", boot.PERF])), m, "=", E.Int(self.i(0, 1)))
        if k == 9:
            return self.pick([E.AClear, E.AInit, E.AReset])(E.Const(f"$V{m}"))
        if k == 10:
            return E.AAdv(E.Int(m)) if self.i(0, 1) else E.AScn(E.Const("$SCENARIO_MAIN"), m, self.i(0, 3))
        return E.ADun(E.Int(m), E.Const(self.pick(gen_ssb.DMODES)))

    def stmt_plain(self):
        k = self.i(0, 9)
        if k == 8:
            return E.With(self.pick(["actor", "object", "performer"]), self.pick([E.Int(self.i(0, 9)), E.Const("ACTOR_A")]), self.simple())
        if k == 9:
            n = self.many(20) or self.i(1, 3)
            d = self.i(0, n)
            cs = [E.MCase(None if j == d else E.CVal(E.Int(self.mk(self.hdrs))), E.Str(f"T{self.mk(self.plain)}")) for j in range(n)]
            return E.MSwitch(self.pick(["message_SwitchTalk", "message_SwitchMonologue"]), E.Const("$A"), cs)
        return self.simple()

    def many(self, hi):
        """A large number, if large programs are asked for"""
        return self.i(4, hi) if self.wide and self.i(0, 4) == 0 else 0

    def block(self, lo=0):
        big = self.many(150)
        if big:
            return [E.Op("Wide", [E.Int(self.mk(self.plain))]) for _ in range(big)] + ([self.stmt_plain()] if self.chance(2) else [])
        k = self.i(0, 9)
        return [self.stmt_plain() for _ in range(max(lo, 0 if k < 2 else 1 if k < 7 else 2 if k < 9 else 3))]

    def hdr(self):
        k = self.i(0, 9)
        m = lambda: self.mk(self.hdrs)
        if k < 4:
            return E.HOp(E.Const(self.pick(["$A", "$B"])), self.pick(CONDS[:9]), E.Int(m()))
        if k == 4:
            return E.HOp(E.Const("$A"), self.pick(CONDS[:9]), E.Const(f"$V{m()}"), True)
        if k == 5:
            return E.HBit(False, E.Const("$A"), m())
        if k == 6:
            return E.HBit(self.chance(2), E.Const(boot.PERF), m())
        if k == 7:
            return E.HNeg(self.chance(2), self.pick(["debug", "edit", "variation"]))
        if k == 8:
            return E.HScn(E.Const("$SCENARIO_MAIN"), self.pick(["==", "<", ">", "<=", ">="]), m(), self.i(0, 3))
        return E.HOper(self.pick(["BranchSum", "BranchExecuteSub"]), [E.Int(m())]) if False else E.HOp(E.Const("$C"), "==", E.Int(m()))

    def if_flat(self):
        arms = [E.Arm(self.chance(4), [self.hdr() for _ in range(self.many(14) or (1 if self.i(0, 2) else self.i(2, 3)))], self.block())
                for _ in range(self.many(14) or (1 if self.i(0, 2) < 2 else self.i(2, 4)))]
        return E.If(arms, self.block() if self.i(0, 1) else None)

    def sw_hdr(self):
        k = self.i(0, 6)
        m = self.mk(self.hdrs)
        return [lambda: E.SVar(E.Const(f"$V{m}")), lambda: E.SVar(E.Const(f"$V{m}")), lambda: E.SScn(E.Const(f"$V{m}"), self.i(0, 1)), lambda: E.SRandom(E.Int(m)),
                lambda: E.SDun(E.Int(m)), lambda: E.SVar(E.Const(f"$V{m}")),
                lambda: E.SOper(self.pick(["SwitchValue", "message_SwitchMenu", "ProcessSpecial", "SwitchDirection"]), [E.Int(m)])][k]()

    def case_hdr(self):
        k = self.i(0, 9)
        m = self.mk(self.hdrs)
        if k < 6:
            return E.CVal(E.Int(m))
        if k < 8:
            return E.COp(self.pick(CONDS[:9]), E.Int(m), False)
        return E.CMenu(E.Str(f"M{m}")) if k == 8 else E.CMenu2(E.Int(m))

    def switch_flat(self):
        n = self.many(40) or (1 if self.i(0, 4) == 0 else self.i(1, 5))
        d = self.i(0, n - 1) if self.i(0, 1) else -1
        cs = []
        run = 0  # this many of the next cases share a block
        for j in range(n):
            body = []
            run = run - 1 if run > 0 else self.many(30) if n > 4 else 0
            if j == n - 1 or run == 0 and not self.chance(4):
                body = self.block(0 if self.chance(4) else 1) + [E.Ctl("break")]
            cs.append(E.Case(None if j == d else self.case_hdr(), body))
        return E.Switch(self.sw_hdr(), cs)

    def routine_flat(self):
        out = []
        for _ in range(self.i(1, self.cfg.budget)):
            k = self.i(0, 6)
            out.append(self.stmt_plain() if k < 2 else self.if_flat() if k < 5 else self.switch_flat())
        return out + [E.Ctl(self.pick(["return", "end", "hold"]))]


@st.composite
def flat(draw, budget=5, routines=2, wide=False):
    g = Flat(draw, gen_es.Cfg(budget=budget, strings=True, small=True, jumps=False, calls=False))
    g.wide = wide
    rs = []
    coro = g.chance(5)
    for j in range(g.i(1, routines)):
        if coro:
            rs.append(E.Routine("coro", j, None, f"CORO_{j}", g.routine_flat()))
        else:
            kind = g.pick(["def", "def", "actor"])
            rs.append(E.Routine(kind, j, E.Int(1) if kind == "actor" else None, None, g.routine_flat()))
    return E.Program(rs), g.plain, g.hdrs


STRIP = re.compile(r"//[^\n]*|/\*.*?\*/", re.S)
LITERAL = re.compile(r"'''.*?'''|\"\"\".*?\"\"\"|'(?:\\.|[^\\'])*'|\"(?:\\.|[^\\\"])*\"", re.S)


def prop(case, ctx):
    prog, plain, hdrs = case
    src = E.to_text(prog)
    try:
        c = es.compile_es(src)
    except Exception as e:
        raise Violation(f"valid program rejected: {type(e).__name__}: {e}", src)
    rs = gen_ssb.from_compiled(c)
    try:
        text, _ = gen_ssb.decompile(rs)
    except Exception as e:
        raise Violation(f"decompiling raised {type(e).__name__}: {e}", src)
    shown = src + "\n=== decompiled ===\n" + text
    if re.search(r"//\?:\s*is-ssb-script", text):
        raise Violation("decompiled to SsbScript", shown, sig="fallback")
    code = LITERAL.sub(lambda m: " " + m[0] + " ", text)
    bare = LITERAL.sub(" '' ", text)
    if re.search(r"\bjump\b", bare):
        raise Violation("the decompiled text has a jump", shown, sig="jump")
    count = Counter(int(x) for x in re.findall(r"(?<!\d)1\d{4}(?!\d)", code))
    for m in plain:
        if count[m] != 1:
            raise Violation(f"the statement with {m} is printed {count[m]} times", shown, sig="count")
    ifs = sum(isinstance(n, E.If) for r in prog.routines for n in r.body)
    sws = sum(isinstance(n, E.Switch) for r in prog.routines for n in r.body)
    if ifs + sws:
        ctx.nontrivial(src)
    ctx.label(f"ifs:{min(ifs, 4)}", f"switches:{min(sws, 4)}")


RULE = ("Flat structured programs as the property describes them, every plain statement carrying a number of its own. Non-trivial: at "
        "least one if or switch; distinct by source.")


def campaigns():
    return [
        Campaign("flat", flat(), prop, 4000, 60000),
        Campaign("tiny", flat(2, 1), prop, 4000, 40000),
        Campaign("wide", flat(2, 2, True), prop, 1000, 12000),
        Campaign("long", flat(12, 3), prop, 800, 10000),
    ]


def main(replay=None):
    return run("C13", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "All cases with statements end in a break, the last one too."])
