"""Hypothesis strategies for ExplorerScript programs (sound by construction, no duplicate/undefined labels)."""
from __future__ import annotations

import copy
import os
from dataclasses import dataclass, replace
from functools import lru_cache

from hypothesis import strategies as st

from vlib import boot
from vlib import esast as E, layout

CONDS = ["==", "<", ">", "<=", ">=", "!=", "&", "^", "&<<", "TRUE", "FALSE"]
SCNCONDS = ["==", "<", ">", "<=", ">="]
ASGS = ["=", "-=", "+=", "*=", "/="]
TARGETS = [*range(0, 12), -1, -2, 255, 700, 65535]
CTXK = ["actor", "object", "performer"]
OPERHDR = ["ProcessSpecial", "message_Menu", "message_SwitchMenu", "message_SwitchMenu2", "main_EnterAdventure", "GetX"]
PLAINOPS = ["WaitEffect", "SetEffect", "camera_Move", "me_Play", "bgm_Stop", "MovePositionMark", "x", "_y1", "debugPrint",
            "ifx", "Turn2DirectionLives", "message_Talk", "positionX", "returnx", "SlidePosition3"]
CONSTS = ["ACTOR_PLAYER", "LEVEL_1", "BGM_STOP", "EFFECT_NONE", "$SCENARIO_MAIN", "$LOCAL", "$CRYSTAL_COLOR_01", "DIR_UP", "X_1"]
WORDS = ["a", "Hello World", "", " lead", "trail ", "it's", 'say "hi"', "[CN]\nnext", "two\nlines", "é→日", "x;y", "//no", "/*", "*/", "#", "{}",
         "$p0", "$p1", "$LOCAL", "LEVEL_1", "@l0", "7", "x(1);", "..."]
LANGS = ["english", "french", "german", "italian", "spanish", "japanese"]


@lru_cache(maxsize=None)
def ints(a, b):
    return st.integers(a, b)


BOOL = st.booleans()


@dataclass(frozen=True)
class Cfg:
    budget: int = 18
    depth: int = 4
    jumps: bool = True
    calls: bool = True
    loops: bool = True
    switches: bool = True
    msw: bool = True
    ctl: bool = True
    routines: int = 3
    alias: bool = True
    coro: bool = True
    macros: bool = False
    strings: bool = True
    posmarks: bool = True
    stopops: bool = True
    operhdr: bool = True
    ctx: bool = True
    small: bool = False
    rich: bool = False  # values of unusual content
    cr: bool = True  # strings may contain carriage returns (not in files: reading a file translates them)


FRAG = ["a", "B c", " ", "  ", "\t", "\n", "\n\n", "'", '"', "'''", '"""', "\\", "\\n", "\\\\", "\\'", "\\\"", "\n  x", "\n\ty",
        "é", "日本", "\U0001f600", "\x0b", "\x85", "\u2028", "\u3000", "//c", "/*", "*/", "{", "}", ";", "§", "@l", "$V", "\x00", "\x7f",
        "\ud800"]


@st.composite
def rich_text(draw, cr=True):
    n = draw(ints(0, 6))
    return "".join(draw(st.sampled_from((FRAG + ["\r", "\f", "\r\n"] if cr else FRAG[:-1]))) for _ in range(n))


RICH = rich_text().filter(lambda s: layout.spellable(s))
RICHF = rich_text(cr=False).filter(lambda s: layout.spellable(s))
RICHF1 = rich_text(cr=False).filter(lambda s: layout.spellable(s, True))
RICH1 = rich_text().filter(lambda s: layout.spellable(s, True))


class Gen:
    def __init__(self, draw, cfg: Cfg):
        self.draw = draw
        self.cfg = cfg
        self.left = cfg.budget
        self.uid = 0
        self.labels: list[E.Label] = []
        self.jumps: list = []
        self.nlabel = 0
        self.prefix = "l"
        self.loopdepth = 0
        self.casedepth = 0
        self.params: list[str] = []
        self.callable: list[E.Macro] = []
        self.in_macro = False
        self.weight = 0

    def i(self, a, b):
        return self.draw(ints(a, b))

    def pick(self, xs):
        return xs[self.draw(ints(0, len(xs) - 1))]

    def chance(self, k):
        """True about 1 in k; shrinks to False."""
        return self.draw(ints(0, k - 1)) == k - 1

    def u(self):
        self.uid += 1
        return self.uid

    # ---- values
    def const(self):
        if self.params and self.i(0, 2):
            return E.Const(self.pick(self.params))
        return E.Const(self.pick(CONSTS))

    def intlike(self):
        k = self.i(0, 9)
        if self.params and k < 5:
            return E.Const(self.pick(self.params))
        if k < 5:
            if self.cfg.rich and k < 2:
                return E.Int(self.i(-40000, 2**33))
            return E.Int(self.i(-3, 300))
        if k < 9:
            return self.const()
        return E.Fix(self.pick(["1.5", "-0.25", "0.5", "12.125", "-3.0"] + (["0.0", "-0.0", "100.10", "-20.004", "10.00"] if self.cfg.rich else [])))

    def var(self):
        k = self.i(0, 9)
        if k == 0:
            return E.Int(self.i(0, 60))
        if self.params and k < 4:
            return E.Const(self.pick(self.params))
        return E.Const("$V%d" % self.u())

    def word(self):
        if self.cfg.rich and self.i(0, 2):
            return self.draw(RICH if self.cfg.cr else RICHF)
        return self.pick(WORDS)

    def string(self):
        return E.Str(self.word())

    def langstr(self):
        n = self.i(1, 3)
        first = self.i(0, 3)
        return E.Lang(tuple((LANGS[(first + j) % 6], self.word()) for j in range(n)))

    def text(self):
        return self.langstr() if self.chance(3) else self.string()

    def pos(self):
        if self.cfg.rich:
            return E.Pos(self.draw(RICH1 if self.cfg.cr else RICHF1) if self.i(0, 1) else "m", self.i(-300, 300), self.chance(2), self.i(-5, 70), self.chance(2))
        return E.Pos(self.pick(["m0", "Mark 1", "ab", "$p0", "$V1"]), self.i(0, 70), self.chance(2), self.i(0, 70), self.chance(2))

    def value(self):
        k = self.i(0, 11)
        if k < 8 or not self.cfg.strings:
            return self.intlike()
        if k == 11 and self.cfg.posmarks:
            return self.pos()
        return self.text()

    # ---- statements
    def op(self, ctx_ok=True):
        name = self.pick(PLAINOPS)
        args = [E.Int(self.u())]
        for _ in range(self.i(0, 5) // 3 if self.cfg.small else self.i(0, 7) // 3):
            args.append(self.value())
        ctx = None
        if ctx_ok and self.cfg.ctx and self.chance(10):
            ctx = (self.pick(CTXK), self.intlike())
        return E.Op(name, args, ctx)

    def assign(self):
        k = self.i(0, 11)
        if k < 5:
            if self.chance(3):
                var = self.var() if not self.chance(3) else E.Const(boot.PERF)
                return E.ASet(var, self.i(0, 40), "=" , E.Int(self.i(0, 1)))
            return E.ASet(self.var(), None, self.pick(ASGS), self.intlike(), self.chance(3))
        if k == 5:
            return E.AClear(self.var())
        if k == 6:
            return E.AInit(self.var())
        if k == 7:
            return E.AReset(None if self.chance(3) else self.var())
        if k == 8:
            return E.AAdv(E.Int(self.u()))
        if k == 9:
            return E.ADun(self.intlike(), E.Int(self.i(0, 5)) if self.chance(2) else self.const())
        return E.AScn(self.var(), self.i(0, 40), self.i(0, 40))

    def label(self):
        la = E.Label(f"{self.prefix}{self.nlabel}", self.chance(6))
        self.nlabel += 1
        self.labels.append(la)
        return la

    def jump(self):
        j = E.Jump("?")
        self.jumps.append((j, self.i(0, 7)))
        return j

    def call(self):
        j = E.CallL("?")
        self.jumps.append((j, self.i(0, 7)))
        return j

    def ctl(self):
        kws = ["return", "end", "hold"]
        if self.loopdepth:
            kws += ["continue", "break_loop", "continue", "break_loop"]
        if self.casedepth:
            kws += ["break", "break", "break"]
        return E.Ctl(self.pick(kws))

    def with_(self):
        k = self.i(0, 9)
        if k < 6:
            s = self.op(False)
        elif k < 8:
            s = self.assign()
        elif k == 8 and self.cfg.ctl:
            s = E.Ctl(self.pick(["return", "end", "hold"]))
        elif k == 9 and self.cfg.calls:
            k2 = self.i(0, 3)
            s = self.call() if k2 < 2 else self.jump() if k2 == 2 and self.cfg.jumps else self.ctl()
        else:
            s = self.op(False)
        return E.With(self.pick(CTXK), self.intlike(), s)

    def if_hdr(self):
        k = self.i(0, 11)
        if k < 5:
            return E.HOp(self.var(), self.pick(CONDS), self.intlike(), self.chance(4))
        if k < 7:
            if self.chance(2):
                return E.HBit(boot.PERF not in self.params and self.chance(2), E.Const(boot.PERF), self.i(0, 40))
            return E.HBit(False, self.var(), self.i(0, 40))
        if k == 7:
            return E.HNeg(self.chance(2), self.pick(["debug", "edit", "variation"]))
        if k < 10:
            return E.HScn(self.var(), self.pick(SCNCONDS), self.i(0, 40), self.i(0, 40))
        if k == 11 and self.cfg.operhdr and self.chance(3):
            return E.HOper("BranchSum", [E.Int(self.u()), E.Int(self.i(0, 5)), E.Int(self.i(0, 5))])
        return E.HOp(self.var(), "==", E.Int(self.u()))

    def arm(self, d):
        return E.Arm(self.chance(3), [self.if_hdr() for _ in range(1 + (self.i(0, 4) // 3) + (self.i(0, 9) // 9))],
                     self.body(d))

    def if_(self, d):
        arms = [self.arm(d)]
        for _ in range(self.i(0, 5) // 4 + self.i(0, 7) // 7):
            arms.append(self.arm(d))
        els = self.body(d) if self.i(0, 1) else None
        return E.If(arms, els)

    def switch_hdr(self):
        k = self.i(0, 9)
        if k < 4:
            return E.SVar(self.var())
        if k == 4:
            return E.SScn(self.var(), self.i(0, 1))
        if k == 5:
            return E.SRandom(E.Int(self.u()))
        if k == 6:
            return E.SDun(E.Int(self.u()))
        if k == 7:
            return E.SSector()
        return E.SOper(self.pick(OPERHDR), [E.Int(self.u())])

    def case_hdr(self):
        k = self.i(0, 9)
        if k < 5:
            return E.CVal(E.Int(self.u()) if self.i(0, 2) else self.intlike())
        if k < 8:
            return E.COp(self.pick(CONDS), self.intlike(), self.chance(3))
        if k == 8:
            return E.CMenu(self.text())
        return E.CMenu2(self.intlike())

    def switch(self, d):
        n = self.i(0, 5) if not self.chance(8) else 0
        if n == 0 and not self.chance(4):
            n = 1
        dflt = self.i(0, n) if n and self.i(0, 1) else -1
        if n == 0 and self.chance(3):
            dflt = 0
        cases = []
        self.casedepth += 1
        total = n + (1 if dflt >= 0 else 0)
        for j in range(total):
            hdr = None if j == dflt else self.case_hdr()
            last = j == total - 1
            if not last and self.chance(4):
                body = []
            else:
                body = self.body(d)
                k = self.i(0, 9)
                if k < 6:
                    body.append(E.Ctl("break"))
                elif not body:
                    body.append(self.op())
            cases.append(E.Case(hdr, body))
        self.casedepth -= 1
        return E.Switch(self.switch_hdr(), cases)

    def mswitch(self):
        n = self.i(0, 3)
        dflt = self.i(0, n) if self.i(0, 1) else -1
        cases = []
        for j in range(n + (dflt >= 0)):
            if j == dflt:
                cases.append(E.MCase(None, self.text()))
            else:
                cases.append(E.MCase(E.CVal(self.intlike()), self.text()))
        return E.MSwitch(self.pick(["message_SwitchTalk", "message_SwitchMonologue"]), self.var(), cases)

    def loop(self, d):
        k = self.i(0, 3)
        if k == 3:
            init = self.forstmt()
            hdr = self.if_hdr()
            inc = self.forstmt()
            self.loopdepth += 1
            b = self.body(d)
            self.loopdepth -= 1
            return E.For(init, hdr, inc, b)
        self.loopdepth += 1
        b = self.body(d)
        self.loopdepth -= 1
        if k == 0:
            return E.Forever(b)
        return E.While(self.chance(2), self.if_hdr(), b)

    def forstmt(self):
        k = self.i(0, 9)
        if k < 5:
            return self.assign()
        if k < 8:
            return self.op()
        if k == 8 and self.cfg.jumps:
            return self.label()
        if k == 9 and self.cfg.calls:
            return self.call()
        return self.op()

    def mcall(self):
        # bound the size of the expansion
        fit = [m for m in self.callable if self.weight + m.weight <= 60]
        if not fit:
            return self.op()
        m = self.pick(fit)
        self.weight += m.weight
        args = [E.Const(boot.PERF) if self.chance(8) else self.value() for _ in m.params]
        if self.chance(6):
            args.append(self.value())  # surplus arguments are accepted
        return E.MCall(m.name, args)

    def stmt(self, d):
        self.left -= 1
        c = self.cfg
        k = self.i(0, 23)
        if k < 6:
            return self.op()
        if k < 8:
            return self.assign()
        if k == 8:
            return self.with_() if c.ctx else self.op()
        if k == 9:
            return self.mswitch() if c.msw else self.op()
        if k in (10, 11):
            return self.ctl() if c.ctl else self.op()
        if k in (12, 13):
            return self.label() if c.jumps else self.op()
        if k == 14:
            return self.jump() if c.jumps else self.op()
        if k == 15:
            return self.call() if c.calls and c.jumps and self.chance(2) else self.op()
        if k == 16 and self.callable:
            return self.mcall()
        if k == 17 and c.stopops and self.chance(4):
            return E.Op(self.pick(["Destroy", "JumpCommon"]), [E.Int(self.u())])
        if d <= 0:
            return self.mcall() if self.callable and k > 20 else self.op()
        if k < 20:
            return self.if_(d - 1)
        if k < 22:
            return self.switch(d - 1) if c.switches else self.if_(d - 1)
        return self.loop(d - 1) if c.loops else self.if_(d - 1)

    def body(self, d, minimum=0):
        out = []
        k = self.i(0, 9)
        # bias towards very short blocks: lone jumps/breaks and empty blocks are the interesting ones
        n = 0 if k == 0 else 1 if k < 5 else 2 if k < 8 else 3
        if k == 4 and (self.loopdepth or self.casedepth or self.cfg.jumps) and self.cfg.ctl:
            return [self.ctl() if self.loopdepth or self.casedepth or not self.cfg.jumps else self.jump()]
        n = max(n, minimum)
        for _ in range(n):
            if self.left <= 0 and len(out) >= minimum:
                break
            out.append(self.stmt(d))
        if self.cfg.jumps and self.chance(10):  # code that is only reached by a jump, at the end of a block
            if self.cfg.ctl:
                out.append(E.Ctl(self.pick(["end", "return", "hold"])))
            out.append(self.label())
        return out

    def top_body(self):
        out = [self.stmt(self.cfg.depth)]
        for _ in range(self.i(0, 6)):
            if self.left <= 0:
                break
            out.append(self.stmt(self.cfg.depth))
        if self.i(0, 2) == 0 and self.cfg.ctl:
            out.append(E.Ctl(self.pick(["return", "end", "hold"])))
        return out

    def resolve_jumps(self, body_lists):
        """Bind the pending jumps of this label scope to existing labels (adding one at the end if there is none)."""
        if self.jumps and not self.labels:
            body_lists[0].append(self.label())
        for j, k in self.jumps:
            j.name = self.labels[k % len(self.labels)].name
        self.jumps, self.labels = [], []

    def routines(self):
        c = self.cfg
        n = 1 + (self.i(0, 3) * c.routines) // 4 if c.routines > 1 else 1
        n = min(n, c.routines)
        per = self.left
        out = []
        coro = c.coro and self.chance(3)
        for r in range(n):
            self.left = max(3, per // n)
            if c.alias and r > 0 and self.chance(8):
                body = None
            else:
                body = self.top_body()
            if coro and self.i(0, 3):
                out.append(E.Routine("coro", r, None, f"CORO_{r}", body))
                continue
            k = self.i(0, 5)
            kind = "def" if k < 3 else CTXK[k - 3]
            tgt = None
            if kind != "def":
                tgt = E.Int(self.pick(TARGETS)) if self.i(0, 1) else E.Const(self.pick(["ACTOR_PLAYER", "NPC_1", "$X"]))
            out.append(E.Routine(kind, r, tgt, None, body, self.chance(4), self.chance(3)))
        self.resolve_jumps([r.body for r in out if r.body is not None])
        return out

    def macro(self, name, params, callees):
        save = (self.params, self.callable, self.left, self.prefix, self.in_macro)
        self.params, self.callable, self.in_macro = list(params), list(callees), True
        self.prefix = self.pick(["l", "m"])
        self.left = 6
        nl = self.nlabel
        self.nlabel = 0
        saved_j, saved_l = self.jumps, self.labels
        self.jumps, self.labels = [], []
        if self.chance(8):  # op-less and nearly op-less macros
            k = self.i(0, 3)
            body = [self.label()] if k == 0 else [E.Ctl("return")] if k == 1 else []
            if callees and k >= 2:
                body.append(self.mcall())
            if not body:
                body.append(self.op())
        else:
            body = self.top_body()
        self.resolve_jumps([body])
        self.jumps, self.labels = saved_j, saved_l
        self.nlabel = nl
        self.params, self.callable, self.left, self.prefix, self.in_macro = save
        m = E.Macro(name, list(params), body)
        m.weight = sum(1 for n in E.walk(body)) + self.weight
        self.weight = 0
        return m


@st.composite
def programs(draw, cfg: Cfg = Cfg()):
    g = Gen(draw, cfg)
    return E.Program(g.routines())


class FGen(Gen):
    """Every form of header, case, assignment and operand about equally often, in small programs."""

    def intlike(self):
        k = self.i(0, 7)
        if k < 2:
            return E.Int(self.pick([0, 1, 2, 3, 7, -1, 255, 16384, -16384, 65535]))
        if k < 4:
            return E.Const(self.pick(CONSTS))
        if k == 4:
            return E.Const(self.pick([boot.PERF, "$SCENARIO_MAIN", "DMODE_OPEN", boot.PERF[1:], boot.PERF + "_2"]) if self.chance(2) else boot.PERF)
        if k == 5:
            return E.Fix(self.pick(["1.5", "-0.25", "0.5", "-3.0"]))
        return E.Int(self.u())

    def var(self):
        k = self.i(0, 7)
        if k == 0:
            return E.Int(self.i(0, 60))
        if k == 1:
            return E.Const(boot.PERF)
        return E.Const("$V%d" % self.u()) if k < 5 else E.Const(self.pick(CONSTS))

    def num(self):
        return self.pick([0, 1, 2, 3, 10, 40])

    def assign(self):
        k = self.i(0, 9)
        if k < 2:
            return E.ASet(self.var(), self.num(), "=", E.Int(self.i(0, 1)) if self.i(0, 1) else self.intlike())
        if k < 5:
            return E.ASet(self.var(), None, self.pick(ASGS), self.intlike(), self.chance(2))
        if k == 5:
            return E.AClear(self.var()) if self.i(0, 1) else E.AInit(self.var())
        if k == 6:
            return E.AReset(None if self.chance(3) else self.var())
        if k == 7:
            return E.AAdv(self.intlike())
        if k == 8:
            return E.ADun(self.intlike(), E.Int(self.i(0, 4)) if self.chance(2) else self.intlike())
        return E.AScn(self.var(), self.num(), self.num())

    def if_hdr(self):
        k = self.i(0, 4)
        if k == 0:
            return E.HOp(self.var(), self.pick(CONDS), self.intlike(), self.chance(2))
        if k == 1:
            perf = self.chance(2)
            return E.HBit(perf and self.chance(2), E.Const(boot.PERF) if perf else self.var(), self.num())
        if k == 2:
            return E.HNeg(self.chance(2), self.pick(["debug", "edit", "variation"]))
        if k == 3:
            return E.HScn(self.var(), self.pick(SCNCONDS), self.num(), self.num())
        name = self.pick(sorted(ssbm_branches()))
        return E.HOper(name, [self.intlike() for _ in range(ssbm_branches()[name])])

    def switch_hdr(self):
        return [lambda: E.SVar(self.var()), lambda: E.SScn(self.var(), 0), lambda: E.SScn(self.var(), 1),
                lambda: E.SRandom(self.intlike()), lambda: E.SDun(self.intlike()), lambda: E.SSector(),
                lambda: E.SOper(self.pick(OPERHDR + ["SwitchScenario", "Switch", "SwitchValue", "SwitchDungeonMode"]), [self.intlike()]),
                ][self.i(0, 6)]()

    def case_hdr(self):
        k = self.i(0, 4)
        if k < 3:
            return E.CVal(self.intlike()) if k == 2 else E.COp(self.pick(CONDS), self.intlike(), k == 0)
        return E.CMenu(self.text()) if k == 3 else E.CMenu2(self.intlike())

    def stmt(self, d):
        self.left -= 1
        k = self.i(0, 11) if d > 0 else self.i(0, 5)
        if k < 1:
            return self.op()
        if k < 3:
            return self.assign()
        if k == 3:
            return self.with_()
        if k == 4:
            return self.mswitch()
        if k == 5:
            return self.pick([self.ctl, self.label, self.jump, self.op])()
        if k < 8:
            return self.if_(d - 1)
        if k < 11:
            return self.switch(d - 1)
        return self.loop(d - 1)


def ssbm_branches():
    from vlib import ssbm
    return ssbm.BRANCH_ARITY


@st.composite
def forms(draw):
    g = FGen(draw, Cfg(budget=5, depth=2, routines=1))
    return E.Program(g.routines())


CFGS = {
    "full": Cfg(),
    "small": Cfg(budget=6, depth=3, routines=2, small=True),
    "nojump": Cfg(jumps=False, budget=22, routines=1),
    "deep": Cfg(budget=40, depth=6, routines=1, small=True),
}


def any_programs(**over):
    return st.one_of(*[programs(replace(c, **over)) for c in CFGS.values()], forms(), large())


# ---------------------------------------------------------------- large programs


class Enlarge:
    """Makes parts of a program much larger than the generators above do: behaviour that depends on a size (numbers of two or three digits,
    identifiers sorted as texts, caches and searches with a limit) only shows there."""

    def __init__(self, draw, prog):
        self.g = Gen(draw, Cfg(budget=4, routines=1, small=True))
        self.prog, self.n = prog, 0

    def new(self):
        self.n += 1
        return self.n

    def op(self, name="Big"):
        return E.Op(name, [E.Int(self.new())])

    def bodies(self):
        out = []

        def walk(stmts):
            out.append(stmts)
            for s in stmts:
                if isinstance(s, E.If):
                    for a in s.arms:
                        walk(a.body)
                    if s.els is not None:
                        walk(s.els)
                elif isinstance(s, E.Switch):
                    for c in s.cases:
                        walk(c.body)
                elif isinstance(s, (E.Forever, E.While, E.For)):
                    walk(s.body)

        for o in self.prog.routines + self.prog.macros:
            if o.body is not None:
                walk(o.body)
        return out

    def body(self):
        bs = self.bodies()
        return self.g.pick(bs) if bs else None

    def some(self, cls, make):
        """A node of the program, or a new one that is put into it"""
        ex = [n for o in self.prog.routines + self.prog.macros if o.body is not None for n in E.walk(o) if isinstance(n, cls)]
        if ex and self.g.chance(2):
            return self.g.pick(ex)
        b = self.body()
        if b is None:
            return None
        n = make()
        b.insert(self.g.i(0, len(b)), n)
        return n

    def one(self, macros=False):
        getattr(self, "b_" + self.g.pick((["macros"] * 6 if macros else []) + ["pad", "cases", "mcases", "arms", "hdrs", "labels", "labels", "routines", "routines", "args", "nest", "loops"]))()

    def b_pad(self):
        b = self.body()
        if b is not None:
            at = self.g.i(0, len(b))
            b[at:at] = [self.op() for _ in range(self.g.i(5, 130))]

    def small_body(self):
        k = self.g.i(0, 3)
        return [self.op()] if k else []

    def b_cases(self):
        sw = self.some(E.Switch, lambda: E.Switch(E.SVar(E.Const("$A")), [E.Case(E.CVal(E.Int(1)), [self.op()])]))
        if sw is None:
            return
        at = self.g.i(0, max(0, len(sw.cases) - 1))
        style = self.g.i(0, 3)  # what the cases have in common
        new = []
        for j in range(self.g.i(5, 40)):
            body = [] if style == 1 or style == 2 and j % 3 else [self.op()] + ([E.Ctl("break")] if style != 3 and j % 7 != 5 else [])
            new.append(E.Case(E.CVal(E.Int(self.new())), body))
        if not new[-1].body:
            new[-1].body = [self.op(), E.Ctl("break")]
        sw.cases[at:at] = new

    def b_mcases(self):
        sw = self.some(E.MSwitch, lambda: E.MSwitch("message_SwitchTalk", E.Const("$A"), [E.MCase(None, E.Str("d"))]))
        if sw is not None:
            at = self.g.i(0, len(sw.cases))
            sw.cases[at:at] = [E.MCase(E.CVal(E.Int(self.new())), E.Str(f"t{self.new()}")) for _ in range(self.g.i(5, 25))]

    def if_(self):
        return E.If([E.Arm(self.g.chance(3), [E.HOp(E.Const("$A"), "==", E.Int(self.new()))], self.small_body())], self.small_body() if self.g.chance(2) else None)

    def b_arms(self):
        n = self.some(E.If, self.if_)
        if n is not None:
            at = self.g.i(0, len(n.arms))
            n.arms[at:at] = [E.Arm(j % 5 == 3, [E.HOp(E.Const("$A"), "==", E.Int(self.new()))], self.small_body()) for j in range(self.g.i(5, 20))]

    def b_hdrs(self):
        n = self.some(E.If, self.if_)
        if n is not None:
            a = self.g.pick(n.arms)
            at = self.g.i(0, len(a.hdrs))
            a.hdrs[at:at] = [E.HOp(E.Const("$B"), "==", E.Int(self.new())) for _ in range(self.g.i(5, 15))]

    def b_labels(self):
        """Many labels, in one body or over several, and jumps to them from anywhere in the same routine or macro"""
        os_ = [o for o in self.prog.routines + self.prog.macros if o.body is not None]
        if not os_:
            return
        o = self.g.pick(os_)
        keep, self.prog = self.prog, E.Program([o] if isinstance(o, E.Routine) else [], [o] if isinstance(o, E.Macro) else [])
        bs = self.bodies()
        self.prog = keep
        n = self.g.i(5, 25)
        names = [f"big_{self.new()}" for _ in range(n)]
        where = self.g.i(0, 2)
        for j, nm in enumerate(names):
            b = bs[0] if where == 0 else self.g.pick(bs)
            at = self.g.i(0, len(b)) if where else len(b) - (len(b) > 0)
            b[at:at] = [E.Label(nm)] + ([self.op()] if j % 4 else [])
        step = self.g.i(1, n)
        for j in range(self.g.i(1, n)):
            b = bs[0] if where == 0 else self.g.pick(bs)
            jump = E.Jump(names[(j * step) % n])
            b.insert(self.g.i(0, len(b)), E.If([E.Arm(j % 3 == 2, [E.HOp(E.Const("$J"), "==", E.Int(self.new()))], [jump])], None))

    def b_routines(self):
        rs = self.prog.routines
        if not rs:
            return
        coro = rs[0].kind == "coro"
        n = self.g.i(5, 14)
        names = [f"bigr_{self.new()}" for _ in range(n)]
        cross = self.g.chance(2)
        new = []
        for j in range(n):
            if j % 6 == 5:
                body = None  # alias previous
            else:
                body = [self.op()]
                if cross:
                    far = names[(j * 5 + 3) % n] if ((j * 5 + 3) % n) % 6 != 5 else names[0]
                    body += [E.Label(names[j]), self.op(), E.If([E.Arm(False, [E.HOp(E.Const("$R"), "==", E.Int(self.new()))], [E.Jump(far)])], None)]
                body.append(E.Ctl(["end", "return", "hold"][j % 3]))
            kind = "coro" if coro else ["def", "actor", "object", "performer"][j % 4]
            new.append(E.Routine(kind, len(rs) + j, None if kind in ("def", "coro") else E.Int(self.new()), f"CORO_BIG{self.new()}" if coro else None, body))
        rs += new
        if self.prog.order is not None:
            self.prog.order = list(self.prog.order) + new

    def b_args(self):
        ex = [n for o in self.prog.routines + self.prog.macros if o.body is not None for n in E.walk(o) if type(n) is E.Op]
        b = self.body()
        if b is not None:
            vals = [E.Int(self.new()), E.Const("CONST_X"), E.Str("text"), E.Const("$V"), E.Dec("1.5") if hasattr(E, "Dec") else E.Int(2)]
            b.insert(self.g.i(0, len(b)), E.Op("Long", [vals[(j * 3) % 4] for j in range(self.g.i(5, 25))]))

    def nested(self, make):
        b = self.body()
        if b is None:
            return
        k = self.g.i(0, len(b))
        inner = [self.op()]
        for j in range(self.g.i(4, 9)):
            inner = make(j, inner)
        b[k:k] = inner

    def b_macros(self):
        """Many macros that call each other (in any order of definition), and macros with many parameters"""
        n, tag = self.g.i(3, 16), self.new()
        b = self.body()
        names = [f"bigm{tag}_{j}" for j in range(n)]
        pars = [[f"$b{k}" for k in range(self.g.pick([0, 1, 2, 11, 12]))] for _ in range(n)]
        new = []
        for j in range(n):
            body = [E.Op("Big", [E.Const(p) for p in reversed(pars[j])] + [E.Int(self.new())])]
            for _ in range(self.g.pick([0, 1, 1, 2]) if j < n - 1 and j < 6 else 1 if j < n - 1 else 0):
                t = self.g.i(j + 1, n - 1) if j >= 6 else j + 1
                vals = [E.Const(p) for p in pars[j]]
                body.append(E.MCall(names[t], [vals[(k * 7 + 1) % len(vals)] if vals and k % 3 else E.Int(self.new()) for k in range(len(pars[t]))]))
            if j % 3 == 1:
                body.insert(self.g.i(0, len(body)), E.Label(f"bl{tag}"))
            if j % 4 == 2:
                body.insert(1, E.If([E.Arm(False, [E.HOp(E.Const("$M"), "==", E.Int(self.new()))], [E.Ctl("return")])], None))
            new.append(E.Macro(names[j], pars[j], body))
        k = self.g.i(0, 2)
        new = new if k == 0 else new[::-1] if k == 1 else [new[(j * 5 + 2) % n] for j in range(n)] if n % 5 else new[::2] + new[1::2]
        self.prog.macros += new
        if self.prog.order is not None:
            self.prog.order = list(self.prog.order) + new
        if b is not None:
            for _ in range(self.g.i(1, 2)):
                t = self.g.i(0, n - 1)
                b.insert(self.g.i(0, len(b)), E.MCall(names[t], [E.Int(self.new()) for _ in pars[t]]))

    def b_nest(self):
        style = self.g.i(0, 2)

        def make(j, inner):
            h = [E.HOp(E.Const("$N"), "==", E.Int(self.new()))]
            if style == 2 and j % 2:
                return [E.Switch(E.SVar(E.Const("$N")), [E.Case(E.CVal(E.Int(self.new())), [self.op(), E.Ctl("break")]), E.Case(E.CVal(E.Int(self.new())), inner + [E.Ctl("break")])])]
            return [self.op(), E.If([E.Arm(j % 3 == 1, h, inner)], [self.op()] if style else None)] + ([self.op()] if j % 2 else [])

        self.nested(make)

    def b_loops(self):
        def make(j, inner):
            h = E.HOp(E.Const("$L"), "==", E.Int(self.new()))
            return [[E.While(j % 2 == 1, h, inner)], [E.For(self.op(), h, self.op(), inner)],
                    [E.Forever(inner + [E.If([E.Arm(False, [h], [E.Ctl("break_loop")])], None)])]][j % 3] + [self.op()]

        self.nested(make)


@st.composite
def large(draw, base=None, most=2):
    """Programs with parts that are much larger than those of the other generators."""
    prog = copy.deepcopy(draw(base if base is not None else programs(CFGS["small"])))
    e = Enlarge(draw, prog)
    for _ in range(e.g.i(1, most)):
        e.one()
    return prog


@st.composite
def large_projects(draw, cfg=None, maxfiles=3, most=2):
    proj = copy.deepcopy(draw(projects(cfg or Cfg(budget=6, routines=1, small=True, depth=2), maxfiles)))
    for j in range(most):
        e = Enlarge(draw, draw(st.sampled_from(proj.files)).prog)
        e.n = 1000 * j
        e.one(True)
    return proj


# ---------------------------------------------------------------- projects: macros over several files


@dataclass
class File:
    path: str  # relative to the project root
    imports: list  # of (style, target file index); style rel | abs | lookup
    prog: E.Program


@dataclass
class Project:
    files: list  # of File, main file last
    lookup: list  # lookup directories relative to the root
    rel_lookup: bool  # hand the lookup directories over relative to the importing directory
    decoys: list  # paths of files that must never be picked

    @property
    def main(self):
        return self.files[-1]

    def all_macros(self):
        return {m.name: m for f in self.files for m in f.prog.macros}


PARAMS = [["$p0", "$p1", "$p2"], ["$p0", "$p1", "$p2"], ["$p2", "$p1", "$p0"], ["$b", "$a", "$p"], ["$p1", "$p10", "$p"], ["$LOCAL", "$V1", "$p0"],
          ["$p0", boot.PERF, "$p2"]]
NAMES = ["walk", "Talk2", "m_a", "Z", "intro", "x9", "again", "Macro_1", "l0", "WaitEffect"]
DIRS = ["proj", "proj/sub", "other", "lib1", "lib2", "lib3/deep", "proj2", "pro", "proj/sub/proj", "lib1b"]
FILENAMES = ["f{}.exps"] * 6 + ["f{}", "f {}.exps", "it's {}.x.exps", "é{}.exps", "main{}.exps", "same.exps", "same.exps", "main.exps"]
LOOKUPS = ["lib1", "lib2", "lib3"]


def spelled(proj: Project, importer: File, style: str, target: File, root: str) -> str:
    if style == "abs":
        return root + "/" + target.path
    if style == "lookup":
        for lp in proj.lookup:
            name = target.path[len(lp) + 1:]
            if target.path == lp + "/" + name:
                return name
            if any(f.path == f"{lp}/{target.path.split('/', 1)[1]}" for f in proj.files):
                break  # that one would be found first
    rel = os.path.relpath(target.path, os.path.dirname(importer.path))
    return rel if rel.startswith(".") else "./" + rel


@st.composite
def projects(draw, cfg: Cfg = Cfg(budget=14, routines=2), maxfiles=3):
    g = Gen(draw, cfg)
    nm = g.i(1, 6)
    nf = g.i(0, maxfiles)  # imported files
    names = draw(st.permutations(NAMES))[:nm]
    lookup = list(draw(st.permutations(LOOKUPS)))
    files = []
    for k in range(nf):
        path = f"{g.pick(DIRS)}/{g.pick(FILENAMES).format(k)}"
        if path == "proj/main.exps" or any(path == f.path for f in files):
            path = f"{os.path.dirname(path)}/f{k}.exps"
        files.append(File(path, [], E.Program()))
    files.append(File("proj/main.exps", [], E.Program()))
    # imports: file k imports lower numbered files
    reach: list[set] = []
    for k, f in enumerate(files):
        r = {k}
        for j in range(k):
            want = g.i(0, 2) > 0 if k == nf else g.chance(2)
            if want:
                styles = ["rel", "abs"]
                if files[j].path.startswith("lib"):
                    styles += ["lookup", "lookup"]
                f.imports.append((g.pick(styles), j))
                r |= reach[j]
        f.imports = list(draw(st.permutations(f.imports)))
        reach.append(r)
    # macros are created callees first and then assigned to files
    made: list = []
    for k in range(nm):
        fi = g.i(0, nf)
        callees = [m for (m, mf) in made if mf in reach[fi]]
        params = g.pick(PARAMS)[:g.i(0, 3)]
        made.append((g.macro(names[k], params, callees), fi))
    for k, f in enumerate(files):
        f.prog.macros = list(draw(st.permutations([m for m, mf in made if mf == k])))
    g.left = cfg.budget
    g.callable = [m for m, mf in made if mf in reach[nf]]
    main = files[-1].prog
    main.routines = g.routines()
    if g.callable and not any(isinstance(n, E.MCall) for n in E.walk(main.routines)):
        for r in main.routines:
            if r.body is not None:
                r.body.insert(0, g.mcall())
    if main.macros and g.chance(2):
        order = list(main.macros) + list(main.routines)
        # macros may stand anywhere, routines keep their order
        pos = draw(st.permutations(range(len(order))))
        slots = sorted(pos[: len(main.macros)])
        ms, rs = iter(main.macros), iter(main.routines)
        main.order = [next(ms) if k in slots else next(rs) for k in range(len(order))]
    decoys, legal = [], set()
    for f in files[:-1]:
        for n, lp in enumerate(lookup):
            if f.path.startswith(lp + "/"):
                legal |= {lp1 + f.path[len(lp):] for lp1 in lookup[:n]}
                for lp2 in lookup[n + 1:]:
                    if g.chance(2):
                        decoys.append(lp2 + f.path[len(lp):])
    # where an import would lead if it were resolved from somewhere else
    dirs = sorted({os.path.dirname(f.path) for f in files} | set(lookup))
    proj = Project(files, lookup, False, [])
    for f in files:
        for style, j in f.imports:
            if style != "abs":
                spelling = spelled(proj, f, style, files[j], "/")
                for d in dirs:
                    at = os.path.normpath(d + "/" + spelling)
                    if (style == "rel" or d not in lookup) and not at.startswith("..") and at not in legal and g.i(0, 1):
                        decoys.append(at)
    taken = {f.path for f in files}
    return Project(files, lookup, g.chance(4), sorted({d for d in decoys if d not in taken}))
