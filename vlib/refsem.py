"""Reference semantics of ExplorerScript: AST -> LTS. Written from docs/language_spec.rst and the property text."""
from __future__ import annotations

from vlib import esast as E
from vlib.lts import N
from vlib.ssbm import STOP_OPS

COND = {"FALSE": 0, "TRUE": 1, "==": 2, ">": 3, "<": 4, ">=": 5, "<=": 6, "!=": 7, "&": 8, "^": 9, "&<<": 10}
CALC = {"=": 0, "-=": 1, "+=": 2, "*=": 3, "/=": 4}
CTXOP = {"actor": "lives", "object": "object", "performer": "performer"}
SCN = {"==": "BranchScenarioNow", "<": "BranchScenarioBefore", ">": "BranchScenarioAfter",
       "<=": "BranchScenarioNowBefore", ">=": "BranchScenarioNowAfter"}


class Env:
    """Expansion context: parameter substitution, label scope, return continuation, provenance."""

    def __init__(self, sub, labels, ret, prov, macro=None, parent=None):
        self.sub, self.labels, self.ret, self.prov = sub, labels, ret, prov
        self.macro, self.parent = macro, parent
        self.first = True


class Ref:
    def __init__(self, prog: E.Program, perf: str, macros: dict | None = None):
        self.perf = perf
        self.stop = N("stop")
        self.macros = {m.name: m for m in prog.macros}
        if macros:
            self.macros.update(macros)
        self.depth = 0
        labels: dict[str, N] = {}
        for r in prog.routines:
            if r.body is not None:
                self._collect(r.body, labels)
        self.entries = []
        for r in prog.routines:
            if r.body is None:
                self.entries.append(None)
                continue
            env = Env({}, labels, None, None)
            off = N("op", ("Return", ()), nxt=self.stop, src=("off", r))
            self.entries.append(self.seq(r.body, off, env, Loop(), False))

    def _collect(self, body, labels):
        for n in E.walk(body):
            if isinstance(n, E.Label):
                if n.name in labels:
                    raise ValueError("duplicate label " + n.name)
                labels[n.name] = N("goto", src=n)

    # values under substitution
    def v(self, x, env) -> tuple:
        if isinstance(x, E.Const) and x.name in env.sub:
            return env.sub[x.name]
        return E.canon(x)

    def vs(self, xs, env):
        return tuple(self.v(x, env) for x in xs)

    def op(self, name, params, nxt, env, src, ctl=False, in_ctx=False):
        n = N("op", (name, params), nxt=nxt, src=src, prov=env)
        if name in STOP_OPS and not in_ctx:
            n.nxt = self.stop
        return n

    def seq(self, body, nxt, env, loop, in_macro=False):
        for s in reversed(body):
            nxt = self.stmt(s, nxt, env, loop)
        return nxt

    def simple(self, s, nxt, env, loop, in_ctx=False):
        if isinstance(s, E.Op):
            n = self.op(s.name, self.vs(s.args, env), nxt, env, s, in_ctx=in_ctx or bool(s.ctx))
            if s.ctx:
                n = self.op(CTXOP[s.ctx[0]], (self.v(s.ctx[1], env),), n, env, s)
            return n
        if isinstance(s, E.Ctl):
            kw = s.kw
            if kw == "return":
                if env.ret is not None:
                    return N("goto", nxt=env.ret, src=s)
                return self.op("Return", (), nxt, env, s, in_ctx=in_ctx)
            if kw == "end":
                return self.op("End", (), nxt, env, s, in_ctx=in_ctx)
            if kw == "hold":
                return self.op("Hold", (), nxt, env, s, in_ctx=in_ctx)
            tgt = {"break": loop.brk, "continue": loop.cont, "break_loop": loop.brkloop}[kw]
            return N("goto", nxt=tgt, src=s)
        if isinstance(s, E.Label):
            n = env.labels[s.name]
            n.nxt = nxt
            return n
        if isinstance(s, E.Jump):
            return N("goto", nxt=env.labels[s.name], src=s)
        if isinstance(s, E.CallL):
            return N("test", ("Call", ()), nxt=nxt, taken=env.labels[s.name], src=s, prov=env)
        return self.op(*self.assign(s, env), nxt, env, s)

    def assign(self, s, env):
        if isinstance(s, E.ASet):
            var, val = self.v(s.var, env), self.v(s.val, env)
            if s.idx is not None:
                if var == ("const", self.perf):
                    return "flag_SetPerformance", (("int", s.idx), val)
                return "flag_CalcBit", (var, ("int", s.idx), val)
            if s.vof:
                return "flag_CalcVariable", (var, ("int", CALC[s.op]), val)
            if s.op == "=":
                return "flag_Set", (var, val)
            return "flag_CalcValue", (var, ("int", CALC[s.op]), val)
        if isinstance(s, E.AClear):
            return "flag_Clear", (self.v(s.var, env),)
        if isinstance(s, E.AInit):
            return "flag_Initial", (self.v(s.var, env),)
        if isinstance(s, E.AReset):
            if s.var is None:
                return "flag_ResetDungeonResult", ()
            return "flag_ResetScenario", (self.v(s.var, env),)
        if isinstance(s, E.AAdv):
            return "flag_SetAdventureLog", (self.v(s.val, env),)
        if isinstance(s, E.ADun):
            return "flag_SetDungeonMode", (self.v(s.dun, env), self.v(s.val, env))
        if isinstance(s, E.AScn):
            return "flag_SetScenario", (self.v(s.var, env), ("int", s.a), ("int", s.b))
        raise TypeError(s)

    def test_ev(self, h, env):
        if isinstance(h, E.HOp):
            var, val = self.v(h.var, env), self.v(h.val, env)
            if h.vof:
                return "BranchVariable", (var, ("int", COND[h.op]), val)
            if h.op == "==":
                return "Branch", (var, val)
            return "BranchValue", (var, ("int", COND[h.op]), val)
        if isinstance(h, E.HBit):
            var = self.v(h.var, env)
            if var == ("const", self.perf):
                return "BranchPerformance", (("int", h.idx), ("int", 0 if h.neg else 1))
            return "BranchBit", (var, ("int", h.idx))
        if isinstance(h, E.HNeg):
            return {"debug": "BranchDebug", "edit": "BranchEdit", "variation": "BranchVariation"}[h.what], (
                ("int", 0 if h.neg else 1),)
        if isinstance(h, E.HScn):
            return SCN[h.op], (self.v(h.var, env), ("int", h.a), ("int", h.b))
        if isinstance(h, E.HOper):
            return h.name, self.vs(h.args, env)
        raise TypeError(h)

    def tests(self, hdrs, yes, no, env):
        """`hdrs` joined by ||: first true one goes to yes."""
        n = no
        for h in reversed(hdrs):
            n = N("test", self.test_ev(h, env), nxt=n, taken=yes, src=h, prov=env)
        return n

    def stmt(self, s, nxt, env, loop):
        if isinstance(s, E.SIMPLE):
            return self.simple(s, nxt, env, loop)
        if isinstance(s, E.With):
            n = self.simple(s.stmt, nxt, env, loop, in_ctx=True)
            return self.op(CTXOP[s.kind], (self.v(s.id, env),), n, env, s)
        if isinstance(s, E.If):
            n = nxt if s.els is None else self.seq(s.els, nxt, env, loop)
            for a in reversed(s.arms):
                b = self.seq(a.body, nxt, env, loop)
                n = self.tests(a.hdrs, n, b, env) if a.neg else self.tests(a.hdrs, b, n, env)
            return n
        if isinstance(s, E.Switch):
            lp = loop.with_(brk=nxt)
            starts, n = [], nxt
            for c in reversed(s.cases):
                n = self.seq(c.body, n, env, lp)
                starts.append(n)
            starts.reverse()
            chain = nxt
            for c, st in zip(s.cases, starts):
                if c.hdr is None:
                    chain = st
            scn = isinstance(s.hdr, E.SScn) and s.hdr.idx == 0 or isinstance(s.hdr, E.SOper) and s.hdr.name == "SwitchScenario"
            for c, st in reversed(list(zip(s.cases, starts))):
                if c.hdr is not None:
                    chain = N("test", self.case_ev(c.hdr, env, scn), nxt=chain, taken=st, src=c.hdr, prov=env)
            name, ps = self.switch_ev(s.hdr, env)
            return self.op(name, ps, chain, env, s.hdr)
        if isinstance(s, E.MSwitch):
            n = nxt
            for c in s.cases:
                if c.hdr is None:
                    n = self.op("DefaultText", (self.v(c.text, env),), n, env, c)
            for c in reversed(s.cases):
                if c.hdr is not None:
                    n = self.op("CaseText", (self.v(c.hdr.v, env), self.v(c.text, env)), n, env, c)
            return self.op(s.kind, (self.v(s.val, env),), n, env, s)
        if isinstance(s, E.Forever):
            head = N("goto", src=s)
            head.nxt = self.seq(s.body, head, env, loop.with_(cont=head, brkloop=nxt))
            return head
        if isinstance(s, E.While):
            head = N("goto", src=s)
            b = self.seq(s.body, head, env, loop.with_(cont=head, brkloop=nxt))
            head.nxt = self.tests([s.hdr], nxt, b, env) if s.neg else self.tests([s.hdr], b, nxt, env)
            return head
        if isinstance(s, E.For):
            check, inc = N("goto", src=s), N("goto", src=s)
            lp = loop.with_(cont=inc, brkloop=nxt)
            inc.nxt = self.stmt(s.inc, check, env, lp)
            b = self.seq(s.body, inc, env, lp)
            check.nxt = self.tests([s.hdr], b, nxt, env)
            return self.stmt(s.init, check, env, lp)
        if isinstance(s, E.MCall):
            m = self.macros[s.name]
            self.depth += 1
            if self.depth > 40:
                raise RecursionError("macro recursion")
            labels: dict = {}
            self._collect(m.body, labels)
            sub = dict(zip(m.params, self.vs(s.args, env)))
            out = N("goto", nxt=nxt, src=("macroend", m))
            me = Env(sub, labels, out, s, m, env)
            n = self.seq(m.body, out, me, Loop())
            self.depth -= 1
            return n
        raise TypeError(s)

    def switch_ev(self, h, env):
        if isinstance(h, E.SVar):
            return "Switch", (self.v(h.v, env),)
        if isinstance(h, E.SOper):
            return h.name, self.vs(h.args, env)
        if isinstance(h, E.SScn):
            return ("SwitchScenario" if h.idx == 0 else "SwitchScenarioLevel"), (self.v(h.v, env),)
        if isinstance(h, E.SRandom):
            return "SwitchRandom", (self.v(h.v, env),)
        if isinstance(h, E.SDun):
            return "SwitchDungeonMode", (self.v(h.v, env),)
        if isinstance(h, E.SSector):
            return "SwitchSector", ()
        raise TypeError(h)

    def case_ev(self, h, env, scn):
        if isinstance(h, E.CVal):
            return "Case", (self.v(h.v, env),)
        if isinstance(h, E.CMenu):
            return "CaseMenu", (self.v(h.s, env),)
        if isinstance(h, E.CMenu2):
            return "CaseMenu2", (self.v(h.v, env),)
        if isinstance(h, E.COp):
            if h.vof:
                return "CaseVariable", (("int", COND[h.op]), self.v(h.v, env))
            return ("CaseScenario" if scn else "CaseValue"), (("int", COND[h.op]), self.v(h.v, env))
        raise TypeError(h)


class Loop:
    def __init__(self, brk=None, cont=None, brkloop=None):
        self.brk, self.cont, self.brkloop = brk, cont, brkloop

    def with_(self, **kw):
        d = {"brk": self.brk, "cont": self.cont, "brkloop": self.brkloop}
        d.update(kw)
        return Loop(**d)
