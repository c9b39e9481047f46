"""C04: every parameter value survives being printed and parsed again; literals have the specified values."""
import random
from collections import Counter
from fractions import Fraction

from hypothesis import strategies as st

from vlib import boot, es, esast as E, gen_es, gen_ssb, gen_ssbscript, layout, ssbm
from vlib.gen_ssb import DMODES, RSet, SGen, SOp, SRoutine
from vlib.harness import Campaign, Discard, Violation, run

ANYTEXT = gen_es.rich_text() | st.text(max_size=12) | st.text(alphabet="\n '\"\\ntab\t", max_size=10) | st.tuples(
    st.sampled_from(["", "x", "\n", "  "]), gen_es.rich_text(), st.sampled_from([2, 3, 9, 40, 150]), gen_es.rich_text()).map(lambda t: t[0] + t[1] * t[2] + t[3])
SPELLABLE = ANYTEXT.filter(layout.spellable)
MARKNAME = ANYTEXT.filter(lambda s: layout.spellable(s, True))
UNSPELLABLE = ANYTEXT.filter(lambda s: not layout.spellable(s))
FIX256 = st.integers(-64 * 256, 64 * 256 - 1).map(lambda n: ("fixf", n / 256))
DIGITS = st.text("0123456789", min_size=1, max_size=6) | st.text("0123456789", min_size=1, max_size=40) | st.text("09", min_size=1, max_size=25)
FIXS = st.tuples(st.sampled_from(["", "-"]), st.integers(0, 300) | st.integers(0, 10**25), DIGITS).map(
    lambda t: ("fix", f"{t[0]}{t[1]}.{t[2]}"))
BIGINT = st.integers(-20000, 70000) | st.integers(-2**40, 2**40) | st.integers(-10**30, 10**30) | st.sampled_from([0, -1, 1, 16383, -16384, 32767])
IDENT = st.from_regex(r"\A[A-Z_][A-Z0-9_]{0,10}\Z") | st.from_regex(r"\A\$?[A-Z_a-z][A-Za-z0-9_]{0,10}\Z")
KEYWORDS = {"import", "coro", "def", "macro", "for_actor", "for_object", "for_performer", "alias", "previous", "not", "if", "elseif", "else",
            "forever", "with", "switch", "debug", "edit", "variation", "random", "sector", "menu2", "menu", "case", "default", "clear", "reset",
            "init", "scn", "dungeon_result", "adventure_log", "continue", "break", "break_loop", "return", "end", "hold", "jump", "call",
            "while", "for", "TRUE", "FALSE", "value", "dungeon_mode", "Position", "message_SwitchTalk", "message_SwitchMonologue"}
CONST = IDENT.filter(lambda s: s not in KEYWORDS)


class VGen(SGen):
    """SGen with unusual values everywhere."""

    def __init__(self, draw, strings=SPELLABLE):
        super().__init__(draw, small=False)
        self.strings = strings

    def const(self):
        return ("const", self.draw(CONST)) if self.i(0, 1) else super().const()

    def num(self):
        k = self.i(0, 9)
        if k < 5:
            return ("int", self.draw(BIGINT))
        if k == 5:
            return self.draw(FIX256)
        if k == 6:
            return self.draw(FIXS)
        return self.const()

    def text(self):
        if self.i(0, 1):
            return ("cstr", self.draw(self.strings))
        n = self.i(1, 3)
        return ("lstr", tuple((gen_es.LANGS[j], self.draw(self.strings)) for j in range(n)))

    def pos(self):
        return ("pos", self.draw(MARKNAME), self.draw(BIGINT), self.pick([0, 2, 4]), self.i(-3, 300), self.pick([0, 2, 4]))

    def value(self):
        k = self.i(0, 9)
        if k < 3:
            return self.num()
        if k == 3:
            return self.pos()
        return self.text()

    def plain(self):
        return SOp(self.pick(self.names), (self.u(), *[self.value() for _ in range(self.i(1, 3))]))


def block(g, depth, end):
    """Ops of a block; jumps to the op after the block use the returned patch list."""
    out: list = []
    for _ in range(g.i(1, 3)):
        k = g.i(0, 6) if depth > 0 else 0
        if k < 4:
            out.extend(g.straight())
            continue
        join = SOp("JoinOp", (g.u(),))
        if k < 6:
            b = g.branch()
            b.tgt = join
            out.append(b)
            out.extend(block(g, depth - 1, join))
        else:
            sw = g.switch_op() if g.i(0, 1) else SOp("message_SwitchMenu", (g.u(), g.u()))
            out.append(sw)
            bodies = []
            for _ in range(g.i(1, 3)):
                c = g.case_op(sw)
                out.append(c)
                b = block(g, depth - 1, join) if g.i(0, 1) else g.straight()
                c.tgt = b[0]
                bodies.append(b)
            out.append(SOp("Jump", (), join))
            for b in bodies:
                out.extend(b)
                out.append(SOp("Jump", (), join))
        out.append(join)
    return out


@st.composite
def printed(draw, strings=SPELLABLE, depth=4):
    g = VGen(draw, strings)
    rs = []
    for i in range(g.i(1, 2)):
        kind = g.pick(["def", "actor", "object", "performer"])
        t = None if kind == "def" else ("int", g.i(-3, 400)) if g.i(0, 1) else g.const()
        rs.append(SRoutine(kind, t, None, block(g, g.i(0, depth), None) + [SOp("Return")]))
    return RSet(rs, "bytes")


def norm(p):
    if p[0] == "pos":
        return ("pos", p[1], p[2], p[3] > 0, p[4], p[5] > 0)
    if p[0] == "fixf":
        return ("num", Fraction(p[1]))
    if p[0] == "fix":
        return ("num", Fraction(p[1]))
    if p[0] == "lstr":
        return ("lstr", tuple(sorted(p[1])))
    return p


def strict(p):
    """Like norm, but fixed point numbers keep their digits (they are text in this code base)."""
    if p[0] == "fixf":
        return ("fix", str(p[1]))
    return p if p[0] == "fix" else norm(p)


def to_objects(rs):
    objs = gen_ssb.to_objects(rs)
    for r, rr in zip(rs.routines, objs[1]):
        for o, obj in zip(r.ops, rr):
            for i, p in enumerate(o.params):
                if p[0] == "pos":
                    obj.params[i].x_offset, obj.params[i].y_offset = p[3], p[5]
    return objs


SILENT = {"Jump", "Return", "End", "Hold"}
SAME = {"Branch": "BranchValue", "Case": "CaseValue"}


def table(ops, f=lambda p: p):
    out: dict = {}
    for r in ops:
        dm = any(name == "SwitchDungeonMode" for name, _ in r)
        for name, params in r:
            if name not in SILENT:
                params = tuple(f(p) for p in params)
                if name == "flag_SetDungeonMode" and params[1][0] == "int" and 0 <= params[1][1] <= 3:
                    params = (params[0], ("const", DMODES[params[1][1]]))
                if dm and name == "Case" and params[0][0] == "const" and params[0][1] in DMODES:
                    params = (("int", DMODES.index(params[0][1])),)
                if name in ("Branch", "Case"):  # `v == x` in either opcode
                    name, params = SAME[name], params[:-1] + (("int", 2), params[-1])
                if name == "CaseScenario":  # how `case > x` is written depends on the switch only
                    name = "CaseValue"
                if name == "flag_CalcValue" and params[1] == ("int", 0):
                    name, params = "flag_Set", (params[0], params[2])
                out.setdefault(name, Counter())[params] += 1
    return out


def fallback(f, *a):
    try:
        return f(*a)
    except Exception:
        return None


def strings_of(rs):
    for r in rs.routines:
        for o in r.ops:
            for p in o.params:
                if p[0] == "cstr":
                    yield p[1], False
                elif p[0] == "lstr":
                    yield from ((s, False) for _, s in p[1])
                elif p[0] == "pos":
                    yield p[1], True


def signature(rs):
    return "unspellable-string" if any("\r\n" in s or not layout.spellable(s, single) for s, single in strings_of(rs)) else ""


def prop_print(rs, ctx):
    want = table([[(o.name, o.params) for o in r.ops] for r in rs.routines], strict)
    infos = [(r.kind, r.target) for r in rs.routines]
    shown = rs.show()
    for who in ("ExplorerScript", "SsbScript"):
        try:
            if who == "ExplorerScript":
                text, _ = gen_ssb.decompile(rs, to_objects(rs))
                ctx.label("fallback" if "is-ssb-script" in text[:40] else "structured")
            else:
                text, _ = gen_ssb.decompile_ssb(rs, to_objects(rs))
        except Exception as e:
            raise Discard(f"decompiler: {type(e).__name__}")  # C06's business
        t = f"{shown}\n=== {who} ===\n{text}"
        try:
            c = es.compile_es(text) if who == "ExplorerScript" else gen_ssbscript.compile_ssbs(text)
        except Exception as e:
            raise Violation(f"printed {who} text is rejected: {type(e).__name__}: {e}", t, signature(rs))
        ops = ssbm.norm_ops(c.routine_ops)
        got = table([[(o.name, o.params) for o in r] for r in ops])
        for name, ps in want.items():
            lost = [p for p in ps if p not in got.get(name, {})]
            new = [p for p in got.get(name, {}) if p not in ps]
            if lost:
                raise Violation(f"{who}: {name}{lost[0]!r:.500} came back as {new[:1]!r:.500}", t, signature(rs))
        back = [ssbm.norm_info(i) for i in c.routine_infos]
        if back != infos:
            raise Violation(f"{who}: routine headers {infos} came back as {back}", t)
    ctx.nontrivial(shown)
    ctx.label(*{"param:" + p[0] for r in rs.routines for o in r.ops for p in o.params})
    ctx.label(*{"op:" + o.name for r in rs.routines for o in r.ops if o.name not in gen_ssb.REALNAMES})
    if any("\n" in s for s, _ in strings_of(rs)):
        ctx.label("multi-line string")


# ---------------------------------------------------------------- literals

PIECES = gen_es.FRAG[:-1] + ["\\'", '\\"', "\r", "\f", "  \n   ", "x\n    y", "\t\t"]


@st.composite
def literals(draw):
    """(kind, literal text) with the value the specification gives, or None for 'must be rejected'."""
    out = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 6))
        rnd = random.Random(draw(st.integers(0, 2**32)))
        if k == 0:
            n = draw(BIGINT)
            out.append((layout.spell_int(n, rnd), ("int", n)))
        elif k == 1:
            sign, w, f = draw(st.sampled_from(["", "-"])), draw(st.text("0123456789", max_size=5) | DIGITS), draw(DIGITS)
            out.append((f"{sign}{w}.{f}", ("num", Fraction(f"{sign}{w or 0}.{f}"), len(f), f"{sign}{(w or '0').lstrip('0') or '0'}.{f}")))
        elif k in (2, 3):
            q = draw(st.sampled_from("'\""))
            body = "".join(draw(st.lists(st.sampled_from(PIECES), max_size=5)))
            lit = q + body + q
            if lit[:3] not in ("'''", '"""') and layout.read_single(lit) is not None:
                out.append((lit, ("cstr", layout.read_single(lit))))
        elif k in (4, 5):
            q = draw(st.sampled_from(["'''", '"""']))
            body = "".join(draw(st.lists(st.sampled_from(PIECES + ["\n", "\n  ", "\n    "] * 4), max_size=9)))
            lit = q + body + q
            v = layout.read_multi(lit)
            if v is not None and "\r\n" not in body:
                out.append((lit, ("cstr", v)))
        else:
            args, vals = [], []
            for _ in range(2):
                w = draw(st.sampled_from(["", "0", "00", "7", "12", "012", "300"]))
                sign = draw(st.sampled_from(["", "", "-"]))
                f = draw(st.sampled_from(["", "0", "000", "5", "50", "500", "05", "25", "51", "005", "55", "5000001", "4"]))
                if f == "":
                    n = draw(st.integers(-50, 400))
                    args.append(layout.spell_int(n, rnd))
                    vals.append((n, False))
                else:
                    args.append(f"{sign}{w}.{f}")
                    z = f.rstrip("0")
                    vals.append(None if z not in ("", "5") else (int(sign + (w or "0")), z == "5"))
            v = None if None in vals else ("pos", "n", vals[0][0], vals[0][1], vals[1][0], vals[1][1])
            out.append((f"Position<'n', {args[0]}, {args[1]}>", v))
    return out


def matches(v, p):
    """v: expected value, p: normalised parameter."""
    if v[0] == "num":
        return p[0] == "fix" and Fraction(p[1]) == v[1] and p[1] == v[3]
    return p == v


def prop_lit(lits, ctx):
    reject = any(v is None for _, v in lits)
    num = [l for l in lits if l[1] is not None and l[1][0] in ("int", "num")]
    strs = [l for l in lits if l[1] is not None and l[1][0] == "cstr"]
    src = ["Op(%s);" % ", ".join(l for l, _ in lits)]
    src += ["Lang({%s});" % ", ".join(f"l{i}={l}" for i, (l, _) in enumerate(strs))] if strs else []
    es_only = [f"$A = {l};" for l, _ in num] + [f"if ($A == {l}) {{ X(); }}" for l, _ in num]
    es_only += [f"message_SwitchTalk($A) {{ case {num[0][0] if num else 1}: {l} }}" for l, _ in strs]
    es_only += [f"switch (message_Menu(1)) {{ case menu({l}): X(); }}" for l, _ in strs]
    for who in ("ExplorerScript", "SsbScript"):
        text = "def 0 {\n" + "\n".join(src + (es_only if who == "ExplorerScript" else [])) + "\nreturn;\n}"
        if who == "SsbScript":
            text = text.replace("return;", "Return();")
        try:
            c = es.compile_es(text) if who == "ExplorerScript" else gen_ssbscript.compile_ssbs(text)
        except es.REJECT as e:
            if reject:
                continue
            raise Violation(f"{who}: valid literals rejected: {e}", text)
        except Exception as e:
            if reject:
                continue  # C10's business
            raise Violation(f"{who}: valid literals crash the compiler: {type(e).__name__}: {e}", text)
        if reject:
            raise Violation(f"{who}: a position mark that is neither whole nor half is accepted: {c.routine_ops[0][0].params}", text)
        ops = [(o.name, o.params) for o in ssbm.norm_ops(c.routine_ops)[0]]
        exp: list = [("Op", [v for _, v in lits])]
        for i, (v, p) in enumerate(zip(exp[0][1], ops[0][1])):
            if not matches(v, p):
                raise Violation(f"{who}: literal {lits[i][0]} has value {p}, expected {v}", text)
        if len(ops[0][1]) != len(lits):
            raise Violation(f"{who}: wrong number of parameters", text)
        if strs:
            want = ("lstr", tuple(sorted((f"l{i}", v[1]) for i, (_, v) in enumerate(strs))))
            if ops[1] != ("Lang", (want,)):
                raise Violation(f"{who}: language string has value {ops[1]}, expected {want}", text)
        if who == "ExplorerScript":
            for name, idx, pool in (("flag_Set", 1, num), ("CaseMenu", 0, strs), ("CaseText", 1, strs)):
                got = [ps[idx] for n, ps in ops if n == name]
                if len(got) != len(pool) or any(not matches(v, p) for (_, v), p in zip(pool, got)):
                    raise Violation(f"{name}: expected {[v for _, v in pool]}, got {got}", text)
            got = [ps[-1] for n, ps in ops if n in ("Branch", "BranchValue")]
            if len(got) != len(num) or any(not matches(v, p) for (_, v), p in zip(num, got)):
                raise Violation(f"branch: expected {[v for _, v in num]}, got {got}", text)
    ctx.nontrivial(repr(lits))
    ctx.label("rejected mark" if reject else "accepted", *{"lit:" + v[0] for _, v in lits if v})


def known(v, case, entries):
    for e in entries:
        if v.sig and e["id"] == v.sig:
            return e["id"]
    return None


RULE = ("(print) Routine sets of nested if/switch blocks (depth 0-4) whose ops, contexts, message switches, menu and case headers, "
        "assignments and routine headers carry random values: integers to 10^30, k/256 and decimal-digit fixed-point numbers, "
        "identifiers, strings of any expressible content, marks with offsets 0/2/4. Each set is printed by both decompilers, compiled, "
        "and the multiset of (opcode, parameters) compared. (literals) random literal spellings with the value the specification's "
        "rules give, in operation, language-string, assignment, header, menu and message-switch position, through both compilers. "
        "Non-trivial: compiled and compared; distinct by content.")


def campaigns():
    return [
        Campaign("print", printed(), prop_print, 2400, 30000),
        Campaign("flatprint", printed(depth=1), prop_print, 3200, 40000),
        Campaign("unspellable", printed(UNSPELLABLE | SPELLABLE, 1), prop_print, 400, 2000),
        Campaign("literals", literals(), prop_lit, 6000, 60000),
    ]


def main(replay=None):
    return run("C04", "exploration", RULE, campaigns(), replay=replay, known_match=known, assumptions=[
        "A half-tile offset of 4 equals one of 2 (docs: '2 or 4'). Fixed-point numbers keep their digits. Blank = space or tab in dedent rules.",
        "Structure (which op goes where) is C02's business: parameters are compared as multisets per opcode."])
