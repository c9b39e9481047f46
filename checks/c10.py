"""C10: compilation fails only in documented ways and rejects meaningless programs."""
import copy
import os
import shutil
import subprocess
import sys
import json
from dataclasses import dataclass

from hypothesis import strategies as st

from vlib import boot, es, esast as E, gen_es, gen_ssb, gen_ssbscript, gen_text as T, harness, project
from vlib.harness import Campaign, Discard, Violation, run
from explorerscript.error import ParseError, SsbCompilerError
from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

ALLOWED = (ParseError, SsbCompilerError, ValueError)

# ---------------------------------------------------------------- part A: documented exceptions only


def attempt(text, fname="/nonexistent/main.exps", lookup=(), shown=None, comp=None, outer=False):
    """-> the compiler, or the (documented) exception."""
    c = comp or ExplorerScriptSsbCompiler(boot.PERF, list(lookup))
    try:
        if outer:
            try:
                raise KeyError("something the caller is already handling")
            except KeyError:
                c.compile(text, fname)
        else:
            c.compile(text, fname)
    except ALLOWED as e:
        return e
    except Exception as e:
        raise Violation(f"compile() raised {type(e).__name__}: {str(e)[:300]}", shown or text, sig=type(e).__name__)
    return c


def kind_of(r):
    return "accepted" if not isinstance(r, BaseException) else type(r).__name__


def prop_total(case, ctx):
    text, outer = case
    r = attempt(text, outer=outer)
    ctx.label(kind_of(r), *(["in-except"] if outer else []))
    if not isinstance(r, ParseError):
        ctx.nontrivial(text)
    return r


def texts(strategy):
    return st.tuples(strategy, st.sampled_from([False, False, False, True]))


MARK = "//?: is-ssb-script: true\n"


@st.composite
def reshaped(draw):
    """Programs whose statements or blocks were moved, copied or deleted, or whose tokens were replaced by tokens of the same kind.
    Brackets stay balanced, so most of them parse."""
    prog = draw(gen_es.any_programs())
    g = T.TG(draw, T.G_ES)
    toks = [t.text for t in E.TokenPrinter().program(prog).toks]
    for _ in range(g.i(1, 5)):
        n = len(toks)
        if n < 4:
            break
        if g.i(0, 1):
            a = g.i(0, n - 1)
            toks[a] = like(g, toks[a])
            continue
        # chunks: from after one of ; { } : to after the next boundary at the same depth
        starts = [0] + [i + 1 for i, t in enumerate(toks) if t in (";", "{", "}", ":")]
        a = g.pick(starts)
        b, depth = a, 0
        while b < n:
            if toks[b] == "{":
                depth += 1
            elif toks[b] == "}":
                depth -= 1
                if depth < 0:
                    break
            b += 1
            if depth == 0 and toks[b - 1] in (";", "}"):
                break
        if b <= a:
            continue
        chunk = toks[a:b]
        how = g.i(0, 2)
        if how != 1:
            del toks[a:b]
        if how:
            starts = [0] + [i + 1 for i, t in enumerate(toks) if t in (";", "{", "}", ":")]
            c = g.pick(starts)
            toks[c:c] = chunk
    return T.join(toks)


CLASSES = [["break", "continue", "break_loop", "return", "end", "hold"], ["jump", "call"], ["if", "while", "elseif"], ["==", "!=", "<=", ">=", "<", ">", "&", "^", "&<<"],
           ["=", "+=", "-=", "*=", "/="], ["actor", "object", "performer"], ["not", ""], ["menu", "menu2"], ["TRUE", "FALSE"], ["value", ""],
           ["message_SwitchTalk", "message_SwitchMonologue", "switch"], ["case", "default"], ["def", "coro", "macro"], ["forever", "else"],
           ["clear", "reset", "init"], ["scn", "dungeon_mode", "random", "sector", "debug", "edit", "variation"], ["@", "§"]]
LIKE = {}
for _c in CLASSES:
    for _x in _c:
        LIKE.setdefault(_x, _c)


def like(g, tok):
    if tok in LIKE:
        return g.pick(LIKE[tok])
    if tok[:1].isdigit() or tok[:1] in "-." and tok[1:2].isdigit():
        return g.pick(g.pick([T.INTS, T.DECS]))
    if tok[:1] in "'\"":
        return g.pick(T.STRS)
    if tok[:1] == "$":
        return g.pick(T.VARS + ["CONST", "5"])
    if tok[:1] == "~":
        return g.pick(["~m1", "~m2", "A"])
    if tok[:1].isalpha():
        return g.pick(T.IDENTS + T.OPS + ["$A", "5", "'s'"])
    return tok


SOUP = st.text(st.one_of(st.sampled_from(list("{}()[]<>;:,=@§$~'\"\\/*\n\r\t 019.-xdefcormacrif")), st.characters()), max_size=60)


@st.composite
def soups(draw):
    g = T.TG(draw, T.G_ES)
    parts = []
    for _ in range(g.i(0, 40)):
        k = g.i(0, 5)
        parts.append(g.pick(T.JUNK) if k == 0 else g.pick(T.OPS) + "();" if k == 1 else g.pick(T.INTS) if k == 2 else g.pick(T.STRS) if k == 3
                     else g.pick(["{", "}", "(", ")", ";"]) if k == 4 else draw(SOUP)[:6])
    return g.pick(["", "", "def 0 {", MARK, "//?: is-ssb-script: 1\n def 0 {"]) + g.pick([" ", "", "\n"]).join(parts)


HEADS = ["//?: is-ssb-script: true", "//?: is-ssb-script: false", "//?: is-ssb-script", "//?:", "//?: unknown: x", "//?: : :", "//?:is-ssb-script:true",
         "// ?: is-ssb-script: true", "//?: is-ssb-script: 1", "//?: is-ssb-script: true: false", "\ufeff//?: is-ssb-script: true", "", "\r", "/*", "*/", "//",
         "\x0c", "//?: is-ssb-script: TRUE", "   //?: is-ssb-script: true", "#", "//?: is-ssb-script: true\x0b", "//?: é: ☃"]


@st.composite
def headed(draw):
    g = T.TG(draw, T.G_ES)
    heads = [g.pick(HEADS) for _ in range(g.i(1, 4))]
    body = draw(st.one_of(st.just(""), T.derived(depth=5), T.derived(depth=5, ssb=True), st.just("def 0 { A(); }"), st.just("\x00")))
    return g.pick(["\n", "\r\n", "\r", "\n\n"]).join(heads) + g.pick(["\n", ""]) + body


NESTS = [("if (debug) {", "}"), ("forever {", "}"), ("while (debug) {", "}"), ("switch ($A) { case 1: A(); ", "}"), ("if (debug) { A(); } else {", "}"),
         ("switch ($A) { default: B(); ", "}"), ("for ($A = 1; debug; $A += 1) {", "}")]


@st.composite
def deep(draw):
    """Nesting and repetition far beyond what people write."""
    g = T.TG(draw, T.G_ES)
    k = g.i(0, 8)
    n = g.pick([30, 60, 100, 150, 250, 400, 700, 1500])
    if k == 0:
        o, c = g.pick(NESTS)
        return "def 0 { " + o * n + "A();" + c * n + "}"
    if k == 1:
        seq = [g.pick(NESTS) for _ in range(7)]
        seq = [seq[j % 7] for j in range(n)]
        return "def 0 { " + "".join(o for o, _ in seq) + g.pick(["A();", "", "@a;", "break;", "jump @a;"]) + "".join(c for _, c in reversed(seq)) + "}"
    if k == 2:
        return g.pick(["", "def 0 {", MARK]) + g.pick(["(", "{", "if (", "[", "<", "'''", "not ", "def 0 {", "A(", "{english='a',"]) * n
    if k == 3:
        return "def 0 { A(" + g.pick(["-", "0", "1", "0x", ".", "_", "$", "9" * 50]) * n + "); }"
    if k == 4:
        m = min(n, 400)
        return "".join(f"macro m{j}() {{ ~m{j + 1}(); }}\n" for j in range(m)) + f"macro m{m}() {{ A(); }} def 0 {{ ~m0(); }}"
    if k == 5:
        return "def 0 { if (" + " || ".join(["debug"] * min(n, 400)) + ") { A(); } }"
    if k == 6:
        return "def 0 { switch ($A) {" + "".join(f"case {j}: A(); " for j in range(min(n, 400))) + "} }"
    if k == 7:
        return "def 0 { " + "".join(f"@l{j}; jump @l{(j * 7) % n};" for j in range(min(n, 400))) + "}"
    return "".join(f"def {j} {{ A(); }}\n" for j in range(min(n, 400))) + g.pick(["", "def -1 { A(); }", "def 0 { A(); }", "def 99999999999 { A(); }"])


IMPORTS = ["", ".", "..", "/", "./", "./.", "a", "./a.exps", "a.exps", "./d", "d", "../", "x/../a.exps", "./x/../a.exps", "//", "/dev/null", "./missing", "~",
           "./self.exps", "\\", "C:\\x", "./a.exps/", "./bin.exps", "bin.exps", "./empty.exps", "./link.exps", "./loop.exps", "a.exps ", "*", "./ssb.exps",
           "./" + "x" * 300, "\\n", "é", "./\u2603.exps", "./noperm/x.exps", "./bad.exps", "./ok.exps", "ok.exps", "./deep.exps", "./main.exps", "./nul\x00.exps"]


def import_dir():
    d = harness.scratch_dir() + "/imp"
    if not os.path.isdir(d):
        os.makedirs(d + "/d")
        files = {"a.exps": b"macro a() { A(); }", "self.exps": b"import './self.exps'; macro s() { A(); }", "bin.exps": b"\xff\xfe\x00\x80 macro",
                 "empty.exps": b"", "ssb.exps": b"//?: is-ssb-script: true\n", "bad.exps": b"macro a( { }", "ok.exps": b"import './a.exps';\nmacro ok($x) { ~a(); A($x); }",
                 "deep.exps": b"macro z() { " + b"if (debug) {" * 800 + b"A();" + b"}" * 801, "d/e.exps": b"import '../a.exps'; macro e() { ~a(); }"}
        for f, b in files.items():
            with open(d + "/" + f, "wb") as fh:
                fh.write(b)
        os.symlink("loop.exps", d + "/loop.exps")
        os.symlink("a.exps", d + "/link.exps")
    return d


@st.composite
def importing(draw):
    g = T.TG(draw, T.G_ES)
    imps = []
    for _ in range(g.i(1, 3)):
        s = g.pick(IMPORTS)
        if g.i(0, 5) == 0:
            s = draw(st.text(max_size=12))
        imps.append(f"import {g.pick(chr(39) + chr(34))}{s}{g.pick(chr(39) + chr(34))};" if g.i(0, 8) == 0 else "import '%s';" % s.replace("'", "\\'"))
    body = g.pick(["def 0 { A(); }", "", "def 0 { ~a(); }", "def 0 { ~ok(1); }", "macro b() { ~a(); } def 0 { ~b(); }", "def 0 { ~ok(); }", "macro a() { ~a(); }"])
    lookup = g.pick([["."], [], ["/"], [""], ["d"], ["missing", "."], ["/dev"], ["a.exps"]])
    main = g.pick(["main.exps", "d/main.exps", "./main.exps", "missing/main.exps", ""])
    return "\n".join(imps) + "\n" + body, lookup, main


def prop_imports(case, ctx):
    text, lookup, main = case
    d = import_dir()
    r = attempt(text, os.path.join(d, main) if main else "", [os.path.join(d, x) if x in (".", "d", "missing") else x for x in lookup],
                shown=f"file {main!r}, lookup {lookup}:\n{text}")
    ctx.label(kind_of(r))
    if not isinstance(r, ParseError):
        ctx.nontrivial(repr(case))


# ---------------------------------------------------------------- part B: meaningless programs are rejected


@dataclass
class Place:
    """A statement list and what surrounds it."""
    lst: list
    loop: bool
    case: bool
    owner: object  # Routine | Macro
    file: int


def places(proj):
    out = []

    def lists(stmts, loop, case, owner, fi):
        out.append(Place(stmts, loop, case, owner, fi))
        for s in stmts:
            if isinstance(s, E.If):
                for a in s.arms:
                    lists(a.body, loop, case, owner, fi)
                if s.els is not None:
                    lists(s.els, loop, case, owner, fi)
            elif isinstance(s, E.Switch):
                for c in s.cases:
                    lists(c.body, loop, True, owner, fi)
            elif isinstance(s, (E.Forever, E.While, E.For)):
                lists(s.body, True, case, owner, fi)

    for fi in sorted(reached(proj)):
        f = proj.files[fi]
        for o in f.prog.macros + f.prog.routines:
            if o.body is not None:
                lists(o.body, False, False, o, fi)
    return out


def reached(proj, start=None):
    """Numbers of the files that a file (the main file) imports, directly or not, and its own."""
    seen, todo = set(), [len(proj.files) - 1 if start is None else start]
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.add(j)
            todo += [k for _, k in proj.files[j].imports]
    return seen


def nodes(proj, cls):
    return [n for f in (proj.files[j] for j in sorted(reached(proj))) for o in f.prog.macros + f.prog.routines for n in E.walk(o) if isinstance(n, cls)]


@dataclass
class Bad:
    proj: object
    kind: str
    what: str
    patch: tuple = ()  # textual changes applied to the main file's (or another file's) text: (file index, old, new)
    extra: tuple = ()  # additional files (path, text)
    first: bool = False  # compile something valid with the same compiler before


KINDS = ["break", "continue", "break_loop", "jump", "call", "emptycase", "twodefaults", "msgstatements", "withlabel", "notbit", "unknown", "recursive",
         "fewargs", "missing", "cyclic", "routines"]

FORMS = ["op", "op", "with", "if", "for"]


class Ruin:
    def __init__(self, draw, kind):
        self.g = gen_es.Gen(draw, gen_es.Cfg(budget=6, routines=1, small=True))
        self.draw, self.kind = draw, kind

    def pick(self, xs):
        return self.g.pick(xs)

    def put(self, pl, node):
        pl.lst.insert(self.g.i(0, len(pl.lst)), node)

    def wrap(self, node, loop=False):
        """The statement itself, or the statement within a context block, an if, a loop header..."""
        k = self.g.i(0, 6)
        if k == 1 and not isinstance(node, E.MCall):
            return E.With(self.pick(["actor", "object", "performer"]), E.Int(self.g.i(0, 9)), node)
        if k == 2:
            return E.If([E.Arm(self.g.chance(2), [E.HNeg(False, "debug")], [node])], None)
        if k == 3 and not isinstance(node, E.Label):
            return E.If([E.Arm(False, [E.HNeg(False, "edit")], [E.Op("A", [])])], [node])
        if k == 4 and loop:
            return self.pick([E.Forever([E.Op("A", []), node]), E.While(False, E.HNeg(True, "variation"), [node])])
        if k == 5 and loop and not isinstance(node, E.MCall):
            return E.For(node, E.HNeg(False, "debug"), E.Op("B", []), [E.Op("A", [])])
        if k == 6 and loop and not isinstance(node, E.MCall):
            return E.For(E.Op("B", []), E.HNeg(False, "debug"), node, [E.Op("A", [])])
        return node

    def body(self):
        return [E.Op("A", [])] if self.g.chance(2) else [E.Op("B", [E.Int(1)]), E.Ctl("return")]

    def ruin(self, proj):
        return getattr(self, "k_" + self.kind)(proj)

    def any_place(self, proj, ok=lambda p: True):
        ps = [p for p in places(proj) if ok(p)]
        if not ps:
            raise Discard()
        return self.pick(ps)

    def k_break(self, proj):
        self.put(self.any_place(proj, lambda p: not p.case), self.wrap(E.Ctl("break"), loop=True))

    def k_continue(self, proj):
        p = self.any_place(proj, lambda p: not p.loop)
        n = self.wrap(E.Ctl("continue"))
        self.put(p, E.Switch(E.SVar(E.Const("$A")), [E.Case(E.CVal(E.Int(1)), [n])]) if self.g.chance(5) else n)

    def k_break_loop(self, proj):
        p = self.any_place(proj, lambda p: not p.loop)
        n = self.wrap(E.Ctl("break_loop"))
        self.put(p, E.Switch(E.SVar(E.Const("$A")), [E.Case(None, [n])]) if self.g.chance(5) else n)

    def jumplike(self, proj, cls):
        p = self.any_place(proj)
        name = self.pick(["nowhere", "label_99", "A", "l_0_"])
        if name in {n.name for n in nodes(proj, E.Label)}:
            raise Discard()
        k = self.g.i(0, 4)
        if k == 0:
            existing = [n for n in nodes(proj, cls)]
            if existing:
                self.pick(existing).name = name
                return
        if k == 1 and self.g.chance(2):  # the label stands in a macro that nobody calls
            proj.main.prog.macros.append(E.Macro("uncalled", [], [E.Op("A", []), E.Label(name), E.Op("B", [])]))
            self.put(self.any_place(proj, lambda p: isinstance(p.owner, E.Routine)), self.wrap(cls(name), loop=True))
            return
        self.put(p, self.wrap(cls(name), loop=True))

    def k_jump(self, proj):
        self.jumplike(proj, E.Jump)

    def k_call(self, proj):
        self.jumplike(proj, E.CallL)

    def k_emptycase(self, proj):
        ex = nodes(proj, E.Switch)
        if ex and self.g.chance(2):
            sw = self.pick(ex)
            k = self.g.i(0, 2)
            if k == 0 or len(sw.cases) == 0:
                sw.cases.append(E.Case(E.CVal(E.Int(77)), []))
            else:
                sw.cases[-1].body = []
            return
        n = self.g.i(1, 4)
        cases = [E.Case(E.CVal(E.Int(j)), self.body() if self.g.chance(2) else []) for j in range(n)]
        if self.g.chance(2):
            cases[self.g.i(0, n - 1)].hdr = None
        cases[-1].body = []
        self.put(self.any_place(proj), self.wrap_block(E.Switch(self.pick([E.SVar(E.Const("$A")), E.SRandom(E.Int(4))]), cases)))

    def wrap_block(self, n):
        return E.If([E.Arm(False, [E.HNeg(False, "debug")], [n])], None) if self.g.chance(4) else n

    def k_twodefaults(self, proj):
        ex = [n for n in nodes(proj, (E.Switch, E.MSwitch)) if len(n.cases) >= 2]
        if ex and self.g.chance(2):
            sw = self.pick(ex)
            a, b = self.draw(st.permutations(range(len(sw.cases))))[:2]
            sw.cases[a].hdr = sw.cases[b].hdr = None
            if isinstance(sw, E.Switch) and not sw.cases[-1].body:
                raise Discard()
            return
        if self.g.chance(3):
            n = self.g.i(2, 4)
            cs = [E.MCase(E.CVal(E.Int(j)), E.Str("t%d" % j)) for j in range(n)]
            a, b = self.draw(st.permutations(range(n)))[:2]
            cs[a].hdr = cs[b].hdr = None
            self.put(self.any_place(proj), self.wrap_block(E.MSwitch(self.pick(["message_SwitchTalk", "message_SwitchMonologue"]), E.Const("$A"), cs)))
            return
        n = self.g.i(2, 4)
        cs = [E.Case(E.CVal(E.Int(j)), self.body() if j == n - 1 or self.g.chance(2) else []) for j in range(n)]
        a, b = self.draw(st.permutations(range(n)))[:2]
        cs[a].hdr = cs[b].hdr = None
        self.put(self.any_place(proj), self.wrap_block(E.Switch(E.SVar(E.Const("$A")), cs)))

    def k_msgstatements(self, proj):
        ex = [n for n in nodes(proj, E.MSwitch) if n.cases]
        if not ex or self.g.chance(2):
            n = self.g.i(1, 3)
            cs = [E.MCase(E.CVal(E.Int(j)) if j or self.g.chance(2) else None, E.Str("t%d" % j)) for j in range(n)]
            sw = E.MSwitch(self.pick(["message_SwitchTalk", "message_SwitchMonologue"]), E.Const("$A"), cs)
            self.put(self.any_place(proj), self.wrap_block(sw))
        else:
            sw = self.pick(ex)
        self.pick(sw.cases).text = E.Str("PLACEHOLDER")
        st_ = self.pick(["A();", "A(); B();", "$X = 1;", "return;", "break;", "end;", "if (debug) { A(); }", "@lx;", "jump @lx;", "~unknown_macro();",
                         "switch ($A) { case 1: A(); }", "with (actor 1) { A(); }", "'t' A();", "A(); 't'", "forever { A(); }"])
        return dict(patch=(("'PLACEHOLDER'", st_),))

    def k_indexop(self, proj):
        """no op can change a bit other than by setting it, nor set it to the value of a variable"""
        ex = [n for n in nodes(proj, E.ASet) if n.idx is not None]
        if ex and self.g.chance(2):
            n = self.pick(ex)
        else:
            n = E.ASet(E.Const(self.pick(["$A", boot.PERF, "$SCENARIO_MAIN"])), self.g.i(0, 9), "=", E.Int(self.g.i(0, 3)))
            self.put(self.any_place(proj), self.wrap(n, loop=True))
        if self.g.chance(4):
            n.vof, n.val = True, E.Const("$B")
        else:
            n.op = self.pick(["+=", "-=", "*=", "/="])

    def k_casetext(self, proj):
        """a text as a case (or the default) of a switch that shows no message"""
        ex = [n for n in nodes(proj, E.Switch) if n.cases]
        if not ex or self.g.chance(2):
            n = self.g.i(1, 4)
            cs = [E.Case(E.CVal(E.Int(j)), self.body() if j == n - 1 or self.g.chance(2) else []) for j in range(n)]
            if self.g.chance(2):
                cs[self.g.i(0, n - 1)].hdr = None
            sw = E.Switch(self.pick([E.SVar(E.Const("$A")), E.SVar(E.Const("$A"))]), cs)
            self.put(self.any_place(proj), self.wrap_block(sw))
        else:
            sw = self.pick(ex)
        last = not sw.cases[-1].body
        c = self.pick(sw.cases if not last else sw.cases[-1:])
        c.body[:] = [E.Op("PLACEHOLDER", [])]
        return dict(patch=(("PLACEHOLDER();", self.pick(["'t'", '"t"', "{english='t'}", "{english='t', german='u'}"])),))

    def k_withlabel(self, proj):
        w = E.With(self.pick(["actor", "object", "performer"]), self.pick([E.Int(1), E.Const("ACTOR_A")]), E.Label("inwith", self.g.chance(2)))
        self.put(self.any_place(proj), self.wrap_block(w))
        if self.g.chance(2):
            self.put(self.any_place(proj), self.wrap_block(E.Jump("inwith")))

    def k_notbit(self, proj):
        params = set()
        for f in proj.files:
            for m in f.prog.macros:
                params |= set(m.params)
        v = E.Const(self.pick(["$A", "$SCENARIO_MAIN", "$" + boot.PERF.lstrip("$") + "X", "CONST", "$p0x", "5"]))
        if v.name == "5":
            v = E.Int(5)
        h = E.HBit(True, v, self.g.i(0, 9))
        k = self.g.i(0, 5)
        if k <= 2:
            hdrs = [h] if k == 0 else [E.HNeg(False, "debug"), h] if k == 1 else [h, E.HNeg(True, "edit")]
            arms = [E.Arm(self.g.chance(2), hdrs, self.body())]
            if self.g.chance(2):
                arms.insert(0, E.Arm(False, [E.HNeg(False, "variation")], self.body()))
            n = E.If(arms, self.body() if self.g.chance(2) else None)
        elif k == 3:
            n = E.While(self.g.chance(2), h, self.body())
        elif k == 4:
            n = E.For(E.Op("A", []), h, E.Op("B", []), self.body())
        else:
            ex = [n for n in nodes(proj, E.Arm)]
            if not ex:
                raise Discard()
            self.pick(ex).hdrs.append(h)
            return
        self.put(self.any_place(proj), n)

    def k_unknown(self, proj):
        known = set(proj.all_macros())
        names = ["nosuch", "walk", "A", "Walk", "WALK"]
        # a macro of a file that the calling file does not import
        p = self.any_place(proj)
        reach = reached(proj, p.file)
        vis = {m.name for j in reach for m in proj.files[j].prog.macros}
        foreign = sorted(known - vis)
        if foreign and self.g.chance(2):
            name = self.pick(foreign)
        else:
            name = self.pick([n for n in names if n not in known])
        self.put(p, self.wrap(E.MCall(name, [E.Int(1)] * self.g.i(0, 2)), loop=True))

    def reached_files(self, proj):
        return [f for j, f in enumerate(proj.files) if j in reached(proj)]

    def k_recursive(self, proj):
        f = self.pick(self.reached_files(proj))
        n = self.g.i(1, 4)
        names = ["rec%d" % j for j in range(n)]
        new = [E.Macro(nm, [], [E.Op("A", []), self.wrap(E.MCall(names[(j + 1) % n], []), loop=True)][self.g.i(0, 1):]) for j, nm in enumerate(names)]
        if self.g.chance(3) and f.prog.macros:  # also through an existing macro
            m = self.pick(f.prog.macros)
            m.body.insert(self.g.i(0, len(m.body)), E.MCall(names[0], []))
            new[-1].body.append(E.MCall(m.name, [E.Int(0)] * len(m.params)))
        for m in new:
            f.prog.macros.insert(self.g.i(0, len(f.prog.macros)), m)
        f.prog.order = None
        if self.g.chance(2):
            self.put(self.any_place(proj, lambda p: isinstance(p.owner, E.Routine)), E.MCall(self.pick(names), []))

    def k_fewargs(self, proj):
        ms = proj.all_macros()
        calls = [c for f in self.reached_files(proj) for o in f.prog.macros + f.prog.routines for c in E.walk(o)
                 if isinstance(c, E.MCall) and c.name in ms and len(ms[c.name].params) > 0]
        if calls and self.g.chance(2):
            c = self.pick(calls)
            c.args = c.args[: self.g.i(0, len(ms[c.name].params) - 1)]
            c.trail = c.trail and bool(c.args)
            return
        np = self.g.i(1, 4)
        ps = ["$a%d" % j for j in range(np)]
        body = [E.Op("A", [E.Const(p) for p in ps][: self.g.i(0, np)])]
        proj.main.prog.macros.insert(self.g.i(0, len(proj.main.prog.macros)), E.Macro("greedy", ps, body))
        proj.main.prog.order = None
        call = E.MCall("greedy", [E.Int(j) for j in range(self.g.i(0, np - 1))])
        p = self.any_place(proj, lambda p: p.file == len(proj.files) - 1)
        if isinstance(p.owner, E.Macro) and p.owner.name == "greedy":
            raise Discard()
        self.put(p, self.wrap(call, loop=True))

    def k_missing(self, proj):
        j = self.pick([j for j, f in enumerate(proj.files) if j in reached(proj)])
        bad = self.pick(["./nosuchfile.exps", "nosuchfile.exps", "/nonexistent/x.exps", "../nosuchdir/f0.exps", "./", ".", "..", "./sub", "sub/nosuch.exps",
                         "./MAIN.exps", "./main", "x/../f0.exps", "./main.exps/x", "f9.exps", "/"])
        return dict(imports={j: bad})

    def k_cyclic(self, proj):
        # an import back to a file from which this one is reached
        n = len(proj.files)
        reach = {j: {j} for j in range(n)}
        for j in range(n):
            for _, k in proj.files[j].imports:
                reach[j] |= reach[k]
        pairs = [(a, b) for a in reach[n - 1] for b in range(n) if a in reach[b] and b in reach[n - 1]]
        a, b = self.pick(pairs)
        styles = ["rel", "abs"] + (["lookup"] if proj.files[b].path.startswith("lib") and not proj.rel_lookup else [])
        proj.files[a].imports.insert(self.g.i(0, len(proj.files[a].imports)), (self.pick(styles), b))
        proj.decoys = []
        return dict(odd=self.g.i(0, 3))

    def k_routines(self, proj):
        js = [j for j in range(len(proj.files) - 1) if j in reached(proj)]
        kind = self.g.i(0, 3)
        if js and kind:
            f = proj.files[self.pick(js)]
            r = E.Routine("def", 0, None, None, self.pick([[E.Op("A", [])], [E.Label("only")], [E.Ctl("return")], [E.MCall(f.prog.macros[0].name, [E.Int(0)] * len(f.prog.macros[0].params))]
                                                          if f.prog.macros else [E.Op("A", [])]]))
            rs = [r]
            if self.g.chance(4):
                rs = [E.Routine("coro", 0, None, "CORO_X", [E.Op("A", [])])]
            elif self.g.chance(4):
                rs = [E.Routine("actor", 0, E.Int(3), None, [E.Op("A", [])]), E.Routine("object", 1, E.Int(3), None, None)]
            f.prog.routines = rs
            order = list(f.prog.macros)
            f.prog.order = self.pick([rs + order, order + rs])
            return
        text = self.pick(["def 0 { A(); }", "coro X { A(); }", MARK + "def 0 { A(); }", MARK + "coro X { A(); }", "def 0 { @l; }", "macro q() { A(); } def 0 { ~q(); }",
                          "def 0 for_actor(1) { A(); } def 1 for_object(2) { alias previous; }"])
        j = self.pick([j for j in range(len(proj.files)) if j in reached(proj)])
        d = os.path.dirname(proj.files[j].path)
        return dict(imports={j: "./extra_r.exps"}, extra=((d + "/extra_r.exps", text),))


@st.composite
def ruined(draw, kind=None, maxfiles=2, budget=8):
    kind = kind or draw(st.sampled_from(KINDS))
    # cloned, as the generator may share nodes between the projects of different cases
    proj = copy.deepcopy(draw(gen_es.projects(gen_es.Cfg(budget=budget, routines=2), maxfiles)))
    try:
        more = Ruin(draw, kind).ruin(proj) or {}
    except Discard:
        return None
    return kind, proj, more, draw(st.booleans())


GOOD = "macro gm($x) { A($x); } def 0 { ~gm(1); switch ($A) { case 1: B(); } }"


def prop_rejected(case, ctx):
    if case is None:
        raise Discard()
    kind, proj, more, first = case
    proj = copy.deepcopy(proj)
    root, texts = project.write(proj)
    text = texts[proj.main.path][1].text
    files = {p: r.text for p, (_, r) in texts.items()}
    for j, imp in more.get("imports", {}).items():
        p = proj.files[j].path
        files[p] = f"import '{imp}';\n" + files[p] if first else _after_imports(files[p], f"import '{imp}';\n")
    for old, new in more.get("patch", ()):
        hit = [p for p in files if old in files[p] or old.replace("'", '"') in files[p]]
        if len(hit) != 1:
            raise Discard()
        files[hit[0]] = files[hit[0]].replace(old, new).replace(old.replace("'", '"'), new)
    for p, t in more.get("extra", ()):
        files[p] = t
    for p, t in files.items():
        with open(os.path.join(root, p), "w", encoding="utf-8", newline="") as fh:
            fh.write(t)
    shown = f"[{kind}]\n" + "\n".join(f"--- {p}\n{t}" for p, t in files.items()) + f"\nlookup: {proj.lookup}"
    main = os.path.join(root, proj.main.path)
    if more.get("odd") == 1:
        main = os.path.join(root, os.path.dirname(proj.main.path), "..", proj.main.path)
    elif more.get("odd") == 2:
        main = os.path.relpath(main)
    c = ExplorerScriptSsbCompiler(boot.PERF, project.lookup_paths(proj, root))
    if first:
        c.compile(GOOD, main)
    r = attempt(files[proj.main.path], main, shown=shown, comp=c)
    if not isinstance(r, BaseException):
        raise Violation(f"accepted although meaningless ({kind})", shown, sig=kind)
    left = [a for a in ("routine_ops", "routine_infos", "named_coroutines", "source_map") if getattr(c, a) is not None]
    if left:
        raise Violation(f"the rejected compilation ({kind}) left {left} on the compiler", shown, sig="left")
    ctx.label(kind, type(r).__name__, *(["reused"] if first else []))
    if isinstance(r, ParseError) and kind not in ("msgstatements", "withlabel"):
        raise Violation(f"harness: the ruined program ({kind}) did not parse: {r}", shown, sig="parse")
    ctx.nontrivial(shown)
    return files, main, proj, root


def _after_imports(text, imp):
    lines = text.split("\n")
    k = 0
    for j, l in enumerate(lines):
        if l.startswith("import"):
            k = j + 1
    return "\n".join(lines[:k]) + ("\n" if k else "") + imp + "\n".join(lines[k:])


@st.composite
def ruined_ssb(draw):
    """An SsbScript program with one label that nowhere exists, at any position of an operation (or with a jump that has lost its label)"""
    rs = draw(gen_ssb.cfg_sets(maxroutines=3, maxblocks=3))
    if rs is None:
        return None
    prog = copy.deepcopy(gen_ssbscript.program(rs))
    ops = [n for r in prog.routines if r.body for n in E.walk(r) if isinstance(n, E.Op)]
    if not ops:
        return None
    op = draw(st.sampled_from(ops))
    args = list(op.args)
    k = draw(st.integers(0, 3))
    has = [j for j, a in enumerate(args) if isinstance(a, gen_ssbscript.Ref)]
    if k == 0 and has:
        args[has[-1]] = gen_ssbscript.Ref("no_such_label")
    else:
        args.insert(draw(st.integers(0, len(args))), gen_ssbscript.Ref("no_such_label"))
    op.args = args
    return E.render(gen_ssbscript.SsbPrinter().program(prog).toks, E.pretty_seps()).text, draw(st.booleans())


def prop_rejected_ssb(case, ctx):
    if case is None:
        raise Discard()
    text, marked = case
    if marked:
        r = attempt(MARK + text)
    else:
        try:
            r = gen_ssbscript.compile_ssbs(text)
        except (ParseError, SsbCompilerError, ValueError) as e:
            r = e
        except Exception as e:
            raise Violation(f"undocumented exception {type(e).__name__}: {e}", text)
    if not isinstance(r, BaseException):
        raise Violation("accepted although it refers to an undefined label (SsbScript)", text)
    if isinstance(r, ParseError):
        raise Violation(f"harness: the ruined SsbScript program did not parse: {r}", text, sig="parse")
    ctx.label("ssb-label", type(r).__name__)
    ctx.nontrivial(text)


# ---------------------------------------------------------------- the command line tool


def prop_cli(case, ctx):
    if case is None:
        raise Discard()
    which, payload = case
    d = harness.scratch_dir()
    sf = d + "/settings.json"
    with open(sf, "w") as fh:
        json.dump({"settings": {"performance_progress_list_var_name": boot.PERF,
                                "dungeon_mode_constants": {"open": "O", "closed": "C", "request": "R", "open_request": "OR"}}}, fh)
    if which == "ruined":
        if payload is None:
            raise Discard()
        files, main, proj, root = prop_rejected(payload, ctx)
        args = ["--lookup"] + project.lookup_paths(proj, root)
        if proj.rel_lookup:
            args = ["--lookup"] + [os.path.join(root, lp) for lp in proj.lookup]
        shown = f"[{payload[0]}]\n" + "\n".join(f"--- {p}\n{t}" for p, t in files.items())
        expect = None
    else:
        os.makedirs(d + "/c", exist_ok=True)
        main = d + "/c/main.exps"
        try:
            with open(main, "w", encoding="utf-8", newline="") as fh:
                fh.write(payload)
        except UnicodeEncodeError:
            raise Discard()
        with open(main, encoding="utf-8") as fh:
            r = attempt(fh.read(), main)
        args, shown, expect = [], payload, not isinstance(r, BaseException)
        ctx.nontrivial(payload)
    p = subprocess.run([sys.executable, "-m", "explorerscript.cli.compile", main, "--settings", sf] + args, cwd=boot.REPO if hasattr(boot, "REPO") else "/repo",
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=120)
    ctx.label("cli", f"exit{p.returncode}")
    if which == "ruined" or not expect:
        if p.returncode == 0:
            raise Violation("the command line compiler exits with 0 for a rejected program", shown)
        if p.stdout.strip():
            raise Violation(f"the command line compiler printed output for a rejected program: {p.stdout[:200]!r}", shown)
        if not p.stderr.strip():
            raise Violation("the command line compiler rejects a program without a message on stderr", shown)
    else:
        if p.returncode != 0:
            raise Violation(f"the command line compiler fails ({p.returncode}) for an accepted program: {p.stderr[-300:]!r}", shown)
        json.loads(p.stdout)


RULE = ("Total: derivations of the published grammars (as they are, with unusual values, with token damage), meaningful programs with moved, "
        "copied, deleted statements or exchanged tokens, token and character soups, attribute headers, deep nesting, odd imports; non-trivial: "
        "not a plain syntax error. Rejected: valid multi-file projects with one meaningless construct put at a random place; non-trivial: all that "
        "remain buildable. Distinct by the text of all files.")


def campaigns():
    kw = dict(case_seconds=60, hang_is_violation=True)
    C = Campaign
    return [
        C("derived", texts(T.derived()), prop_total, 2400, 20000, **kw),
        C("derived-damaged", texts(T.derived(damage=3)), prop_total, 1600, 12000, **kw),
        C("derived-wild", texts(T.derived(wild=2)), prop_total, 1200, 8000, **kw),
        C("ssbscript", texts(st.one_of(T.derived(ssb=True), T.derived(ssb=True, wild=2), T.derived(ssb=True, damage=2)).map(lambda t: MARK + t)), prop_total, 1600, 12000, **kw),
        C("reshaped", texts(reshaped()), prop_total, 2000, 16000, **kw),
        C("corrupted", texts(T.corrupted(1, 2)), prop_total, 600, 6000, **kw),
        C("soups", texts(st.one_of(soups(), SOUP, headed())), prop_total, 3200, 24000, **kw),
        C("deep", texts(deep()), prop_total, 120, 800, **kw),
        C("imports", importing(), prop_imports, 1200, 8000, **kw),
        C("rejected", ruined(), prop_rejected, 4000, 32000, **kw),
        C("rejected-single", ruined(maxfiles=0, budget=4), prop_rejected, 2400, 16000, **kw),
        C("rejected-ssbscript", ruined_ssb(), prop_rejected_ssb, 800, 6000, **kw),
        C("cli", st.one_of(st.tuples(st.just("ruined"), ruined(maxfiles=1, budget=4)), st.tuples(st.just("text"), st.one_of(T.derived(depth=6), T.corrupted(0, 1)))),
          prop_cli, 48, 320, **kw),
    ]


def main(replay=None):
    return run("C10", "exploration", RULE, campaigns(), replay=replay, assumptions=[
        "Recursion depth: the deciding processes run with a recursion limit of 3000; deeper nesting must still raise a documented exception.",
        "Imported files and directories sit in a scratch directory; no case reads outside it except fixed device and missing paths.",
    ])
