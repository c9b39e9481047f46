"""ExplorerScript AST, token printer and layout engine. Independent of the code under test."""
from __future__ import annotations

import copy
from dataclasses import dataclass, field
from typing import Any, Optional

# ---------------------------------------------------------------- values


@dataclass(frozen=True)
class Int:
    v: int


@dataclass(frozen=True)
class Fix:
    s: str  # canonical spelling  [-]W.F


@dataclass(frozen=True)
class Const:
    name: str  # constants and $variables


@dataclass(frozen=True)
class Str:
    s: str


@dataclass(frozen=True)
class Lang:
    items: tuple  # of (language, text)


@dataclass(frozen=True)
class Pos:
    name: str
    x: int
    xh: bool
    y: int
    yh: bool


def canon(v) -> tuple:
    """Canonical form of a value, comparable with ssbm.norm_param of what the compiler emits."""
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, Int):
        return ("int", v.v)
    if isinstance(v, Fix):
        return ("fix", v.s)
    if isinstance(v, Const):
        return ("const", v.name)
    if isinstance(v, Str):
        return ("cstr", v.s)
    if isinstance(v, Lang):
        return ("lstr", tuple(sorted(v.items)))
    if isinstance(v, Pos):
        return ("pos", v.name, v.x, bool(v.xh), v.y, bool(v.yh))
    raise TypeError(v)


# ---------------------------------------------------------------- statements (eq=False: identity matters)


class Node:
    pass


@dataclass(eq=False)
class Op(Node):
    name: str
    args: list
    ctx: Optional[tuple] = None  # (kind, value)
    trail: bool = False


@dataclass(eq=False)
class ASet(Node):
    var: Any
    idx: Optional[int]
    op: str
    val: Any
    vof: bool = False


@dataclass(eq=False)
class AClear(Node):
    var: Any


@dataclass(eq=False)
class AInit(Node):
    var: Any


@dataclass(eq=False)
class AReset(Node):
    var: Any  # None = dungeon_result


@dataclass(eq=False)
class AAdv(Node):
    val: Any


@dataclass(eq=False)
class ADun(Node):
    dun: Any
    val: Any


@dataclass(eq=False)
class AScn(Node):
    var: Any
    a: int
    b: int


@dataclass(eq=False)
class Label(Node):
    name: str
    par: bool = False  # § spelling


@dataclass(eq=False)
class Jump(Node):
    name: str


@dataclass(eq=False)
class CallL(Node):
    name: str


@dataclass(eq=False)
class Ctl(Node):
    kw: str


@dataclass(eq=False)
class With(Node):
    kind: str
    id: Any
    stmt: Node


# if headers
@dataclass(eq=False)
class HOp(Node):
    var: Any
    op: str
    val: Any
    vof: bool = False


@dataclass(eq=False)
class HBit(Node):
    neg: bool
    var: Any
    idx: int


@dataclass(eq=False)
class HNeg(Node):
    neg: bool
    what: str


@dataclass(eq=False)
class HScn(Node):
    var: Any
    op: str
    a: int
    b: int


@dataclass(eq=False)
class HOper(Node):
    name: str
    args: list


@dataclass(eq=False)
class Arm(Node):
    neg: bool
    hdrs: list
    body: list


@dataclass(eq=False)
class If(Node):
    arms: list
    els: Optional[list]


@dataclass(eq=False)
class SVar(Node):
    v: Any


@dataclass(eq=False)
class SOper(Node):
    name: str
    args: list


@dataclass(eq=False)
class SScn(Node):
    v: Any
    idx: int


@dataclass(eq=False)
class SRandom(Node):
    v: Any


@dataclass(eq=False)
class SDun(Node):
    v: Any


@dataclass(eq=False)
class SSector(Node):
    pass


@dataclass(eq=False)
class CVal(Node):
    v: Any


@dataclass(eq=False)
class CMenu(Node):
    s: Any


@dataclass(eq=False)
class CMenu2(Node):
    v: Any


@dataclass(eq=False)
class COp(Node):
    op: str
    v: Any
    vof: bool = False


@dataclass(eq=False)
class Case(Node):
    hdr: Any  # None = default
    body: list


@dataclass(eq=False)
class Switch(Node):
    hdr: Any
    cases: list


@dataclass(eq=False)
class MCase(Node):
    hdr: Any  # CVal | None
    text: Any


@dataclass(eq=False)
class MSwitch(Node):
    kind: str
    val: Any
    cases: list


@dataclass(eq=False)
class Forever(Node):
    body: list


@dataclass(eq=False)
class While(Node):
    neg: bool
    hdr: Any
    body: list


@dataclass(eq=False)
class For(Node):
    init: Node
    hdr: Any
    inc: Node
    body: list


@dataclass(eq=False)
class MCall(Node):
    name: str
    args: list
    trail: bool = False


@dataclass(eq=False)
class Routine(Node):
    kind: str  # def coro actor object performer
    id: int
    target: Any
    name: Optional[str]
    body: Optional[list]  # None = alias previous
    legacy: bool = False
    paren: bool = False


@dataclass(eq=False)
class Macro(Node):
    name: str
    params: list
    body: list


@dataclass(eq=False)
class Program(Node):
    routines: list = field(default_factory=list)
    macros: list = field(default_factory=list)
    imports: list = field(default_factory=list)
    order: Optional[list] = None  # top level order; None = macros then routines


SIMPLE = (Op, ASet, AClear, AInit, AReset, AAdv, ADun, AScn, Label, Jump, CallL, Ctl)


def walk(node):
    """All nodes below (and including) node, in source order."""
    if isinstance(node, (list, tuple)):
        for n in node:
            if isinstance(n, (Node, list)):
                yield from walk(n)
        return
    if not isinstance(node, Node):
        return
    yield node
    if isinstance(node, Program):
        for n in node.order if node.order is not None else list(node.macros) + list(node.routines):
            yield from walk(n)
        return
    for k, v in vars(node).items():
        if isinstance(v, (Node, list)):
            yield from walk(v)


def swapped(root, a, b):
    """A copy in which the constants named a and b have changed places."""
    root = copy.deepcopy(root)
    seen, todo, other = set(), [root], {a: b, b: a}
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if isinstance(n, Const):
            object.__setattr__(n, "name", other.get(n.name, n.name))
        elif isinstance(n, Macro):
            n.params = [other.get(p, p) for p in n.params]
            todo.append(n.body)
        elif isinstance(n, (list, tuple)):
            todo.extend(n)
        elif isinstance(n, dict):
            todo.extend(n.values())
        elif hasattr(n, "__dict__"):
            todo.extend(vars(n).values())
    return root


# ---------------------------------------------------------------- token printer


class Speller:
    """Default spellings. Subclasses vary them (C16, C04)."""

    def int(self, n: int) -> str:
        return str(n)

    def fix(self, s: str) -> str:
        return s

    def string(self, s: str) -> str:
        """Single-line spelling of a string without backslashes, \\r or \\f."""
        from vlib import layout

        forms = layout.single_forms(s)
        if not forms:
            import random

            forms = layout.multi_forms(s, random.Random(0))
        return forms[0]

    def pos_string(self, s: str) -> str:
        return self.string(s)

    def half(self, n: int, h: bool) -> str:
        return f"{n}.5" if h else self.int(n)

    def trail(self, given: bool) -> bool:
        return given

    def imp(self, s: str) -> str:
        return '"' + s + '"'

    def label(self, par: bool) -> str:
        return "§" if par else "@"

    def header(self, legacy: bool, paren: bool) -> tuple:
        """-> (legacy syntax, opening parenthesis, closing parenthesis)"""
        return legacy, paren, paren


@dataclass
class Tok:
    text: str
    marks: tuple = ()  # ("b", node) at begin


class TokenPrinter:
    def __init__(self, speller: Speller | None = None):
        self.sp = speller or Speller()
        self.toks: list[Tok] = []
        self.begin: dict[int, int] = {}  # id(node) -> token index of its first token
        self.keep: list = []
        self.posmarks: list = []  # (first token idx, last token idx, Pos, owner node)
        self.owner: Any = None
        self.elses: list = []  # (token idx of the else, If)

    def t(self, *texts: str) -> None:
        for x in texts:
            self.toks.append(Tok(x))

    def mark(self, node) -> None:
        self.begin[id(node)] = len(self.toks)
        self.keep.append(node)

    # values
    def value(self, v) -> None:
        sp = self.sp
        if isinstance(v, Int):
            self.t(sp.int(v.v))
        elif isinstance(v, Fix):
            self.t(sp.fix(v.s))
        elif isinstance(v, Const):
            self.t(v.name)
        elif isinstance(v, Str):
            self.t(sp.string(v.s))
        elif isinstance(v, Lang):
            self.t("{")
            for i, (k, s) in enumerate(v.items):
                if i:
                    self.t(",")
                self.t(k, "=", sp.string(s))
            if sp.trail(False):
                self.t(",")
            self.t("}")
        elif isinstance(v, Pos):
            a = len(self.toks)
            self.t("Position", "<", sp.pos_string(v.name), ",", sp.half(v.x, v.xh), ",", sp.half(v.y, v.yh), ">")
            self.posmarks.append((a, len(self.toks) - 1, v, self.owner))
        else:
            raise TypeError(v)

    def args(self, args, trail=False) -> None:
        self.t("(")
        for i, a in enumerate(args):
            if i:
                self.t(",")
            self.value(a)
        if args and self.sp.trail(trail):
            self.t(",")
        self.t(")")

    # statements
    def simple(self, s) -> None:
        """A simple statement including its semicolon."""
        self.mark(s)
        self.owner = s
        if isinstance(s, Op):
            self.t(s.name)
            if s.ctx:
                self.t("<", s.ctx[0])
                self.value(s.ctx[1])
                self.t(">")
            self.args(s.args, s.trail)
        elif isinstance(s, ASet):
            self.value(s.var)
            if s.idx is not None:
                self.t("[", self.sp.int(s.idx), "]")
            self.t(s.op)
            self.vof(s.vof, s.val)
        elif isinstance(s, AClear):
            self.t("clear")
            self.value(s.var)
        elif isinstance(s, AInit):
            self.t("init")
            self.value(s.var)
        elif isinstance(s, AReset):
            self.t("reset")
            if s.var is None:
                self.t("dungeon_result")
            else:
                self.t("scn", "(")
                self.value(s.var)
                self.t(")")
        elif isinstance(s, AAdv):
            self.t("adventure_log", "=")
            self.value(s.val)
        elif isinstance(s, ADun):
            self.t("dungeon_mode", "(")
            self.value(s.dun)
            self.t(")", "=")
            self.value(s.val)
        elif isinstance(s, AScn):
            self.value(s.var)
            self.t("=", "scn", "[", self.sp.int(s.a), ",", self.sp.int(s.b), "]")
        elif isinstance(s, Label):
            self.t(self.sp.label(s.par), s.name)
        elif isinstance(s, Jump):
            self.t("jump", "@", s.name)
        elif isinstance(s, CallL):
            self.t("call", "@", s.name)
        elif isinstance(s, Ctl):
            self.t(s.kw)
        else:
            raise TypeError(s)
        self.t(";")

    def vof(self, vof: bool, v) -> None:
        if vof:
            self.t("value", "(")
            self.value(v)
            self.t(")")
        else:
            self.value(v)

    def if_header(self, h) -> None:
        self.mark(h)
        self.owner = h
        if isinstance(h, HOp):
            self.value(h.var)
            self.t(h.op)
            self.vof(h.vof, h.val)
        elif isinstance(h, HBit):
            if h.neg:
                self.t("not")
            self.value(h.var)
            self.t("[", self.sp.int(h.idx), "]")
        elif isinstance(h, HNeg):
            if h.neg:
                self.t("not")
            self.t(h.what)
        elif isinstance(h, HScn):
            self.t("scn", "(")
            self.value(h.var)
            self.t(")", h.op, "[", self.sp.int(h.a), ",", self.sp.int(h.b), "]")
        elif isinstance(h, HOper):
            self.t(h.name)
            self.args(h.args)
        else:
            raise TypeError(h)

    def if_headers(self, arm: Arm) -> None:
        if arm.neg:
            self.t("not")
        self.t("(")
        for i, h in enumerate(arm.hdrs):
            if i:
                self.t("||")
            self.if_header(h)
        self.t(")")

    def block(self, body) -> None:
        self.t("{")
        self.stmts(body)
        self.t("}")

    def stmts(self, body) -> None:
        for s in body:
            self.stmt(s)

    def switch_header(self, h) -> None:
        self.mark(h)
        self.owner = h
        if isinstance(h, SVar):
            self.value(h.v)
        elif isinstance(h, SOper):
            self.t(h.name)
            self.args(h.args)
        elif isinstance(h, SScn):
            self.t("scn", "(")
            self.value(h.v)
            self.t(")", "[", self.sp.int(h.idx), "]")
        elif isinstance(h, SRandom):
            self.t("random", "(")
            self.value(h.v)
            self.t(")")
        elif isinstance(h, SDun):
            self.t("dungeon_mode", "(")
            self.value(h.v)
            self.t(")")
        elif isinstance(h, SSector):
            self.t("sector", "(", ")")
        else:
            raise TypeError(h)

    def case_header(self, h) -> None:
        self.mark(h)
        self.owner = h
        if isinstance(h, CVal):
            self.value(h.v)
        elif isinstance(h, CMenu):
            self.t("menu", "(")
            self.value(h.s)
            self.t(")")
        elif isinstance(h, CMenu2):
            self.t("menu2", "(")
            self.value(h.v)
            self.t(")")
        elif isinstance(h, COp):
            self.t(h.op)
            self.vof(h.vof, h.v)
        else:
            raise TypeError(h)

    def stmt(self, s) -> None:
        if isinstance(s, SIMPLE):
            return self.simple(s)
        self.mark(s)
        self.owner = s
        if isinstance(s, With):
            self.t("with", "(", s.kind)
            self.value(s.id)
            self.t(")", "{")
            self.simple(s.stmt)
            self.t("}")
        elif isinstance(s, If):
            for i, a in enumerate(s.arms):
                self.mark(a)
                self.t("elseif" if i else "if")
                self.if_headers(a)
                self.block(a.body)
            if s.els is not None:
                self.elses.append((len(self.toks), s))
                self.t("else")
                self.block(s.els)
        elif isinstance(s, Switch):
            self.t("switch", "(")
            self.switch_header(s.hdr)
            self.t(")", "{")
            for c in s.cases:
                self.mark(c)
                if c.hdr is None:
                    self.t("default")
                else:
                    self.t("case")
                    self.case_header(c.hdr)
                self.t(":")
                self.stmts(c.body)
            self.t("}")
        elif isinstance(s, MSwitch):
            self.t(s.kind, "(")
            self.value(s.val)
            self.t(")", "{")
            for c in s.cases:
                self.mark(c)
                if c.hdr is None:
                    self.t("default")
                else:
                    self.t("case")
                    self.case_header(c.hdr)
                self.t(":")
                self.value(c.text)
            self.t("}")
        elif isinstance(s, Forever):
            self.t("forever")
            self.block(s.body)
        elif isinstance(s, While):
            self.t("while")
            if s.neg:
                self.t("not")
            self.t("(")
            self.if_header(s.hdr)
            self.t(")")
            self.block(s.body)
        elif isinstance(s, For):
            self.t("for", "(")
            self.simple(s.init)
            self.if_header(s.hdr)
            self.t(";")
            self.simple(s.inc)
            self.t(")")
            self.block(s.body)
        elif isinstance(s, MCall):
            self.t("~" + s.name)
            self.args(s.args, s.trail)
            self.t(";")
        else:
            raise TypeError(s)

    def routine(self, r: Routine) -> None:
        self.mark(r)
        self.owner = r
        if r.kind == "coro":
            self.t("coro", r.name)
        else:
            self.t("def", self.sp.int(r.id))
            if r.kind != "def":
                legacy, po, pc = self.sp.header(r.legacy, r.paren)
                if legacy:
                    self.t("for_" + r.kind)
                else:
                    self.t("for", r.kind)
                if po:
                    self.t("(")
                self.value(r.target)
                if pc:
                    self.t(")")
        if r.body is None:
            self.t("{", "alias", "previous", ";", "}")
        else:
            self.block(r.body)

    def macro(self, m: Macro) -> None:
        self.mark(m)
        self.t("macro", m.name, "(")
        for i, p in enumerate(m.params):
            if i:
                self.t(",")
            self.t(p)
        self.t(")")
        self.block(m.body)

    def program(self, p: Program) -> "TokenPrinter":
        for imp in p.imports:
            self.t("import", self.sp.imp(imp), ";")
        for n in p.order if p.order is not None else list(p.macros) + list(p.routines):
            if isinstance(n, Macro):
                self.macro(n)
            else:
                self.routine(n)
        return self


WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$~.")


def must_separate(a: str, b: str) -> bool:
    """Whether token texts a, b would lex differently when written without anything between them."""
    if not a or not b:
        return False
    if a[-1] in WORD and b[0] in WORD:
        return True
    if a[-1] in WORD and b[0] == "-" and b[1:2] in WORD:
        return True
    # operators that could grow
    if a[-1] in "=<>!&^+-*/|" and b[0] in "=<>&|/*":
        return True
    if a[-1] in "'\"" and b[0] in "'\"":
        return True
    return False


@dataclass
class Rendered:
    text: str
    starts: list  # per token (line, col), 0-based
    ends: list  # position right after the token


def _adv(line: int, col: int, s: str):
    # ANTLR counts \n only
    n = s.count("\n")
    if n:
        return line + n, len(s) - s.rfind("\n") - 1
    return line, col + len(s)


def render(toks: list[Tok], seps) -> Rendered:
    """seps(i, prev, cur) -> text put before token i (i == len(toks): trailing text)."""
    out: list[str] = []
    starts, ends = [], []
    line = col = 0
    prev = ""
    for i, tok in enumerate(toks):
        s = seps(i, prev, tok.text)
        if s == "" and must_separate(prev, tok.text):
            s = " "
        out.append(s)
        line, col = _adv(line, col, s)
        starts.append((line, col))
        out.append(tok.text)
        line, col = _adv(line, col, tok.text)
        ends.append((line, col))
        prev = tok.text
    out.append(seps(len(toks), prev, ""))
    return Rendered("".join(out), starts, ends)


def pretty_seps():
    depth = [0]
    paren = [0]

    def seps(i, prev, cur):
        if cur == "}":
            depth[0] -= 1
        if prev == "{":
            depth[0] += 1
        if prev == "(":
            paren[0] += 1
        if cur == ")":
            paren[0] -= 1
        if i == 0:
            return ""
        if cur == "":
            return "\n"
        if paren[0] > 0 or cur in (";", ",", ")", "(", "]", ":"):
            return " " if must_separate(prev, cur) or prev in (",", ";") else ""
        if prev in ("{", ";", "}", ":") or cur == "}":
            return "\n" + "    " * max(depth[0], 0)
        if prev in ("(", "[", "@", "§", "<", "~"):
            return ""
        return " "

    return seps


def to_text(p: Program, speller=None) -> str:
    tp = TokenPrinter(speller).program(p)
    return render(tp.toks, pretty_seps()).text
