"""Source texts that need not be meaningful: random derivations of the grammar, token-level corruptions, character soup."""
from __future__ import annotations

import re

from hypothesis import strategies as st

from vlib import boot, gen_es

ints = st.integers

# The parser rules of the language (copied from the language's grammar, not read from the repository).
GRAMMAR = r"""
start: imports top* ;
imports:  ;
top: funcdef | funcdef | funcdef | macrodef ;
macrodef: 'macro' IDENT '(' ')' suite | 'macro' IDENT '(' VAR ')' suite | 'macro' IDENT '(' VAR ',' VAR ')' suite | 'macro' IDENT '(' ',' VAR ')' suite ;
funcdef: 'def' RID suite | 'def' RID suite | 'def' RID target paren suite | 'coro' IDENT suite ;
target: 'for' 'actor' | 'for' 'object' | 'for' 'performer' | 'for' IDENT | 'for_actor' | 'for_object' | 'for_performer' ;
paren: int | '(' int ')' | '(' int | int ')' ;
suite: '{' stmt stmt* '}' | '{' stmt stmt* '}' | '{' stmt* ret '}' | '{' 'alias' 'previous' ';' '}' ;
ret: 'return' ';' | 'end' ';' | 'hold' ';' ;
stmt: simple ';' | simple ';' | simple ';' | ctx | if | switch | switch | mswitch | forever | for | while | mcall ;
simple: operation | operation | label | label | cntrl | jump | jump | call | assign | assign ;
cntrl: 'return' | 'end' | 'hold' | 'continue' | 'break' | 'break' | 'break_loop' ;
jump: 'jump' '@' LABEL ;
call: 'call' '@' LABEL ;
mcall: MACRO '(' ')' ';' | MACRO '(' args ')' ';' ;
ctx: 'with' '(' ctxh ')' '{' simple ';' '}' ;
ctxh: 'actor' int | 'object' int | 'performer' int | IDENT int ;
not: | | 'not' ;
if: 'if' not '(' ifh more* ')' '{' stmt* '}' elseif* else ;
more: '||' ifh ;
elseif: 'elseif' not '(' ifh more* ')' '{' stmt* '}' ;
else: | 'else' '{' stmt* '}' ;
ifh: int cop right | int cop right | ifbit | not neg | scn cop '[' INT ',' INT ']' | operation ;
ifbit: not int '[' INT ']' ;
neg: 'debug' | 'edit' | 'variation' ;
right: int | 'value' '(' int ')' ;
switch: 'switch' '(' swh ')' '{' case* '}' ;
mswitch: mkw '(' int ')' '{' mcase* '}' ;
mkw: 'message_SwitchTalk' | 'message_SwitchMonologue' ;
case: 'case' caseh ':' body | 'case' caseh ':' body | 'case' caseh ':' body | 'default' ':' body ;
mcase: 'case' caseh ':' body | 'case' int ':' string | 'case' int ':' string | 'default' ':' string ;
body: stmt* | stmt stmt* 'break' ';' | stmt | stmt 'break' ';' | string ;
swh: int | int | int | operation | scn '[' INT ']' | 'random' '(' int ')' | 'dungeon_mode' '(' int ')' | 'sector' '(' ')' ;
caseh: int | int | int | 'menu' '(' string ')' | 'menu2' '(' int ')' | cop right ;
forever: 'forever' '{' stmt* '}' ;
for: 'for' '(' simple ';' ifh ';' simple ';' ')' '{' stmt* '}' ;
while: 'while' not '(' ifh ')' '{' stmt* '}' ;
assign: int aop right | int aop right | int '[' INT ']' aop right | 'clear' int | 'init' int | 'reset' 'dungeon_result' | 'reset' scn | 'adventure_log' '=' int | 'dungeon_mode' '(' int ')' '=' int | int '=' 'scn' '[' INT ',' INT ']' ;
scn: 'scn' '(' int ')' ;
cop: 'FALSE' | 'TRUE' | '==' | '>=' | '<=' | '<' | '>' | '!=' | '&' | '^' | '&<<' ;
aop: '=' | '-=' | '+=' | '*=' | '/=' ;
int: INT | INT | IDENT | VAR | VAR | DECIMAL ;
operation: OP '(' ')' | OP '(' args ')' | OP '(' args ')' | OP '<' ctxh '>' '(' args ')' ;
args: arg | arg ',' arg | arg ',' arg ',' arg | arg ',' ;
arg: int | int | int | string | pos ;
pos: 'Position' '<' SHORT ',' parg ',' parg '>' ;
parg: INT | HALF ;
label: '@' LABEL | '§' LABEL ;
string: STR | STR | '{' lang '}' | '{' lang ',' lang '}' | '{' lang ',' '}' ;
lang: IDENT '=' STR ;
"""

SSBGRAMMAR = r"""
start: func* ;
func: 'def' RID suite | 'def' RID suite | 'def' RID target paren suite | 'coro' IDENT suite ;
target: 'for' 'actor' | 'for' 'object' | 'for' 'performer' | 'for' IDENT | 'for_actor' | 'for_object' | 'for_performer' ;
paren: int | '(' int ')' | '(' int | int ')' ;
suite: '{' stmt stmt* '}' | '{' stmt stmt* '}' | '{' stmt stmt* '}' | '{' 'alias' 'previous' ';' '}' ;
stmt: operation ';' | operation ';' | operation ';' | jumpop ';' | jumpop ';' | label ';' | label ';' ;
jumpop: 'Jump' '(' '@' LABEL ')' | 'Branch' '(' int ',' int ',' '@' LABEL ')' | 'Case' '(' int ',' '@' LABEL ')' | 'Call' '(' '@' LABEL ')' | OP '(' args ',' '@' LABEL ')' | OP '(' '@' LABEL ',' args ')' | OP '(' '@' LABEL ',' '@' LABEL ')' ;
int: INT | INT | IDENT | VAR | VAR | DECIMAL ;
operation: OP '(' ')' | OP '(' args ')' | OP '(' args ')' | OP '<' IDENT int '>' '(' args ')' ;
args: arg | arg ',' arg | arg ',' arg ',' arg | arg ',' ;
arg: int | int | int | string | pos ;
pos: 'Position' '<' SHORT ',' parg ',' parg '>' ;
parg: INT | HALF ;
label: '@' LABEL | '§' LABEL ;
string: STR | STR | '{' lang '}' | '{' lang ',' lang '}' | '{' lang ',' '}' ;
lang: IDENT '=' STR ;
"""


def _load(text):
    rules = {}
    for m in re.finditer(r"^(\w+): (.*?) ;$", text, re.M):
        alts = []
        for alt in re.split(r"(?:^|(?<=\s))\|(?=\s|$)", m[2]):
            seq = []
            for x in re.findall(r"'\|\|'|'[^']*'|\w+\*?", alt):
                if x[0] == "'":
                    seq.append(("t", x[1:-1]))
                elif x.endswith("*"):
                    seq.append(("*", x[:-1]))
                elif x.isupper():
                    seq.append(("l", x))
                else:
                    seq.append(("r", x))
            alts.append(seq)
        rules[m[1]] = alts
    # the smallest height of each rule
    height = {k: 10 ** 6 for k in rules}
    for _ in range(60):
        for k, alts in rules.items():
            height[k] = min(1 + max([0] + [height[x] for t, x in a if t == "r"]) for a in alts)
    assert max(height.values()) < 60, height
    cost = {k: [max([0] + [height[x] for t, x in a if t == "r"]) for a in alts] for k, alts in rules.items()}
    return rules, cost


G_ES, G_SSB = _load(GRAMMAR), _load(SSBGRAMMAR)

OPS = ["A", "B", "WaitEffect", "Jump", "Call", "Branch", "BranchBit", "BranchSum", "BranchDebug", "Case", "CaseMenu", "CaseText", "DefaultText",
       "Switch", "SwitchSector", "message_SwitchMenu", "message_SwitchMenu2", "message_SwitchTalk", "ProcessSpecial", "message_Menu",
       "SwitchDirection", "lives", "object", "performer", "Return", "End", "Hold", "JumpCommon", "flag_Set", "flag_CalcBit", "Destroy",
       "CallCommon", "main_EnterAdventure", "SwitchScenario", "BranchExecuteSub", "CaseScenario", "ForeignLabel", "actor"]
IDENTS = ["A", "CONST", "LEVEL_S01P01A", "actor", "object", "x", "english", "german", "CORO_1", "_", "TRUE1", "m1", "m2"]
VARS = ["$A", "$B", boot.PERF, "$SCENARIO_MAIN", "$p", "$q", "$_"]
LABELS = ["a", "b", "c", "d"]
MACROS = ["m1", "m2", "m3", "A", "x"]
INTS = ["0", "1", "2", "3", "5", "-1", "-0", "00", "0x10", "0b1", "0o7", "255", "256", "65535", "99999999999999999999", "-5", "-0x1"]
RIDS = ["0", "1", "2", "3", "-1", "00", "0x1", "4", "0b10", "-0", "7"]
DECS = ["1.5", "-.5", "0.0", ".25", "-0.5", "1.50", "-.0", "12.0", "3.75", "00.5"]
HALVES = ["1.5", "-.5", "0.0", ".5", "1.0", "1.25", "-1.50", ".00"]
STRS = ["'a'", '"b"', "''", "'''x\n y'''", '"""\n  a\n b\n"""', "'it\\'s'", "'\\n'", "'\\\\'", '"é"', "'''''''", '""""""']


class TG:
    def __init__(self, draw, grammar, wild=8):
        self.draw, (self.rules, self.cost) = draw, grammar
        self.rid = 0
        self.wild = wild
        self.n = 0

    def i(self, a, b):
        return self.draw(ints(a, b))

    def pick(self, xs):
        return xs[self.i(0, len(xs) - 1)]

    def lex(self, kind):
        self.n += 1
        if kind == "RID":
            if self.i(1, self.wild) == self.wild:
                return self.pick(RIDS)
            self.rid += 1
            return str(self.rid - 1)
        xs = {"INT": INTS, "IDENT": IDENTS, "VAR": VARS, "LABEL": LABELS, "OP": OPS, "DECIMAL": DECS, "HALF": HALVES, "STR": STRS}.get(kind)
        if kind in ("IDENT",) and self.i(0, 3) == 0:
            return self.pick(MACROS)
        if kind == "OP" and self.i(0, 2):
            return self.pick(OPS[:3])
        if kind == "MACRO":
            return "~" + self.pick(MACROS)
        if kind == "SHORT":
            return self.pick([s for s in STRS if s[:3] not in ("'''", '"""')])
        return self.pick(xs)

    def derive(self, rule, depth, out):
        alts = self.rules[rule]
        ok = [a for a, c in zip(alts, self.cost[rule]) if c <= max(depth, 0)]
        if not ok:
            m = min(self.cost[rule])
            ok = [a for a, c in zip(alts, self.cost[rule]) if c == m]
        for t, x in ok[self.i(0, len(ok) - 1)] if len(ok) > 1 else ok[0]:
            if t == "t":
                out.append(x)
            elif t == "l":
                out.append(self.lex(x))
            elif t == "r":
                self.derive(x, depth - 1, out)
            elif len(out) < 250:
                top = 4 if depth >= 8 else 3 if depth >= 4 else 1 if depth > 1 else 0
                for _ in range(self.i(0, top) if top else 0):
                    self.derive(x, depth - 1, out)
        return out


JUNK = ["(", ")", "{", "}", "[", "]", "<", ">", ",", ";", ":", "=", "@", "§", "$", "~", "not", "||", "==", "def", "coro", "macro", "if", "else",
        "elseif", "switch", "case", "default", "for", "forever", "while", "with", "break", "continue", "break_loop", "return", "jump", "call",
        "import", "alias", "previous", "value", "scn", "menu", "random", "Position", "'s'", "'", '"""', "1", "-1", "1.5", "x", "$x", "@a", "~m1",
        "def 0 { }", "/*", "//", "\\", "\x00", "é", "\ufeff", "message_SwitchTalk", "actor", "debug", "{ }", "{ A(); }", "A();"]


def corrupt(g, toks, lo=1, hi=4):
    """Token-level damage."""
    toks = list(toks)
    for _ in range(g.i(lo, hi)):
        n = len(toks)
        k = g.i(0, 5)
        if not n or k == 0:
            toks.insert(g.i(0, n), g.pick(JUNK))
        elif k == 1:
            del toks[g.i(0, n - 1)]
        elif k == 2:
            toks[g.i(0, n - 1)] = g.pick(JUNK)
        elif k == 3:
            a, b = g.i(0, n - 1), g.i(0, n - 1)
            toks[a], toks[b] = toks[b], toks[a]
        elif k == 4:
            a = g.i(0, n - 1)
            b = min(n, a + g.i(1, 12))
            c = g.i(0, n)
            toks[c:c] = toks[a:b]
        else:
            a = g.i(0, n - 1)
            del toks[a:a + g.i(1, 6)]
    return toks


def join(toks):
    out = []
    for t in toks:
        out.append(t)
        out.append("\n" if t in (";", "{", "}") else " ")
    return "".join(out)


@st.composite
def derived(draw, depth=9, damage=0, ssb=False, wild=8):
    """A derivation of the grammar, with up to `damage` corruptions."""
    g = TG(draw, G_SSB if ssb else G_ES, wild)
    toks = g.derive("start", g.i(3, depth), [])
    if damage:
        toks = corrupt(g, toks, 0, damage)
    return join(toks)


@st.composite
def corrupted(draw, lo=1, hi=3):
    """A meaningful program with a few damaged tokens."""
    from vlib import esast as E
    prog = draw(gen_es.any_programs())
    toks = [t.text for t in E.TokenPrinter().program(prog).toks]
    g = TG(draw, G_ES)
    return join(corrupt(g, toks, lo, hi))


# Dense control flow: labels and jumps in every position, little else. Always accepted.
LABELGRAMMAR = r"""
start: macro* routine routine* ;
macro: 'macro' MNAME '(' ')' '{' s s* '}' ;
routine: 'def' RID '{' s s* '}' | 'def' RID '{' s s* '}' | 'def' RID '{' s s* '}' | 'def' RID 'for' 'actor' '(' INTEGER ')' '{' s s* '}' | 'def' RID '{' 'alias' 'previous' ';' '}' | 'def' RID '{' d '}' ;
d: 'return' ';' | DEF ';' | DEF ';' DEF ';' | JUMP ';' | DEF ';' JUMP ';' ;
s: DEF ';' | DEF ';' | JUMP ';' | JUMP ';' | CALL ';' | 'A' '(' ')' ';' | end ';' | blk | blk | MCALL ';' | JUMP ';' DEF ';' ;
end: 'return' | 'end' | 'hold' ;
blk: ift | 'forever' '{' l* '}' | 'while' neg '(' h ')' '{' l* '}' | 'for' '(' simple ';' h ';' simple ';' ')' '{' l* '}' | sw | 'with' '(' 'actor' INTEGER ')' '{' w ';' '}' | msw ;
w: JUMP | CALL | end | 'A' '(' ')' ;
simple: 'A' '(' ')' | JUMP | DEF | CALL ;
neg: 'not' | 'B0' ;
h: 'debug' | '$A' '==' INTEGER | '$A' '[' INTEGER ']' | 'scn' '(' '$S' ')' '==' '[' INTEGER ',' INTEGER ']' | 'BranchSum' '(' ')' ;
ift: 'if' neg '(' h ')' '{' s* '}' | 'if' neg '(' h '||' h ')' '{' s* '}' | 'if' neg '(' h ')' '{' s* '}' 'else' '{' s* '}' | 'if' neg '(' h ')' '{' s* '}' 'elseif' neg '(' h ')' '{' s* '}' 'else' '{' s* '}' ;
sw: 'switch' '(' swh ')' '{' cs c '}' | 'switch' '(' swh ')' '{' cs c cs c '}' | 'switch' '(' swh ')' '{' c dflt '}' | 'switch' '(' swh ')' '{' dflt c '}' | 'switch' '(' swh ')' '{' dflt '}' ;
swh: '$A' | 'random' '(' INTEGER ')' | 'OpSw' '(' ')' ;
cs: c | e | c c ;
e: 'case' INTEGER ':' | 'case' INTEGER ':' 'case' INTEGER ':' ;
c: 'case' INTEGER ':' b b* | 'case' '<' INTEGER ':' b b* ;
dflt: 'default' ':' b b* ;
b: s | s | s | 'break' ';' ;
l: s | s | s | 'continue' ';' | 'break_loop' ';' ;
msw: 'message_SwitchTalk' '(' '$A' ')' '{' 'case' INTEGER ':' '"t"' 'default' ':' '"t"' '}' ;
"""
G_LABELS = _load(LABELGRAMMAR)


@st.composite
def labelled(draw, depth=8):
    g = TG(draw, G_LABELS)
    g.lex_base = g.lex

    def lex(kind):
        if kind in ("DEF", "JUMP", "CALL", "MCALL", "MNAME"):
            return "\0" + kind
        if kind == "INTEGER":
            return str(g.i(0, 3))
        if kind == "RID":
            g.rid += 1
            return str(g.rid - 1)
        return g.lex_base(kind)

    g.lex = lex
    toks = g.derive("start", g.i(4, depth), [])
    # a routine can only follow an earlier one
    scopes, cur, n_macro = [], [], 0
    for t in toks:
        if t in ("def", "macro"):
            cur = [t]
            scopes.append(cur)
        else:
            cur.append(t)
    macros = [s for s in scopes if s[0] == "macro"]
    routines = [s for s in scopes if s[0] == "def"]
    if routines and "alias" in routines[0]:
        routines[0][2:] = ["{", "A", "(", ")", ";", "}"]
    n = 0
    for group in [[m] for m in macros] + [routines]:
        names = []
        for s in group:
            for i, t in enumerate(s):
                if t == "\0DEF":
                    names.append(f"l{n}")
                    s[i] = f"@{names[-1]}"
                    n += 1
        for s in group:
            for i, t in enumerate(s):
                if t in ("\0JUMP", "\0CALL"):
                    s[i] = ("jump" if t == "\0JUMP" else "call") + f" @{g.pick(names)}" if names else "A()"
    for k, m in enumerate(macros):
        m[1] = f"m{k}"
        for i, t in enumerate(m):
            if t == "\0MCALL":
                m[i] = f"~m{g.i(0, k - 1)}()" if k else "A()"
    for s in routines:
        for i, t in enumerate(s):
            if t == "\0MCALL":
                s[i] = f"~m{g.i(0, len(macros) - 1)}()" if macros else "A()"
    return join([t for s in scopes for t in s if t != "B0"])
