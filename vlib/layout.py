"""Random layouts and alternative spellings of a token sequence, and the specification's reading of literals."""
from __future__ import annotations

import random
import re

from vlib import esast as E

# ---------------------------------------------------------------- literals as docs/language_spec.rst reads them

SINGLE = re.compile(r"""'(?:\\.|[^\\\r\n\f'])*'|"(?:\\.|[^\\\r\n\f"])*\"""", re.S)


def read_single(lit: str):
    """Value of a single line literal (None if it is none)."""
    if not SINGLE.fullmatch(lit):
        return None
    body, out, i = lit[1:-1], [], 0
    while i < len(body):
        two = body[i:i + 2]
        if two in ("\\n", "\\'", '\\"'):
            out.append("\n" if two == "\\n" else two[1])
            i += 2
        else:
            out.append(body[i])
            i += 1
    return "".join(out)


def read_multi(lit: str):
    """Value of a triple quoted literal after the documented dedent rules (None if it is none)."""
    d = lit[:3]
    if d not in ("'''", '"""') or len(lit) < 6 or lit.find(d, 3) != len(lit) - 3:
        return None
    lines = lit[3:-3].split("\n")
    if len(lines) == 1:
        return lines[0]
    first, mid, last = lines[0], lines[1:-1], lines[-1]
    drop_last = last.strip(" \t") == ""
    if not drop_last:
        mid = mid + [last]
    least = min((len(x) - len(x.lstrip(" \t")) for x in mid), default=0)
    mid = [x[least:] for x in mid]
    if first != "":
        mid = [first] + mid
    return "\n".join(mid)


def read_string(lit: str):
    return read_multi(lit) if lit[:3] in ("'''", '"""') and len(lit) >= 6 else read_single(lit)


def single_forms(s: str, rnd=None):  # pylint: disable=unused-argument
    out = []
    for q in "'\"":
        o = "\"" if q == "'" else "'"
        for esc_other in (False, True):
            b = s.replace(q, "\\" + q).replace("\n", "\\n")
            if esc_other:
                b = b.replace(o, "\\" + o)
            lit = q + b + q
            if read_single(lit) == s and lit[:3] not in ("'''", '"""') and lit not in out:
                out.append(lit)
    if s == "":
        out = ["''", '""']
    return out


def multi_forms(s: str, rnd: random.Random):
    if "\r\n" in s:
        return []
    out = []
    lines = s.split("\n")
    for d in ("'''", '"""'):
        ind = rnd.choice(["", " ", "    ", "\t", "\t  ", "           "])
        ws = rnd.choice(["", "  ", "\t", "        "])
        bodies = [s] if len(lines) == 1 else []
        bodies.append("\n" + "\n".join(ind + x for x in lines) + "\n" + ws)
        bodies.append("\n" + "\n".join(ind + x for x in lines))
        if len(lines) > 1:
            bodies.append(lines[0] + "\n" + "\n".join(ind + x for x in lines[1:]) + "\n" + ws)
            bodies.append(lines[0] + "\n" + "\n".join(ind + x for x in lines[1:]))
        for b in bodies:
            lit = d + b + d
            if "\r\n" not in b and read_multi(lit) == s:
                out.append(lit)
    return out


def spellable(s: str, single_only=False) -> bool:
    return bool(single_forms(s)) or not single_only and bool(multi_forms(s, random.Random(0)))


def spell_int(n: int, rnd) -> str:
    sign = "-" if n < 0 or n == 0 and rnd.random() < 0.2 else ""
    a = abs(n)
    k = rnd.randrange(6)
    if k == 0:
        d = "%x" % a
        if rnd.random() < 0.5:
            d = "".join(rnd.choice([c, c.upper()]) for c in d)
        return sign + rnd.choice(["0x", "0X"]) + "0" * rnd.choice([0, 0, 2]) + d
    if k == 1:
        return sign + rnd.choice(["0b", "0B"]) + "0" * rnd.choice([0, 0, 3]) + bin(a)[2:]
    if k == 2:
        return sign + rnd.choice(["0o", "0O"]) + "0" * rnd.choice([0, 0, 1]) + oct(a)[2:]
    if a == 0:
        return sign + "0" * rnd.randint(1, 4)
    return sign + str(a)


def spell_fix(s: str, rnd) -> str:
    """Respelling of [-]W.F: leading zeros added, a zero whole part dropped."""
    neg, body = s.startswith("-"), s.lstrip("-")
    w, f = body.split(".")
    w = w.lstrip("0")
    if w == "":
        w = rnd.choice(["", "0", "00"])
    else:
        w = "0" * rnd.choice([0, 0, 1, 4]) + w
    return ("-" if neg else "") + w + "." + f


def spell_half(n: int, h: bool, rnd) -> str:
    if not h:
        if rnd.random() < 0.7:
            return spell_int(n, rnd)
        return ("-" if n < 0 else "") + rnd.choice(["", "0", "000"]) + (str(abs(n)) if n else rnd.choice(["0", ""])) + "." + "0" * rnd.randint(1, 3)
    return ("-" if n < 0 else "") + rnd.choice(["", "0", "00"]) + (str(abs(n)) if n else rnd.choice(["0", ""])) + ".5" + "0" * rnd.choice([0, 0, 1, 3])


class RandomSpeller(E.Speller):
    """Varies every spelling the language leaves open. level 0 = the default spellings."""

    def __init__(self, rnd: random.Random, level: int = 2, multi=True):
        self.r, self.level, self.multi = rnd, level, multi
        self.used: set = set()

    def _on(self):
        return self.level >= 2 and self.r.random() < 0.6 or self.level == 1 and self.r.random() < 0.15

    def int(self, n):
        if not self._on():
            return str(n)
        self.used.add("int")
        return spell_int(n, self.r)

    def fix(self, s):
        if not self._on():
            return s
        self.used.add("fix")
        return spell_fix(s, self.r)

    def string(self, s):
        forms = single_forms(s)
        if self._on():
            forms = single_forms(s, self.r) + (multi_forms(s, self.r) if self.multi else [])
            self.used.add("string")
        if not forms:
            forms = multi_forms(s, self.r)
        return self.r.choice(forms)

    def pos_string(self, s):
        forms = single_forms(s, self.r) if self._on() else single_forms(s)
        return self.r.choice(forms)

    def half(self, n, h):
        if not self._on():
            return f"{n}.5" if h else str(n)
        self.used.add("pos")
        return spell_half(n, h, self.r)

    def trail(self, given):
        if self._on():
            self.used.add("trail")
            return self.r.random() < 0.5
        return given

    def imp(self, s):
        return self.r.choice(single_forms(s)) if self._on() else single_forms(s)[-1] if '"' in s else '"' + s + '"'

    def label(self, par):
        if self._on():
            self.used.add("label")
            return self.r.choice("@§")
        return "§" if par else "@"

    def header(self, legacy, paren):
        if self._on():
            self.used.add("header")
            po = self.r.random() < 0.5
            return self.r.random() < 0.5, po, po
        return legacy, paren, paren


COMMENTS = ["", "c", " def 0 {", " 'q ", ' "', " '''", " @x;", "*", " é§", " jump @l; ", "/", " \\", " }", "**", " import \"x\";",
            "?: author: me", "?: is-ssb-script: false", "? is-ssb-script: true", " is-ssb-script: true", "?:"]
MARKER = "?: is-ssb-script: true"  # an ordinary comment behind the first token


def random_seps(rnd: random.Random, level: int = 2, comments=True, tail=True):
    """Separator chooser. level 0: one space; 1: sparse oddities; 2: anything anywhere; 3: as compact as possible;
    4: mostly line breaks."""

    def ws():
        return rnd.choice([" ", "  ", "\n", "\t", "\n\n", "\r\n", "\r", " \n ", "\n\t", "\\\n", "\\ \n", "\\\r\n", "\\\f"])

    def comment(i):
        c = rnd.choice(COMMENTS) if i == 0 or rnd.random() < 0.98 else MARKER
        if rnd.random() < 0.5:
            if c.endswith("*"):
                c += " "
            return "/*" + c.replace("*/", "") + rnd.choice(["*/", " */", "\n*/", "\r\n x */", "\n//" + MARKER + "\n*/"])
        return "//" + c + rnd.choice(["\n", "\r\n", "\r"])

    def seps(i, prev, cur):
        last = cur == ""
        if level == 0:
            return "" if i == 0 else " "
        if level == 3 and rnd.random() < 0.95:
            return ""
        if level == 1 and rnd.random() < 0.85:
            return "" if i == 0 else " "
        out = ""
        if level == 4:
            out = rnd.choice(["\n", "\n", "\r\n", " ", "\n  "])
        for _ in range(rnd.choice([0, 1, 1, 1, 2, 3])):
            if comments and rnd.random() < 0.25:
                out += comment(i)
            else:
                out += ws()
        if last and comments and tail and rnd.random() < 0.1:
            out += rnd.choice(["/* unterminated", "//", "// end }", "/*"])
        return out

    return seps


def respell(prog: E.Program, rnd: random.Random, level: int, seplevel: int):
    sp = RandomSpeller(rnd, level)
    tp = E.TokenPrinter(sp).program(prog)
    return tp, E.render(tp.toks, random_seps(rnd, seplevel))
