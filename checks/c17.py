"""C17: the highlighting lexer is total and loses no text."""
import random
import sys
from dataclasses import replace

from hypothesis import strategies as st

from vlib import boot, es, esast as E, gen_es, gen_ssb, gen_ssbscript, layout
from vlib.harness import Campaign, Discard, Violation, run
from pygments.token import Error
from explorerscript.pygments.expslexer import ExplorerScriptLexer


def tokens(gen, n):
    out = []
    for t in gen:
        out.append(t)
        if len(out) > 4 * n + 1000:
            raise Violation(f"more than {len(out)} tokens for a text of {n} characters")
    return out


def normalised(text):
    """What Pygments' own input handling makes of a text (line ends, byte order mark)."""
    return text.removeprefix("\ufeff").replace("\r\n", "\n").replace("\r", "\n")


def check(text, accepted, norm):
    """norm: list that collects texts which only Pygments' normalisation changed."""
    lx = ExplorerScriptLexer()
    try:
        toks = tokens(lx.get_tokens(text), len(text))
        raw = tokens(lx.get_tokens_unprocessed(text), len(text))
    except Violation as v:
        raise Violation(v.msg, repr(text)) from None
    except Exception as e:
        raise Violation(f"the lexer raised {type(e).__name__}: {e}", repr(text))
    got = "".join(v for _, v in toks)
    if got != text and got != text + "\n":
        n = normalised(text)
        if n != text and got in (n, n + "\n"):
            norm.append(text)
        else:
            raise Violation(f"token texts give {got[:300]!r}", repr(text))
    got = "".join(v for _, _, v in raw)
    if got != text:
        raise Violation(f"get_tokens_unprocessed gives {got[:300]!r}", repr(text))
    pos = 0
    for p, _, v in raw:
        if p != pos:
            raise Violation(f"token {v!r} is said to be at {p}, is at {pos}", repr(text))
        pos += len(v)
    if accepted:
        for t, v in toks + [(t, v) for _, t, v in raw]:
            if t is Error or t in Error:
                raise Violation(f"error token {v!r} in an accepted source", text)
    return toks


PIECES = ['"', "'", '"""', "'''", "\\", "\\n", "\\\"", "\\'", "/*", "*/", "//", "/", "*", "\n", " ", "\t", "$", "§", "@", "~", "$x", "@l", "§l",
          "def", "if", "0", "0x1F", "0b2", "0o7", "07", ".5", "1.25", "-3", ".", ",", ";", "{", "}", "[", "]", "(", ")", "<", ">", "=", "&<<", "||",
          "Position", "x1", "_", "é", "日", "\U0001f600", "\x00", "\x0b", "\x0c", "\x85", "\u2028", "\ud800", "#", "!", "%", "`", "coro", "menu2",
          "\r", "\r\n", "\ufeff", "import", "break_loop", "\n\n", "  \n"]


@st.composite
def pieces(draw):
    n = draw(st.integers(0, 25))
    out = "".join(draw(st.sampled_from(PIECES)) for _ in range(n))
    rep = draw(st.sampled_from([1, 1, 1, 1, 3, 60, 400]))
    return (out * rep)[:6000]


def report(norm):
    if norm:
        raise Violation("carriage returns / byte order mark are normalised", repr(norm[0]), sig="pygments-normalises-input")


def prop_text(text, ctx):
    norm = []
    toks = check(text, False, norm)
    kinds = {str(t) for t, _ in toks}
    if len(kinds) > 1:
        ctx.nontrivial(text, repr(text[:300]))
    ctx.label(*kinds)
    report(norm)


def prop_src(case, ctx):
    kind, prog, seed, level, seplevel = case
    rnd = random.Random(seed)
    if kind == "es":
        text = layout.respell(prog, rnd, level, seplevel)[1].text
        comp = es.compile_es
    else:
        text = gen_ssbscript.text(prog, layout.RandomSpeller(rnd, level), layout.random_seps(rnd, seplevel))
        comp = gen_ssbscript.compile_ssbs
        if rnd.random() < 0.5:
            text, comp = "//?: is-ssb-script\n" + text, es.compile_es
    try:
        comp(text)
        acc = True
    except Exception:
        acc = False
    norm = []
    toks = check(text, acc, norm)
    if acc:
        ctx.nontrivial(text)
    ctx.label("accepted" if acc else "rejected", kind, *{str(t) for t, _ in toks})
    # prefixes and damaged versions of sources: total and lossless
    for _ in range(3):
        i, j = sorted((rnd.randrange(len(text) + 1), rnd.randrange(len(text) + 1)))
        check(text[i:j], False, norm)
        check(text[:i] + rnd.choice(PIECES) + text[i:], False, norm)
    report(norm)


def known(v, case, entries):
    for e in entries:
        if v.sig and e["id"] == v.sig:
            return e["id"]
    return None


RULE = ("Random sequences of lexically relevant pieces (also repeated up to 6000 characters) and arbitrary Unicode text; valid "
        "ExplorerScript and SsbScript sources in random layouts and spellings (acceptance decided by running the compiler), their "
        "substrings and damaged forms. Non-trivial: at least two token kinds (random text), accepted (sources).")


def campaigns():
    seeds = st.integers(0, 2**32 - 1)
    lv, sl = st.integers(0, 2), st.sampled_from([0, 1, 2, 2, 3, 4])
    rich = [replace(c, rich=True) for c in gen_es.CFGS.values()]
    return [
        Campaign("pieces", pieces(), prop_text, 12000, 200000, case_seconds=5, hang_is_violation=True),
        Campaign("unicode", st.text(max_size=60), prop_text, 4000, 60000, case_seconds=5, hang_is_violation=True),
        Campaign("sources", st.tuples(st.just("es"), st.one_of(*[gen_es.programs(c) for c in rich], gen_es.forms()), seeds, lv, sl), prop_src, 2000, 20000,
                 case_seconds=20, hang_is_violation=True),
        Campaign("ssbscript", st.tuples(st.just("ssb"), gen_ssb.cfg_sets(weird=True), seeds, lv, sl), prop_src, 800, 8000,
                 case_seconds=20, hang_is_violation=True),
    ]


def main(replay=None):
    return run("C17", "exploration", RULE, campaigns(), replay=replay, known_match=known, assumptions=[
        "Termination is judged by a time limit of 5 CPU seconds for texts of at most 6000 characters."])
