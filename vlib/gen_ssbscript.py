"""Own printer of routine sets as SsbScript (through the token printer), and calls to the SsbScript compiler."""
from __future__ import annotations

from dataclasses import dataclass

from vlib import boot, esast as E


@dataclass(frozen=True)
class Ref:
    name: str


class SsbPrinter(E.TokenPrinter):
    def value(self, v):
        if isinstance(v, Ref):
            self.t("@", v.name)
        else:
            super().value(v)


def ast_value(p):
    k = p[0]
    if k == "int":
        return E.Int(p[1])
    if k == "fix":
        return E.Fix(p[1])
    if k == "const":
        return E.Const(p[1])
    if k == "cstr":
        return E.Str(p[1])
    if k == "lstr":
        return E.Lang(tuple(p[1]))
    if k == "pos":
        return E.Pos(p[1], p[2], p[3], p[4], p[5])
    raise TypeError(p)


def program(rs) -> E.Program:
    names: dict[int, str] = {}
    for r in rs.routines:
        for o in r.ops:
            if o.tgt is not None and id(o.tgt) not in names:
                names[id(o.tgt)] = f"l{len(names)}"
    out = []
    for i, r in enumerate(rs.routines):
        body: list | None = []
        for o in r.ops:
            if id(o) in names:
                body.append(E.Label(names[id(o)]))
            args = [ast_value(p) for p in o.params]
            if o.tgt is not None:
                args.append(Ref(names[id(o.tgt)]))
            body.append(E.Op(o.name, args))
        out.append(E.Routine(r.kind, i, ast_value(r.target) if r.target is not None else None, r.coro, body if r.ops else None))
    return E.Program(out)


def text(rs, speller=None, seps=None) -> str:
    tp = SsbPrinter(speller).program(program(rs))
    return E.render(tp.toks, seps or E.pretty_seps()).text


def compile_ssbs(text: str):
    from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler

    c = SsbScriptSsbCompiler()
    c.compile(text)
    return c
