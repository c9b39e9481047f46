"""Calls into the code under test."""
from __future__ import annotations

from vlib import boot
from explorerscript.error import ParseError, SsbCompilerError
from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler

REJECT = (ParseError, SsbCompilerError, ValueError)


def compile_es(text: str, fname: str = "/nonexistent/main.exps", lookup=None, perf=boot.PERF):
    return ExplorerScriptSsbCompiler(perf, lookup or []).compile(text, fname)
