"""Writing generated multi-file projects to disk and compiling them."""
from __future__ import annotations

import os
import shutil

from vlib import boot, esast as E, es, gen_es, harness

def file_text(proj, f, root, speller=None, sep=None):
    imps = [gen_es.spelled(proj, f, style, proj.files[j], root) for style, j in f.imports]
    prog = E.Program(f.prog.routines, f.prog.macros, imps, f.prog.order)
    tp = E.TokenPrinter(speller).program(prog)
    return tp, E.render(tp.toks, sep or E.pretty_seps())


def write(proj, root=None, sep=None, speller=None):
    """-> (root, {path: (printer, rendered)}). The directory is emptied first."""
    root = root or harness.scratch_dir() + "/p"
    shutil.rmtree(root, ignore_errors=True)
    out = {}
    for d in {os.path.dirname(f.path) for f in proj.files} | set(proj.lookup) | {os.path.dirname(d) for d in proj.decoys}:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for f in proj.files:
        tp, r = file_text(proj, f, root, speller() if speller else None, sep() if sep else None)
        out[f.path] = (tp, r)
        with open(os.path.join(root, f.path), "w", encoding="utf-8", newline="") as fh:
            fh.write(r.text)
    for d in proj.decoys:
        with open(os.path.join(root, d), "w") as fh:
            names = [m.name for f in proj.files if os.path.basename(f.path) == os.path.basename(d) for m in f.prog.macros]
            for n in names:
                fh.write("macro %s() { DECOY(); }\n" % n)
    return root, out


def lookup_paths(proj, root):
    if proj.rel_lookup and len({os.path.dirname(f.path) for f in proj.files}) == 1:
        return [os.path.relpath(lp, os.path.dirname(proj.main.path)) for lp in proj.lookup]
    return [os.path.join(root, lp) for lp in proj.lookup]


def compile_project(proj, root, text, perf=boot.PERF):
    return es.compile_es(text, os.path.join(root, proj.main.path), lookup_paths(proj, root), perf)


def show(proj, texts):
    return "\n".join(f"--- {p}\n{r.text}" for p, (tp, r) in texts.items()) + f"\nlookup: {proj.lookup} decoys: {proj.decoys}"
