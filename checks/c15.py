"""C15: the compile CLI prints what the decompile CLI (and the docs) expect."""
import copy
import json
import os
import shutil
import subprocess
import sys

from hypothesis import strategies as st

from vlib import boot, calls, clidoc, es, esast as E, gen_es, gen_ssb, gen_text, harness, project, ssbm
from vlib.harness import Campaign, Discard, Violation, run
from checks import c02

COMPILE, DECOMPILE = "explorerscript.cli.compile", "explorerscript.cli.decompile"
NAMES = [clidoc.SETTINGS, {"performance_progress_list_var_name": "$PPL",
                           "dungeon_mode_constants": {"open": "D1", "closed": "D0", "request": "D2", "open_request": "D3"}}]


def setup(state):
    c = state.scratch["cli"] = calls.Cold(boot.SEED)
    c.raw("prepare cli")


def cli(ctx, module, args, cwd, real=False):
    """-> (stdout, stderr, exit status)"""
    if real:
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "PYTHONPATH")}
        env["PYTHONPATH"] = boot.REPO
        p = subprocess.run([sys.executable, "-m", module, *args], cwd=cwd, env=env, capture_output=True, timeout=120)
        return p.stdout.decode("utf-8"), p.stderr.decode("utf-8", "replace")[-1500:], p.returncode
    r = ctx.scratch["cli"].raw("cli", module, args, cwd)
    if r[0] == "dead":
        raise Discard("the command line tool gave no answer in time")
    return r


def place():
    d = harness.scratch_dir() + "/cli"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def put(path, text):
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


# ---------------------------------------------------------------- the documents the compile command prints

JUMPS = None


def jump_ops():
    """{opcode: index of its jump parameter} as the reader of the documents has to know it."""
    from explorerscript.ssb_converting import ssb_special_ops as s
    return s.OPS_WITH_JUMP_TO_MEM_OFFSET


def coordinate(v):
    """-> (tiles, half) of a position mark coordinate in a document, None if it isn't one"""
    if isinstance(v, bool) or not isinstance(v, (int, str)):
        return None
    s = str(v)
    half = s.endswith(".5")
    t = s[:-2] if half else s
    return (int(t), half) if t.lstrip("-").isdigit() and t.count("-") <= 1 else None


def read_document(doc, settings, fail):
    """Check a document against docs/cli_api_usage.rst -> (headers, ops as (opcode, params), jumps counted apart)"""
    if not isinstance(doc, dict) or set(doc) != {"settings", "routines"}:
        fail("the document does not have the keys settings and routines")
    if doc["settings"] != settings:
        fail(f"settings {doc['settings']!r} instead of {settings!r}")
    infos, routines = [], []
    if not isinstance(doc["routines"], list):
        fail("routines is not a list")
    for i, r in enumerate(doc["routines"]):
        t = r.get("type")
        kinds = {v: k for k, v in clidoc.TYPES.items()}
        want = {"type", "ops"} | ({"name"} if t == "COROUTINE" else {"target_id"} if t != "GENERIC" else set())
        if t not in kinds or set(r) != want:
            fail(f"routine {i} has type {t!r} and the keys {sorted(r)}")
        if t == "COROUTINE":
            if not isinstance(r["name"], str):
                fail(f"the name of coroutine {i} is {r['name']!r}")
            infos.append(("coro", r["name"]))
        elif t == "GENERIC":
            infos.append(("def", None))
        else:
            v = r["target_id"]
            if isinstance(v, bool) or not isinstance(v, (int, str)):
                fail(f"the target of routine {i} is {v!r}")
            infos.append((kinds[t], ("int" if isinstance(v, int) else "const", v)))
        ops = []
        for o in r["ops"]:
            if set(o) != {"opcode", "params"} or not isinstance(o["opcode"], str) or not isinstance(o["params"], list):
                fail(f"op {o!r}")
            ps = []
            for p in o["params"]:
                if isinstance(p, int) and not isinstance(p, bool):
                    ps.append(("int", p))
                    continue
                if not isinstance(p, dict) or set(p) != {"type", "value"}:
                    fail(f"argument {p!r} of {o['opcode']}")
                k, v = p["type"], p["value"]
                if k == "FIXED_POINT" and isinstance(v, (str, float)):
                    ps.append(("fix", str(v)))
                elif k == "CONSTANT" and isinstance(v, str):
                    ps.append(("const", v))
                elif k == "CONST_STRING" and isinstance(v, str):
                    ps.append(("cstr", v))
                elif k == "LANG_STRING" and isinstance(v, dict) and all(isinstance(x, str) for x in v.values()):
                    ps.append(("lstr", v))
                elif k == "POSITION_MARK" and isinstance(v, dict) and set(v) == {"name", "x", "y"} and isinstance(v["name"], str):
                    x, y = coordinate(v["x"]), coordinate(v["y"])
                    if x is None or y is None:
                        fail(f"position mark {v!r}")
                    ps.append(("pos", v["name"], x, y))
                else:
                    fail(f"argument {p!r} of {o['opcode']}")
            ops.append((o["opcode"], ps))
        routines.append(ops)
    return infos, routines


def api_param(p):
    from explorerscript.ssb_converting import ssb_data_types as t

    if isinstance(p, int):
        return ("int", p)
    if isinstance(p, t.SsbOpParamFixedPoint):
        return ("fix", str(p))
    if isinstance(p, t.SsbOpParamConstant):
        return ("const", p.name)
    if isinstance(p, t.SsbOpParamConstString):
        return ("cstr", p.name)
    if isinstance(p, t.SsbOpParamLanguageString):
        return ("lstr", dict(p.strings))
    if isinstance(p, t.SsbOpParamPositionMarker):
        return ("pos", p.name, (p.x_relative, p.x_offset >= 2), (p.y_relative, p.y_offset >= 2))
    raise TypeError(p)


def check_document(doc, settings, c, fail):
    """The document must say what the compiled result c says. -> [[(opcode, params, target position)]]"""
    infos, routines = read_document(doc, settings, fail)
    want_infos = [ssbm.norm_info(i, n) for i, n in zip(c.routine_infos, c.named_coroutines)]
    if infos != want_infos:
        fail(f"routine headers {infos} instead of {want_infos}")
    at, n = {}, 0
    for r in c.routine_ops:
        for o in r:
            n += 1
            at[o.offset] = n
    js = jump_ops()
    moved = 0
    for i, (got, rr) in enumerate(zip(routines, c.routine_ops)):
        if len(got) != len(rr):
            fail(f"routine {i} has {len(got)} ops instead of {len(rr)}")
        for k, ((name, ps), o) in enumerate(zip(got, rr)):
            want = [api_param(p) for p in o.params]
            if o.op_code.name in js:  # the target comes last, however many parameters the source wrote
                t = o.params[-1]
                want[-1] = ("int", at[t])
                moved += at[t] != t
            if (name, ps) != (o.op_code.name, want):
                fail(f"op {k} of routine {i} (position {at[o.offset]}) is {name}{ps}, the compiler's op is {o.op_code.name}{want} "
                     f"(with the jump target as position)")
    if len(routines) != len(c.routine_ops):
        fail("not all routines are there")
    return moved


# ---------------------------------------------------------------- campaign: compile, feed to decompile

@st.composite
def sources(draw):
    k = draw(st.integers(0, 9))
    names = draw(st.integers(0, 3)) // 3
    opt = draw(st.tuples(st.booleans(), st.booleans(), st.integers(0, 15)))
    if k < 6:
        text = E.to_text(draw(gen_es.any_programs(cr=False)))
    elif k < 8:
        return ("proj", draw(gen_es.projects()), names, opt)
    else:
        text = draw(gen_text.corrupted() if k == 8 else gen_text.labelled())
    return ("text", text, names, opt)


def write_settings(d, names, opt):
    s = NAMES[names]
    doc = {"settings": s}
    if opt[0]:
        doc["routines"] = []  # "at least the settings block"
    put(d + "/settings.json", json.dumps(doc))
    return s


def prop_compile(case, ctx):
    kind, src, names, opt = case
    d = place()
    settings = write_settings(d, names, opt)
    perf = settings["performance_progress_list_var_name"]
    args = []
    if kind == "proj":
        root, texts = project.write(src, d + "/p")
        path = os.path.join(root, src.main.path)
        shown = project.show(src, texts)
        lps = project.lookup_paths(src, root)
        rel = [os.path.relpath(os.path.join(os.path.dirname(path), lp) if not os.path.isabs(lp) else lp, d) for lp in lps]
        lps = [os.path.join(d, r) for r in rel]
        if lps:
            args = [x for lp in rel for x in ("--lookup", lp)] if opt[1] else ["--lookup", *rel]
    else:
        text = src.replace("\r\n", "\n").replace("\r", "\n")
        path = d + "/main.exps"
        try:
            put(path, text)
        except UnicodeEncodeError:
            raise Discard("not encodable")
        shown, lps = text, []
    with open(path, encoding="utf-8") as f:
        text = f.read()
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
    c = None
    try:
        c = ExplorerScriptSsbCompiler(perf, lps).compile(text, path)
    except es.REJECT:
        pass
    except RecursionError:
        raise Discard("recursion")
    except Exception:
        raise Discard("the compiler raised something else")  # C10's business
    real = opt[2] == 0
    out, err, rc = cli(ctx, COMPILE, [os.path.relpath(path, d), "--settings", "settings.json", "--source-map", "out.sm", *args], d, real)
    shown = f"{shown}\n=== python -m {COMPILE} ... {' '.join(args)}, settings {settings} ===\nstatus {rc}\n{out[:6000]}\n{err[-600:]}"

    def fail(msg):
        raise Violation(msg, shown)

    if (rc == 0) != (c is not None):
        fail(f"exit status {rc}, although the compiler {'accepts' if c is not None else 'rejects'} the source")
    ctx.label(kind, "accepted" if c is not None else "rejected", "process" if real else "fork")
    if c is None:
        return
    try:
        doc = json.loads(out)
    except ValueError as e:
        fail(f"the output is not JSON: {e}")
    moved = check_document(doc, settings, c, fail)
    ctx.label("jumps whose numbers changed" if moved else "numbers as in the compiler")
    with open(d + "/out.sm", encoding="utf-8") as f:
        sm = f.read()
    if sm != c.source_map.serialize():
        fail(f"the source map written is\n{sm}\ninstead of\n{c.source_map.serialize()}")
    js = jump_ops()
    if any(o.op_code.name in js and len(o.params) != js[o.op_code.name] + 1 for r in c.routine_ops for o in r):
        ctx.label("not decompilable: a jump with the wrong number of parameters")
        return
    # and back
    put(d + "/model.json", out)
    out2, err2, rc2 = cli(ctx, DECOMPILE, ["model.json", "--source-map", "back.sm"], d, real)
    if rc2 != 0:
        fail(f"the decompile command does not accept it: status {rc2}\n{err2}")
    rs = gen_ssb.from_compiled(c, "seq1")
    w = gen_ssb.wellformed(rs)
    if w and w != "runs off its end":
        ctx.label("not decompilable: " + w)
        return
    if text_operand(rs):
        ctx.label("not comparable: a macro's text argument where the language takes no text")
        return
    compare(rs, out2, settings, ctx, shown, not w)
    if not os.path.exists(d + "/back.sm"):
        fail("the decompile command wrote no source map")
    if len([o for r in rs.routines for o in r.ops]) > 1:
        ctx.nontrivial(shown)


def text_operand(rs):
    """A macro can be called with a text or a position mark for a parameter that it uses where the language takes
    neither, like a test: no program without macros means the same, so no decompiler can print one."""
    def bad(o):
        if o.name in ("CaseMenu", "DefaultText"):
            return any(p[0] == "pos" for p in o.params)
        if o.name.startswith(("Branch", "Switch", "Case", "flag_", "message_Switch")) or o.name in ssbm.CTX_OPS:
            return any(p[0] not in ("int", "fix", "const") for p in (o.params[:1] if o.name == "CaseText" else o.params))
        return False

    return any(bad(o) for r in rs.routines for o in r.ops)


def compare(rs, text, settings, ctx, shown, strict):
    """The printed text must behave like the routine set."""
    dm = settings["dungeon_mode_constants"]
    try:
        c02.check(rs, ctx, strict, text, settings["performance_progress_list_var_name"],
                  tuple(dm[k] for k in ("closed", "open", "request", "open_request")))
    except Violation as v:
        if v.sig:  # C02's known finding
            raise Discard("written alike in the language") from None
        raise Violation(f"the decompile command's text: {v.msg}", f"{shown}\n{v.text}") from None


# ---------------------------------------------------------------- campaign: documents for the decompile command

@st.composite
def documents(draw):
    k = draw(st.integers(0, 9))
    S = gen_ssb
    rs = draw(S.compiled_sets() if k < 3 else S.compiled_sets(mutate=3) if k < 4 else S.cfg_sets() if k < 7
              else S.cfg_sets(weird=True) if k < 8 else S.cfg_sets(odd=True, calls=False, maxblocks=3) if k < 9
              else S.cfg_sets(calls=False, maxblocks=9))
    if rs is not None:
        rs.numbering = "seq1"
    return rs, draw(st.integers(0, 3)) // 3, draw(st.booleans()), draw(st.integers(0, 15)) == 0, draw(st.booleans())


def prop_decompile(case, ctx):
    rs, names, ints, real, pretty = case
    if rs is None:
        raise Discard("no input")
    d = place()
    doc = clidoc.document(rs, ints, NAMES[names])
    put(d + "/model.json", json.dumps(doc, indent=2 if pretty else None, ensure_ascii=pretty))
    out, err, rc = cli(ctx, DECOMPILE, ["model.json", "--source-map", "out.sm"], d, real)
    shown = f"{rs.show()}\n=== {json.dumps(doc)[:5000]}\n=== python -m {DECOMPILE}: status {rc}\n{err}\n{out[:5000]}"
    if rc != 0:
        raise Violation(f"the decompile command ends with status {rc}", shown)
    if not os.path.exists(d + "/out.sm"):
        raise Violation("no source map was written", shown)
    w = gen_ssb.wellformed(rs)
    ctx.label("fallback" if out.startswith(c02.MARK) else "structured", "process" if real else "fork", *sorted({r.kind for r in rs.routines}),
              *sorted({p[0] for r in rs.routines for o in r.ops for p in o.params}))
    if w and not out.startswith(c02.MARK):
        ctx.label("not compared: " + w)
        return
    compare(rs, out, NAMES[names], ctx, shown, not w)
    if any(r.ops for r in rs.routines):
        ctx.nontrivial(shown)


# ---------------------------------------------------------------- campaign: things that must not end with status 0

@st.composite
def wrongs(draw):
    rs = draw(gen_ssb.cfg_sets(maxroutines=2, maxblocks=3))
    rs.numbering = "seq1"
    return rs, draw(st.integers(0, 2**20)), draw(st.integers(0, 15)) == 0


def break_document(doc, k):
    """Make the document one that does not follow the documentation -> what was done."""
    rs = [r for r in doc["routines"]]
    ops = [o for r in rs for o in r["ops"]]
    args = [p for o in ops for p in o["params"] if isinstance(p, dict)]
    todo = [("no settings", lambda: doc.pop("settings")), ("no routines", lambda: doc.pop("routines")),
            ("no progress list", lambda: doc["settings"].pop("performance_progress_list_var_name")),
            ("no dungeon modes", lambda: doc["settings"].pop("dungeon_mode_constants"))]
    for m in ("open", "closed", "request", "open_request"):
        todo.append((f"no dungeon mode {m}", lambda m=m: doc["settings"]["dungeon_mode_constants"].pop(m)))
    for r in rs:
        todo += [("no type", lambda r=r: r.pop("type")), ("no ops", lambda r=r: r.pop("ops")),
                 ("unknown type", lambda r=r: r.update(type="SOMETHING"))]
        if "name" in r:
            todo.append(("no name", lambda r=r: r.pop("name")))
        if "target_id" in r:
            todo.append(("no target", lambda r=r: r.pop("target_id")))
    for o in ops:
        todo += [("no opcode", lambda o=o: o.pop("opcode")), ("no params", lambda o=o: o.pop("params")),
                 ("list as argument", lambda o=o: o["params"].insert(0, [1])), ("null as argument", lambda o=o: o["params"].insert(0, None)),
                 ("string as argument", lambda o=o: o["params"].insert(0, "1"))]
    for p in args:
        todo += [("argument without value", lambda p=p: p.pop("value")), ("argument without type", lambda p=p: p.pop("type")),
                 ("argument of unknown type", lambda p=p: p.update(type="FLOAT"))]
    what, f = todo[k % len(todo)]
    f()
    return what


def prop_wrong(case, ctx):
    rs, k, real = case
    d = place()
    doc = copy.deepcopy(clidoc.document(rs))
    module = DECOMPILE
    args = ["model.json"]
    how, k = k % 12, k // 12
    text = json.dumps(doc)
    if how == 0:
        what = "no such file"
        args = ["other.json"]
    elif how == 1:
        what = "broken JSON"
        text = text[:max(1, len(text) - 1 - k % 5)]
    elif how == 2:
        what = "the place for the source map does not exist"
        args += ["--source-map", "none/x.sm"]
    elif how in (3, 4, 5):
        module = COMPILE
        args = ["main.exps", "--settings", "settings.json"]
        put(d + "/main.exps", "def 0 { A(); }")
        sd = {"settings": copy.deepcopy(NAMES[0])}
        what = ["no source file", "no settings file", "no settings given", "the place for the source map does not exist", "broken settings",
                "no settings in the file", "no progress list", "no dungeon modes", "a dungeon mode is missing"][k % 9]
        if k % 9 == 0:
            args[0] = "other.exps"
        elif k % 9 == 1:
            args[2] = "other.json"
        elif k % 9 == 2:
            args = args[:1]
        elif k % 9 == 3:
            args += ["--source-map", "none/x.sm"]
        elif k % 9 == 5:
            sd = {"routines": []}
        elif k % 9 == 6:
            del sd["settings"]["performance_progress_list_var_name"]
        elif k % 9 == 7:
            del sd["settings"]["dungeon_mode_constants"]
        elif k % 9 == 8:
            del sd["settings"]["dungeon_mode_constants"][("open", "closed", "request", "open_request")[k // 9 % 4]]
        put(d + "/settings.json", json.dumps(sd)[:-1 if k % 9 == 4 else None])
    else:
        what = break_document(doc, k)
        text = json.dumps(doc)
    put(d + "/model.json", text)
    out, err, rc = cli(ctx, module, args, d, real)
    ctx.label(what)
    if rc == 0:
        raise Violation(f"status 0 ({what})", f"python -m {module} {' '.join(args)}\n{text}\n=== prints\n{out[:3000]}\n{err}")
    ctx.nontrivial(what + text)


def main(replay=None):
    return run(
        "C15", "exploration",
        "(compile) distinct accepted sources of which the document printed has at least two ops, was compared with the compiler's result "
        "and decompiled; (decompile) distinct documents with ops; (wrong) distinct broken inputs",
        [Campaign("compile", sources(), prop_compile, quick=1600, thorough=40000, setup=setup, case_seconds=60),
         Campaign("decompile", documents(), prop_decompile, quick=1600, thorough=40000, setup=setup, case_seconds=60),
         Campaign("wrong", wrongs(), prop_wrong, quick=400, thorough=4000, setup=setup)],
        assumptions=[
            "Most runs of the commands are runpy.run_module(..., run_name='__main__') in a fork made for the run, one in sixteen is a real process",
            "Behaviour of the printed source is compared as in C02 (whose known finding is left out); decompiling an ill-formed control "
            "flow must succeed, but is compared only if the text is the SsbScript fallback",
            "Files are read with universal newlines, so strings with carriage returns are not generated for the compile command",
        ],
        replay=replay)
