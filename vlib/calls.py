"""Compile / decompile calls as data, run in this process or in a cold one, with their complete results as comparable values.

A call is one of
  ("es", text, perf)            compile ExplorerScript (perf: index of the name of the progress list variable)
  ("proj", root, main, lookup, perf)   compile a file of a project on disk
  ("ssbs", text)                compile SsbScript
  ("dec", rset, perf, dmodes)   decompile a routine set to ExplorerScript
  ("ssbdec", rset)              decompile a routine set to SsbScript
  ("json", doc)                 read a routine set with the command line tool's reader and decompile it
"""
from __future__ import annotations

import enum
import os
import pickle
import shutil
import struct
import subprocess
import sys
import threading
import types
import zlib

from vlib import boot, gen_ssb, ssbm

PERFS = [boot.PERF, "$OTHER_PERF_LIST"]
DMS = [gen_ssb.DMODES, ("D_CL", "D_OP", "D_RQ", "D_OR")]


def param(p):
    if isinstance(p, (int, str, float, bool)) or p is None:
        return p
    return (ssbm.param_class(p),) + tuple(
        (k, tuple(v.items()) if isinstance(v, dict) else str(v)) for k, v in sorted(vars(p).items()) if k != "indent")


def ops_image(ops):
    return None if ops is None else [[(o.offset, o.op_code.name, [param(p) for p in o.params]) for o in r] for r in ops]


def infos_image(infos):
    return None if infos is None else [(i.type.name, param(i.linked_to), param(i.linked_to_name)) for i in infos]


def coros_image(cs):
    return None if cs is None else [(c.id, c.name) if hasattr(c, "id") else (list(c) if isinstance(c, list) else c) for c in cs]


def sm_image(sm):
    return None if sm is None else sm.serialize()


class Held:
    """The objects one call returned; image() is what they say now."""

    def __init__(self, call, **objs):
        self.call, self.objs = call, objs

    def image(self):
        o = self.objs
        d = {}
        if "ops" in o:
            d["ops"], d["infos"], d["coros"] = ops_image(o["ops"]), infos_image(o["infos"]), coros_image(o["coros"])
        if "sm" in o:
            d["source map"] = sm_image(o["sm"])
        for k in ("text", "imports", "macros"):
            if k in o:
                d[k] = list(o[k]) if k != "text" else o[k]
        return d


def compiler(call):
    """A new compiler object for a call."""
    if call[0] == "ssbs":
        from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler
        return SsbScriptSsbCompiler()
    from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
    return ExplorerScriptSsbCompiler(PERFS[call[-1]], list(call[3]) if call[0] == "proj" else [])


def compiler_class(call):
    """Calls of one class may be made on the same compiler object."""
    if call[0] == "ssbs":
        return ("ssbs",)
    return ("es", call[-1])


def do_compile(call, inst):
    if call[0] == "ssbs":
        inst.compile(call[1])
        return Held(call, ops=inst.routine_ops, infos=inst.routine_infos, coros=inst.named_coroutines, sm=inst.source_map)
    if call[0] == "proj":
        inst.lookup_paths = list(call[3])
        path = os.path.join(call[1], call[2])
        with open(path, encoding="utf-8", newline="") as f:
            inst.compile(f.read(), path)
    else:
        inst.lookup_paths = []
        inst.compile(call[1], "/nonexistent/main.exps")
    return Held(call, ops=inst.routine_ops, infos=inst.routine_infos, coros=inst.named_coroutines, sm=inst.source_map,
                imports=inst.imports, macros=sorted(inst.macros))


def decompiler(call, objs):
    from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
    infos, ops, coros = objs
    if call[0] == "ssbdec":
        from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler
        return SsbScriptSsbDecompiler(infos, ops, coros)
    from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
    perf, dm = (call[2], call[3]) if call[0] == "dec" else (0, 0)
    return ExplorerScriptSsbDecompiler(infos, ops, coros, PERFS[perf], DungeonModeConstants(*DMS[dm]))


def routine_set(call):
    """Fresh objects for the routine set of a call."""
    if call[0] == "json":
        from explorerscript.cli import decompile
        infos, coros, ops = decompile.read_routines(call[1]["routines"])
        return infos, ops, coros
    return gen_ssb.to_objects(call[1])


def do_decompile(call, dec):
    text, sm = dec.convert()
    return Held(call, text=text, sm=sm)


def is_compile(call):
    return call[0] in ("es", "proj", "ssbs")


def plain(call):
    """Run a call alone, with fresh objects -> image."""
    if is_compile(call):
        return do_compile(call, compiler(call)).image()
    return do_decompile(call, decompiler(call, routine_set(call))).image()


def outcome(fn, *a):
    """-> ("ok", image) | ("error", type, message)"""
    try:
        r = fn(*a)
    except RecursionError:
        return ("error", "RecursionError", "")
    except Exception as e:
        if isinstance(e.__cause__, RecursionError):
            return ("error", "RecursionError", "")
        return ("error", type(e).__name__, str(e)[:300])
    return ("ok", r.image() if isinstance(r, Held) else r)


def outcome_of(fn, *a):
    """Like outcome, for a function whose result is passed on as it is."""
    try:
        return ("ok", fn(*a))
    except Exception as e:
        return ("error", type(e).__name__, str(e)[:300])


def differences(a, b):
    """Which parts of two outcomes differ -> text, '' if none."""
    if a[0] != b[0]:
        return f"{a[0]} {a[1] if a[0] == 'error' else ''} against {b[0]} {b[1] if b[0] == 'error' else ''}"
    if a[0] == "error":
        return ""
    out = []
    for k in a[1]:
        x, y = a[1][k], b[1][k]
        if x != y:
            out.append(f"{k}:\n  {str(x)[:1500]}\n  {str(y)[:1500]}")
    return "\n".join(out)


# ---------------------------------------------------------------- cold processes

SERVER = """
import sys
sys.path.insert(0, {verif!r})
from vlib import boot, calls
calls.serve()
"""


def serve():
    """A process that has only imported the code; every request is answered by a fork of it."""
    import signal
    import explorerscript.cli.decompile  # noqa: F401
    import explorerscript.ssb_converting.ssb_compiler  # noqa: F401
    import explorerscript.ssb_converting.ssb_decompiler  # noqa: F401
    import explorerscript.ssb_script.ssb_converting.ssb_compiler  # noqa: F401
    import explorerscript.ssb_script.ssb_converting.ssb_decompiler  # noqa: F401
    fd_in, fd_out = sys.stdin.buffer, os.dup(1)
    os.dup2(2, 1)
    while True:
        h = fd_in.read(8)
        if len(h) < 8:
            return
        req = pickle.loads(fd_in.read(struct.unpack("<q", h)[0]))
        if req[0] == "prepare cli":
            import argparse  # noqa: F401
            import json  # noqa: F401
            import runpy  # noqa: F401
            import_all()
            req = ("ok",)
        if req[0] == "prepare":
            import_all()
            places()
            req = ("ok",)
        if req[0] == "warm threads":
            # this server has processed the calls of earlier requests itself, each once
            for l in req[1]:
                for c in l:
                    outcome(plain, c)
            req = ("threads",) + req[1:]
        pid = os.fork()
        if not pid:
            signal.setitimer(signal.ITIMER_VIRTUAL, 60)
            signal.setitimer(signal.ITIMER_REAL, 240)
            fn = {"ok": lambda: ("ok",), "call": lambda: outcome(plain, req[1]), "threads": lambda: run_threads(*req[1:]),
                  "check": lambda: run_check(*req[1:]), "cli": lambda: run_cli(*req[1:])}[req[0]]
            data = pickle.dumps(fn())
            data = struct.pack("<q", len(data)) + data
            while data:
                data = data[os.write(fd_out, data):]
            os._exit(0)
        if os.waitpid(pid, 0)[1] != 0:
            os.write(fd_out, struct.pack("<q", -1))


# ---------------------------------------------------------------- several threads

class Schedule:
    """One thread runs at a time; which one is decided from a seed, at line or bytecode boundaries of the code under test.

    With meet > 0, threads change at certain places only (about one in `meet` of all places, chosen from the seed): a thread
    that comes to such a place waits there until all others have come to one, too. That is how two threads get between the
    same two steps.

    A thread that blocks while it is its turn (on a lock another thread holds) loses its turn after a while.
    """
    GAPS = [1, 2, 3, 5, -3, -20, -200, -2000, -20000]  # switch every n events, or every n events on average

    def __init__(self, n, seed, gap, instructions, antlr, meet=0):
        import random
        self.rng = random.Random(seed)
        self.meet, self.seed = meet, seed
        self.place = None
        if meet == 1:  # a single place, in code that touches something shared
            ps = places()
            if ps:
                self.place = self.rng.choice(ps[self.rng.choice(sorted(ps))])
                instructions = False
            else:
                self.meet = 30
        self.gap, self.n = self.GAPS[gap], n
        self.event = sys.monitoring.events.INSTRUCTION if instructions else sys.monitoring.events.LINE
        self.prefixes = (os.path.realpath(boot.REPO) + "/explorerscript/", boot.REPO + "/explorerscript/")
        if antlr:
            import antlr4
            self.prefixes += (os.path.dirname(antlr4.__file__) + "/",)
        self.sems = [threading.Lock() for _ in range(n)]
        for x in self.sems:
            x.acquire()
        self.alive = list(range(n))
        self.cur = 0
        self.ids: dict = {}
        self.count = self.switches = self.stalls = 0
        self.left = self.next_gap()
        self.free = False

    def next_gap(self):
        return self.gap if self.gap > 0 else 1 + int(self.rng.expovariate(1 / -self.gap))

    def start(self):
        m = sys.monitoring
        m.use_tool_id(4, "verif")
        m.register_callback(4, self.event, self.on_event)
        m.set_events(4, self.event)
        m.restart_events()
        self.wake(0)

    def wake(self, i):
        try:
            self.sems[i].release()
        except RuntimeError:  # it is awake already (it took over a turn that was stalled)
            pass

    def stop(self):
        m = sys.monitoring
        m.set_events(4, 0)
        m.free_tool_id(4)

    def enter(self, i):
        self.ids[threading.get_ident()] = i
        self.wait(i)

    def leave(self, i):
        self.ids.pop(threading.get_ident(), None)
        self.alive.remove(i)
        if self.alive and self.cur == i:
            self.give()

    def give(self):
        """Pass the turn on."""
        others = [j for j in self.alive if j != self.cur] or self.alive
        if self.gap > 0 or self.meet:
            nxt = min((j for j in others if j > self.cur), default=others[0])
        else:
            nxt = self.rng.choice(others)
        self.cur = nxt
        self.switches += 1
        self.wake(nxt)

    def wait(self, i):
        seen = -1
        while not self.sems[i].acquire(timeout=1.5):
            if self.free:
                return
            if self.cur == i:
                return
            now = (self.count, self.switches)
            if seen == now:  # whoever has the turn is blocked
                self.stalls += 1
                if self.stalls > 6:
                    self.free = True
                    return
                self.cur = i
                return
            seen = now

    def on_event(self, code, where):
        if not code.co_filename.startswith(self.prefixes):
            return sys.monitoring.DISABLE
        if self.place:
            if code is not self.place[0] or where != self.place[1]:
                return sys.monitoring.DISABLE
        elif self.meet and is_hot(code):
            if zlib.crc32(f"{code.co_qualname} {where - code.co_firstlineno} {self.seed}".encode()) % 3:
                return sys.monitoring.DISABLE
        elif self.meet and zlib.crc32(f"{code.co_qualname} {where - code.co_firstlineno} {self.seed}".encode()) % self.meet:
            return sys.monitoring.DISABLE
        i = self.ids.get(threading.get_ident())
        if i is None or self.free:
            return None
        if self.cur != i:
            self.wait(i)
            return None
        self.count += 1
        self.left -= 1
        if self.left <= 0 or self.meet and self.rng.random() < 0.8:
            self.left = self.next_gap()
            if len(self.alive) > 1:
                self.give()
                self.wait(i)
        return None


HOT: dict = {}
SHARED: dict = {}
PLACES: dict = {}


def is_state(v):
    """Whether a value could be changed by code that only knows its name."""
    import logging
    if v is None or isinstance(v, (str, int, float, bytes, tuple, frozenset, type, property, staticmethod, classmethod, logging.Logger,
                                   types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.GetSetDescriptorType,
                                   types.MemberDescriptorType, types.MethodDescriptorType, types.GenericAlias, types.UnionType)):
        return False
    return type(v).__module__ not in ("typing", "typing_extensions", "enum", "re", "__future__", "abc", "gettext") and not hasattr(v, "__wrapped__")


def all_codes(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from all_codes(c)


def find_shared():
    """Names of module variables and class attributes that hold changeable objects, code of functions with changeable defaults."""
    if SHARED:
        return
    SHARED.update(globals={}, attrs=set(), codes=set(), all=set())
    for name, mod in list(sys.modules.items()):
        if not name.startswith("explorerscript") or name.startswith("explorerscript.antlr") or mod is None:
            continue

        def function(f):
            f = getattr(f, "__func__", getattr(f, "fget", f))
            c = getattr(f, "__code__", None)
            if isinstance(c, types.CodeType) and f.__module__ == name:
                SHARED["all"].update(all_codes(c))
                if any(map(is_state, f.__defaults__ or ())) or any(map(is_state, (f.__kwdefaults__ or {}).values())):
                    SHARED["codes"].add(c)

        SHARED["globals"][getattr(mod, "__file__", None)] = {
            k for k, v in vars(mod).items() if is_state(v) and not k.startswith(("__", "OPS_", "DIGITS"))}
        for cls in list(vars(mod).values()):
            function(cls)
            if isinstance(cls, type) and cls.__module__ == name:
                for k, v in vars(cls).items():
                    function(v)
                    if is_state(v) and not k.startswith("__") and k != "_abc_impl" and not issubclass(cls, enum.Enum):
                        SHARED["attrs"].add(k)


def hot_lines(code):
    """Lines of a function that touch something other threads may see, as far as that shows in its code: {name: lines}."""
    import dis
    find_shared()
    g = SHARED["globals"].get(code.co_filename, ())
    out, line = {}, None
    for i in dis.get_instructions(code):
        line = i.positions.lineno or line
        if (i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL") or i.opname in ("LOAD_GLOBAL", "LOAD_NAME") and i.argval in g
                or i.opname in ("LOAD_ATTR", "STORE_ATTR") and i.argval in SHARED["attrs"]):
            out.setdefault(i.argval, set()).add(line)
    return out


def is_hot(code):
    if code not in HOT:
        HOT[code] = bool(hot_lines(code)) or code in SHARED["codes"]
    return HOT[code]


def places():
    """{shared name: lines of the functions that touch it, those that do so themselves more often}."""
    if not PLACES:
        find_shared()
        for c in sorted(SHARED["all"], key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name)):
            if is_hot(c) and c.co_name != "__init__":
                lines = sorted({ln for _, _, ln in c.co_lines() if ln and ln != c.co_firstlineno})
                for name, h in sorted((hot_lines(c) or {c.co_name: set()}).items()):
                    lst = PLACES.setdefault(name, [])
                    for ln in lines:
                        lst.extend([(c, ln)] * (1 + 5 * (ln in h)))
    return PLACES


def import_all():
    """Modules that are imported on first use would make threads wait for each other."""
    import importlib
    import pkgutil
    import explorerscript
    for m in pkgutil.walk_packages(explorerscript.__path__, "explorerscript."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass


def run_threads(lists, sched, cpu=0):
    """Run every list of calls in a thread of its own -> (outcomes per thread, number of switches made).

    sched: ("native", switch interval) or ("turns", seed, gap, instructions, antlr).
    """
    n = len(lists)
    out = [[] for _ in lists]
    s = None
    barrier = threading.Barrier(n)
    if sched[0] == "turns":
        import_all()
        s = Schedule(n, *sched[1:])
        cpus = sorted(os.sched_getaffinity(0))  # handing over between threads is cheaper on one processor
        os.sched_setaffinity(0, {cpus[cpu % len(cpus)]})

    def work(i):
        if s:
            s.enter(i)
        else:
            barrier.wait()
        try:
            for c in lists[i]:
                out[i].append(outcome(plain, c))
        finally:
            if s:
                s.leave(i)

    old = sys.getswitchinterval()
    ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
    try:
        if s:
            s.start()
        else:
            sys.setswitchinterval(sched[1])
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        if s:
            s.stop()
    return out, (s.switches if s else 0), (s.stalls if s else 0)


def run_cli(module, args, cwd):
    """What `python -m module args` prints and its exit status, in this process (which is a fork made for it)."""
    import io
    import runpy
    import traceback
    os.chdir(cwd)
    sys.argv = [module] + list(args)
    out = io.BytesIO()
    sys.stdout = io.TextIOWrapper(out, encoding="utf-8")
    err = sys.stderr = io.StringIO()
    rc = 0
    sys.modules.pop(module, None)
    try:
        runpy.run_module(module, run_name="__main__", alter_sys=True)
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except BaseException:
        traceback.print_exc(file=err)
        rc = 1
    try:
        sys.stdout.flush()
    except Exception:
        rc = rc or 120
    return out.getvalue().decode("utf-8"), err.getvalue()[-1500:], rc


def run_check(module, case):
    import importlib
    from vlib import harness
    m = importlib.import_module(module)
    st_ = harness.ShardState()
    try:
        m.setup(st_)
        m.check(case, harness.Ctx(st_))
    except harness.Violation:
        return "violation"
    except harness.Discard:
        pass
    finally:
        if harness.SCRATCH:
            shutil.rmtree(harness.SCRATCH, ignore_errors=True)
    return "fine"


class Cold:
    def __init__(self, hashseed: int):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-c", SERVER.format(verif=boot.VERIF)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        self.memo: dict = {}

    def raw(self, *req):
        data = pickle.dumps(req)
        self.p.stdin.write(struct.pack("<q", len(data)) + data)
        self.p.stdin.flush()
        n = struct.unpack("<q", self.p.stdout.read(8))[0]
        if n < 0:
            return ("dead",)
        return pickle.loads(self.p.stdout.read(n))

    def ask(self, call, key=None):
        key = key or pickle.dumps(call)
        if key not in self.memo:
            if len(self.memo) > 500:
                self.memo.clear()
            self.memo[key] = self.raw("call", call)
        return self.memo[key]
