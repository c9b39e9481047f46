"""Campaign runner: Hypothesis campaigns sharded over processes, counters, evidence, replay files, known findings."""
from __future__ import annotations

import atexit
import base64
import hashlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from multiprocessing import get_context

from vlib import boot

import hypothesis  # noqa: E402
import hypothesis.internal.conjecture.engine as _hengine  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401

CASE_DIR = os.path.join(boot.VERIF, "corpus")
REPLAY_DIR = os.path.join(boot.VERIF, "evidence", "replay")
KNOWN_FILE = os.path.join(boot.VERIF, "known-findings.jsonl")
SHARDS = 8
SCRATCH: str | None = None  # scratch directory of this run, removed at its end


class Violation(Exception):
    def __init__(self, msg: str, text: str = "", sig: str = ""):
        super().__init__(msg)
        self.msg, self.text, self.sig = msg, text, sig


class Discard(Exception):
    """The case is outside the property's domain."""


class CaseTimeout(BaseException):
    pass


def _on_alarm(*_):
    raise CaseTimeout()


def _unraisable(u, _old=sys.unraisablehook):
    if not issubclass(u.exc_type, CaseTimeout):  # the alarm may hit inside a gc callback; it is re-armed
        _old(u)


sys.unraisablehook = _unraisable


def scratch_dir() -> str:
    """Scratch directory of the calling process."""
    global SCRATCH
    if SCRATCH is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        SCRATCH = tempfile.mkdtemp(prefix="verif_", dir=base)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(SCRATCH, ignore_errors=True))
    d = os.path.join(SCRATCH, str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


class Ctx:
    """Per-case recorder handed to the property function."""

    def __init__(self, shard: "ShardState"):
        self._s = shard
        self.labels: list[str] = []
        self.key: str | None = None
        self.sample = None
        self.scratch = shard.scratch

    def label(self, *names: str) -> None:
        self.labels.extend(names)

    def nontrivial(self, key, sample=None) -> None:
        """The case is non-trivial; `key` identifies it (for counting distinct ones)."""
        self.key = key if isinstance(key, str) else repr(key)
        self.sample = sample if sample is not None else self.key

    def count(self, name: str, n: int = 1) -> None:
        self._s.counts[name] += n


class ShardState:
    def __init__(self):
        self.evaluations = 0
        self.discards = 0
        self.skipped = 0
        self.labels: Counter = Counter()
        self.counts: Counter = Counter()
        self.keys: set[str] = set()
        self.samples: list = []
        self.scratch: dict = {}
        self.known: Counter = Counter()


class Campaign:
    def __init__(self, name, strategy, fn, quick=200, thorough=2000, shards=SHARDS, budget=(240, 780), setup=None,
                 describe=None, case_seconds=30, hang_is_violation=False, finalize=None):
        self.finalize = finalize  # (case, state) -> the case to save for a violation
        self.case_seconds, self.hang_is_violation = case_seconds, hang_is_violation
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n = {"quick": quick, "thorough": thorough}
        self.shards = shards
        self.budget = {"quick": budget[0], "thorough": budget[1]}
        self.setup = setup
        self.describe = describe


def load_known(prop: str) -> list[dict]:
    out = []
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                d = json.loads(line)
                if d.get("property") == prop:
                    out.append(d)
    return out


def run_case(camp: Campaign, case, state: ShardState, known_match):
    ctx = Ctx(state)
    state.evaluations += 1
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, camp.case_seconds, 2)
    try:
        try:
            camp.fn(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except CaseTimeout:
        if camp.hang_is_violation:
            raise Violation(f"no answer within {camp.case_seconds} s of CPU time", str(case)[:5000]) from None
        state.discards += 1
        state.labels["discard:case timeout"] += 1
        return
    except Discard as e:
        state.discards += 1
        state.labels["discard:" + (str(e) or "?")] += 1
        return
    except Violation as v:
        k = known_match(v, case) if known_match else None
        if k is None:
            raise
        state.known[k] += 1
    for x in set(ctx.labels):
        state.labels[x] += 1
    if ctx.key is not None:
        h = hashlib.sha1(ctx.key.encode("utf-8", "surrogatepass")).hexdigest()[:16]
        if h not in state.keys:
            state.keys.add(h)
            n = len(state.keys)
            if n <= 2 or (n & (n - 1)) == 0 and len(state.samples) < 10:
                state.samples.append(str(ctx.sample)[:2500])


def _shard(camp: Campaign, shard: int, known_match, conn) -> None:
    state = ShardState()
    res = {"campaign": camp.name, "shard": shard, "violation": None, "error": None}
    t0 = time.monotonic()
    last: dict = {}
    try:
        if camp.setup:
            camp.setup(state)
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        _hengine.MAX_SHRINKING_SECONDS = 45 if boot.TIER == "quick" else 90
        budget = camp.budget[boot.TIER]
        n = max(1, camp.n[boot.TIER] // camp.shards)

        def test(case):
            if not last and time.monotonic() - t0 > budget:
                state.skipped += 1
                return
            try:
                run_case(camp, case, state, known_match)
            except Violation as v:
                last.update(v=v, case=case)
                raise

        wrapped = hypothesis.seed(boot.SEED * 1009 + shard * 7919 + sum(map(ord, camp.name)))(
            settings(
                max_examples=n,
                database=None,
                deadline=None,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
                report_multiple_bugs=False,
                print_blob=False,
                verbosity=hypothesis.Verbosity.quiet,
            )(given(camp.strategy)(test))
        )
        try:
            wrapped()
        except Violation as v:
            last.update(v=v, case=last.get("case"))
        except BaseException as e:
            if not last:
                raise
            state.labels["hypothesis:" + type(e).__name__] += 1
        if last:
            v = last["v"]
            if camp.finalize:
                last["case"] = camp.finalize(last["case"], state)
            res["violation"] = {"msg": v.msg, "text": v.text, "sig": v.sig, "case": pickle.dumps(last["case"])}
    except BaseException:
        res["error"] = traceback.format_exc()
    res["state"] = {
        "evaluations": state.evaluations, "discards": state.discards, "skipped": state.skipped,
        "labels": state.labels, "counts": state.counts, "keys": state.keys, "samples": state.samples,
        "known": state.known,
    }
    res["wall"] = time.monotonic() - t0
    conn.send(res)
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def write_replay(prop: str, camp: str, v: dict) -> str:
    os.makedirs(REPLAY_DIR, exist_ok=True)
    path = os.path.join(REPLAY_DIR, f"{prop}-{camp}-{hashlib.sha1(v['case']).hexdigest()[:10]}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "campaign": camp, "message": v["msg"], "text": v["text"],
                   "case_pickle": base64.b64encode(v["case"]).decode()}, f, indent=1)
    return path


def load_case(path: str):
    d = json.load(open(path))
    return d["campaign"], pickle.loads(base64.b64decode(d["case_pickle"]))


def run(prop: str, level: str, rule: str, campaigns: list[Campaign], assumptions=(), known_match=None, pre=None,
        replay: str | None = None) -> int:
    """known_match(violation, case, entries) -> id of a known finding or None."""
    t0 = time.time()
    scratch_dir()
    known = load_known(prop)
    km = (lambda v, case: known_match(v, case, known)) if known_match and known else None
    byname = {c.name: c for c in campaigns}
    if replay:
        cname, case = load_case(replay)
        st_ = ShardState()
        if byname[cname].setup:
            byname[cname].setup(st_)
        try:
            byname[cname].fn(case, Ctx(st_))
        except Violation as v:
            print(v.msg)
            print(v.text)
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        print("replay: property holds on this case")
        return 0

    viols: list[tuple[str, dict]] = []
    errors: list[str] = []
    total = ShardState()
    percamp: dict[str, Counter] = {c.name: Counter() for c in campaigns}

    def merge(cname, s):
        total.evaluations += s["evaluations"]
        total.discards += s["discards"]
        total.skipped += s["skipped"]
        total.labels.update(s["labels"])
        total.counts.update(s["counts"])
        total.keys |= {cname + k for k in s["keys"]}
        total.samples += [f"[{cname}] {x}" for x in s["samples"][:2]]
        total.known.update(s["known"])
        percamp[cname].update({"evaluations": s["evaluations"], "discards": s["discards"],
                               "distinct_nontrivial": len(s["keys"]), "skipped_budget": s["skipped"]})

    # 1. saved cases (regressions of repaired defects and of earlier planted bugs), and known findings
    ctxf = get_context("fork")
    corpus = os.path.join(CASE_DIR, prop)
    nreg = 0
    jobs: list = []
    if os.path.isdir(corpus):
        st_ = ShardState()
        for fn in sorted(os.listdir(corpus)):
            if not fn.endswith(".json"):
                continue
            cname, case = load_case(os.path.join(corpus, fn))
            if cname not in byname:
                continue
            nreg += 1
            try:
                if byname[cname].setup:
                    byname[cname].setup(st_)
                run_case(byname[cname], case, st_, km)
            except Violation as v:
                viols.append((cname, {"msg": v.msg, "text": v.text, "sig": v.sig, "case": pickle.dumps(case)}))
        total.counts["regression_cases"] = nreg
        total.known.update(st_.known)
    if pre and not viols:
        try:
            pre(total)
        except Violation as v:
            viols.append(("pre", {"msg": v.msg, "text": v.text, "sig": v.sig, "case": pickle.dumps(v.text)}))

    # 2. campaigns
    if not viols:
        jobs = [(c, s) for s in range(max(c.shards for c in campaigns)) for c in campaigns if s < c.shards]
    ncpu = max(1, min(SHARDS, os.cpu_count() or 1))
    running: list = []
    stop = False
    import multiprocessing.connection as mpc

    while (jobs and not stop) or running:
        while jobs and not stop and len(running) < ncpu:
            c, s = jobs.pop(0)
            a, b = ctxf.Pipe(False)
            p = ctxf.Process(target=_shard, args=(c, s, km, b))
            p.start()
            b.close()
            running.append((c, s, p, a))
        ready = mpc.wait([r[3] for r in running], timeout=5)
        for r in list(running):
            c, s, p, a = r
            if a in ready:
                try:
                    res = a.recv()
                except EOFError:
                    res = None
                p.join()
                running.remove(r)
                if res is None:
                    errors.append(f"{c.name}/{s}: worker died (exit {p.exitcode})")
                    continue
                merge(c.name, res["state"])
                if res["error"]:
                    errors.append(f"{c.name}/{s}:\n{res['error']}")
                if res["violation"]:
                    viols.append((c.name, res["violation"]))
                    stop = True
        if stop:
            for c, s, p, a in running:
                p.kill()
                p.join()
            running = []

    # 3. report
    rc = 0
    if viols:
        rc = 1
        viols.sort(key=lambda x: len(x[1]["text"]))
        cname, v = viols[0]
        path = write_replay(prop, cname, v)
        print(f"campaign {cname}: {v['msg']}")
        if v["text"]:
            print(v["text"][:6000])
        print(f"VIOLATION property={prop} replay={path}")
    for k in known:
        n = total.known.get(k["id"], 0)
        if n:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            print(f"note: known finding {k['id']} did not show in this run")
    ev = {
        "property": prop, "tier": boot.TIER, "seed": boot.SEED, "level": level,
        "coverage": {
            "evaluations": total.evaluations, "distinct_nontrivial": len(total.keys), "rule": rule,
            "samples": total.samples[:12], "discarded": total.discards, "skipped_after_budget": total.skipped,
            "per_campaign": {k: dict(v) for k, v in percamp.items()},
            "classification": dict(total.labels.most_common(80)), "counters": dict(total.counts),
            "known_finding_hits": dict(total.known),
        },
        "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print(f"{prop}: {total.evaluations} cases, {len(total.keys)} distinct non-trivial, {total.discards} discarded, "
          f"{total.skipped} skipped, {time.time() - t0:.1f}s")
    if errors and rc == 0:
        print("HARNESS ERROR")
        print(errors[0])
        return 2
    return rc
