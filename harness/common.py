"""Shared machinery: TLC runner, worker pool, evidence, verdicts, known findings."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, ".work")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 2)


class MachineryError(Exception):
    """The check itself failed (not the code under test)."""


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.violations = []      # dicts {clause, case, ...}
        self.known = []
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.dir = os.path.join(WORK, f"{prop}-{os.getpid()}")
        os.makedirs(self.dir, exist_ok=True)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def elapsed(self):
        return time.time() - self.t0

    def violate(self, clause, detail, replay=None, key=None):
        """Record a violation. key identifies the failing input for KNOWN_FINDINGS."""
        self.violations.append(
            {"clause": clause, "detail": detail, "replay": replay, "key": key}
        )

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ----------------------------------------------------------------- worker pool
_FN = None


def _call(args):
    i, item = args
    try:
        return i, True, _FN(item)
    except BaseException as e:  # noqa: BLE001
        return i, False, "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]


def pmap(fn, items, procs=NPROC, chunk=None):
    """Parallel map in forked workers (repo already imported in the parent)."""
    global _FN
    items = list(items)
    if not items:
        return []
    _FN = fn
    out = [None] * len(items)
    if procs <= 1 or len(items) == 1:
        res = map(_call, enumerate(items))
        pool = None
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(min(procs, len(items)))
        res = pool.imap_unordered(
            _call, enumerate(items), chunk or max(1, min(20, len(items) // (procs * 4) or 1))
        )
    try:
        for i, ok, v in res:
            if not ok:
                raise MachineryError(f"worker failed on item {i}: {v}")
            out[i] = v
    finally:
        if pool:
            pool.terminate()
            pool.join()
    return out


# ------------------------------------------------------------------------ TLC
_RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
_RE_VERDICT = re.compile(r'^"VERDICT\|(-?\d+)\|([^|]*)\|(.*)"$', re.M)


def _tlc_cmd(module, cfg, meta, xmx, workers, extra=()):
    return [
        "java", f"-Xmx{xmx}", "-Xss256m",
        "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
        "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dx=1",
        "-cp", f"{JAR}:{CM}", "tlc2.TLC", "-config", cfg, "-metadir", meta,
        "-workers", str(workers), "-nowarning", "-noGenerateSpecTE", *extra, module,
    ]


def run_tlc(ctx, module, cases=None, cfg=None, workers=1, xmx="2g", timeout=600, env=None,
            tag="", extra=(), check=True):
    """Run one TLC process; returns its stdout. Raises MachineryError on TLC errors."""
    meta = os.path.join(ctx.dir, f"meta-{module}-{tag}-{time.time_ns()}")
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    if cases is not None:
        path = os.path.join(meta, "cases.json")
        with open(path, "w") as f:
            json.dump(cases, f)
        e["CASES"] = path
    e.update(env or {})
    cmd = _tlc_cmd(module + ".tla", (cfg or module) + ".cfg", meta, xmx, workers, extra)
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    if check and p.returncode != 0:
        raise MachineryError(f"TLC {module} failed ({p.returncode}):\n{p.stdout[-4000:]}\n{p.stderr[-1000:]}")
    m = _RE_STATES.findall(p.stdout)
    if m:
        ctx.transitions += int(m[-1][0])
        ctx.states += int(m[-1][1])
    return p.stdout


def _judge_chunk(args):
    ctx, module, chunk, cfg, timeout, k, env = args
    c0 = (ctx.states, ctx.transitions)
    out = run_tlc(ctx, module, chunk, cfg=cfg, timeout=timeout, tag=f"c{k}", env=env)
    verd = [(int(i), cl, rest) for i, cl, rest in _RE_VERDICT.findall(out)]
    return verd, ctx.states - c0[0], ctx.transitions - c0[1]


def judge(ctx, module, cases, cfg=None, timeout=int(os.environ.get("TMO","800")), chunks=NPROC, env=None):
    """Let the specification judge every case. Returns, per case, the list of
    (clause, detail) verdicts; clause "ok" means accepted. Every case must get one."""
    if not cases:
        return []
    n = min(chunks, len(cases))
    groups = [list(range(k, len(cases), n)) for k in range(n)]
    jobs = [(ctx, module, [cases[i] for i in g], cfg, timeout, k, env) for k, g in enumerate(groups)]
    res = pmap(_judge_chunk, jobs, procs=n, chunk=1)
    out = [[] for _ in cases]
    for g, (verd, st, tr) in zip(groups, res):
        ctx.states += st
        ctx.transitions += tr
        for i, cl, rest in verd:
            out[g[i - 1]].append((cl, rest))
    missing = [i for i, v in enumerate(out) if not v]
    if missing:
        raise MachineryError(f"{module}: no verdict for cases {missing[:10]} ({len(missing)})")
    ctx.traces += len(cases)
    return out


def explore(ctx, module, cfg=None, timeout=600, workers=NPROC, xmx="8g", env=None, extra=()):
    """Exhaustive TLC run of a design model; returns (violated?, stdout)."""
    out = run_tlc(ctx, module, cfg=cfg, workers=workers, xmx=xmx, timeout=timeout, env=env, extra=extra)
    if "No error has been found" not in out and "The depth of the complete" not in out:
        raise MachineryError(f"TLC {module}/{cfg}: {out[-3000:]}")
    return out


_RE_TRACE = re.compile(r'^"TRACE\|(.*)"$', re.M)


def _simulate_one(args):
    ctx, module, cfg, num, depth, seed, env, timeout = args
    c0 = (ctx.states, ctx.transitions)
    out = run_tlc(ctx, module, cfg=cfg, timeout=timeout, env=env, tag=f"s{seed}",
                  extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)))
    tr = [json.loads(json.loads('"' + t + '"')) for t in _RE_TRACE.findall(out)]
    m = re.findall(r"The number of states generated: (\d+)", out)
    n = int(m[-1]) if m else 0
    return tr, ctx.states - c0[0] + n, ctx.transitions - c0[1] + n


def simulate(ctx, module, num, depth, cfg=None, env=None, timeout=300, salt=0):
    """Behaviours of a specification that EXTENDS Replay (TLC -simulate): a list of step lists."""
    k = min(NPROC, num)
    jobs = [(ctx, module, cfg or module + "Sim", -(-num // k), depth + 2,
             (ctx.seed * 1000003 + salt * 7919 + i * 104729) % 2147483647, env, timeout) for i in range(k)]
    out = []
    for tr, st, t in pmap(_simulate_one, jobs, procs=k, chunk=1):
        ctx.states += st
        ctx.transitions += t
        out += tr
    if len(out) < num:
        raise MachineryError(f"{module}: {len(out)} behaviours instead of {num}")
    return out


# ------------------------------------------------------------ findings, verdict
def load_findings():
    """KNOWN_FINDINGS.txt: lines 'known: property=<id> key=<key> <text>' / 'fixed: ...'."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def finish(ctx, level="model_checking", extra_cov=None):
    known = load_findings()
    new, seen = [], {}
    for v in ctx.violations:
        k = (ctx.prop, v["key"]) if v.get("key") else None
        if k and k in known:
            seen[k] = known[k]
        else:
            new.append(v)
    for (prop, key), text in sorted(seen.items()):
        print(f"KNOWN-FINDING: property={prop} key={key} {text}")
    rc = 0
    if new:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = {}
        for v in new:
            if v["clause"] in shown:
                continue
            path = os.path.join(rdir, f"{ctx.prop}-{len(shown)}.json")
            with open(path, "w") as f:
                json.dump({"property": ctx.prop, "clause": v["clause"], "detail": v["detail"],
                           "replay": v["replay"], "seed": ctx.seed, "tier": ctx.tier}, f, indent=1, default=str)
            shown[v["clause"]] = path
            print(f"  {v['clause']}: {str(v['detail'])[:600]}")
            print(f"VIOLATION property={ctx.prop} replay={path}")
            if len(shown) >= 6:
                break
        rc = 1
    cov = {
        "states": ctx.states, "transitions": ctx.transitions,
        "traces_validated_against_impl": ctx.traces,
        "samples": ctx.samples[:5] or ["(none)"],
    }
    cov.update(ctx.notes)
    cov.update(extra_cov or {})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{ctx.prop}.json"), "w") as f:
        json.dump({"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
                   "coverage": cov, "assumptions": ctx.assumptions,
                   "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}, f, indent=1, default=str)
    ctx.cleanup()
    print(f"{ctx.prop}: traces={ctx.traces} states={ctx.states} violations={len(new)} "
          f"wall={time.time() - ctx.t0:.1f}s")
    return rc
