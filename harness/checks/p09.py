"""P09: compilation is a pure function of schedule and configuration."""
from __future__ import annotations

import copy
import enum
import hashlib
import json
import os
import random
import subprocess
import sys
import warnings

from .. import common, ir, qblox

TECHNIQUE = ("TLA+ specification of what a compilation may depend on (objects shared by schedules, copies, compilations in place, "
             "configurations changed and changed back); TLC-generated histories are replayed on the real compiler, the reference results "
             "come from processes that compiled nothing before, and TLC judges the recorded fingerprints")
NOTE = "results are compared as fingerprints of compiled_instructions, duration and repetitions"
KINDS = ["full", "full", "full", "p02", "p04", "p05", "p06", "p07", "p15"]


# ------------------------------------------------------------------ fingerprints
def canon(x, seen=()):  # noqa: PLR0911
    """The content of an object as plain data (private attributes and order of dictionary keys aside)."""
    from collections import UserDict

    import networkx as nx
    import numpy as np

    if x is None or isinstance(x, (bool, int, str, bytes)):
        return x.value if isinstance(x, enum.Enum) else x
    if isinstance(x, enum.Enum):
        return [type(x).__name__, x.name]
    if isinstance(x, float):
        return repr(float(x))
    if isinstance(x, complex):
        return ["c", repr(complex(x))]
    if isinstance(x, np.generic):
        return canon(x.item(), seen)
    if isinstance(x, np.ndarray):
        return ["a", x.shape, [canon(v, seen) for v in x.ravel().tolist()]]
    if id(x) in seen:
        return "cycle"
    seen = (*seen, id(x))
    if isinstance(x, nx.Graph):
        return ["g", sorted((repr(canon(n, seen)) for n in x.nodes)), sorted(repr(sorted(repr(canon(n, seen)) for n in e)) for e in x.edges)]
    if isinstance(x, dict):
        if x and all(isinstance(v, dict) and set(v) == {"data", "index"} for v in x.values()):
            x = {v["index"]: v for v in x.values()}      # the names of waveforms are arbitrary
        return ["d", sorted(([repr(canon(k, seen)), canon(v, seen)] for k, v in x.items()), key=lambda kv: kv[0])]
    if isinstance(x, (list, tuple)):
        return [canon(v, seen) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["s", sorted(repr(canon(v, seen)) for v in x)]
    if isinstance(x, type) or callable(x) and hasattr(x, "__qualname__"):
        return f"{x.__module__}.{x.__qualname__}"
    if isinstance(x, UserDict):
        more = {k: v for k, v in vars(x).items() if not k.startswith("_") and k != "data"}
        return [type(x).__name__, canon(x.data, seen), *([canon(more, seen)] if more else [])]
    if hasattr(x, "__dict__"):
        return [type(x).__name__, canon({k: v for k, v in vars(x).items() if not k.startswith("_")}, seen)]
    return repr(x)


def fp(x):
    return hashlib.sha1(json.dumps(canon(x), default=str).encode()).hexdigest()[:16]


def result(fn):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = fn()
    except Exception as e:  # noqa: BLE001
        return "error " + type(e).__name__
    return fp([c["compiled_instructions"], c.duration, c.repetitions])


# ------------------------------------------------------------------------ worlds
_QDS = None


def devices():
    """Two quantum devices (instruments are global, so they share their elements)."""
    global _QDS
    if _QDS is None:
        from quantify_scheduler import QuantumDevice
        from quantify_scheduler.device_under_test import mock_setup as M

        m = M.set_up_mock_transmon_setup()
        M.set_standard_params_transmon(m)
        a, b = m["quantum_device"], QuantumDevice("quantum_device_b")
        for q in ("q0", "q1", "q2", "q3", "q4"):
            b.add_element(m[q])
        for e in ("q0_q2", "q1_q2", "q2_q3", "q2_q4"):
            b.add_edge(m[e])
        _QDS = (a, b, m)
    return _QDS


def parameters(inst):
    return [{n: p() for n, p in inst.parameters.items() if n != "IDN"}, {n: parameters(x) for n, x in inst.submodules.items()}]


class World:
    """Three schedules, two configurations with two values each, and a device with two values, all made from a seed."""

    def __init__(self, seed):
        import quantify_scheduler  # noqa: F401

        self.rng = random.Random(seed)
        self.kind = self.rng.choice(KINDS)
        a, b, self.m = devices()
        self.qd = [a, b]
        for q in self.qd:
            q.scheduling_strategy("asap")
            q.keep_original_schedule(True)
        self.grown = [0, 0, 0]
        self.conf = [0, 0]
        self.tune = 0
        getattr(self, "_full" if self.kind == "full" else "_pulses")(self.rng)
        self.kept = {}
        self.set_tune(0)
        for c in (0, 1):
            self.set_conf(c, 0)
        self.refresh()

    # ------------------------------------------------------------ kinds of worlds
    def _pulses(self, rng):
        import importlib

        mod = importlib.import_module(f"harness.checks.{self.kind}")
        spec = None
        while spec is None:
            spec = mod.make(rng)
        root, pcs = spec["root"], spec["pcs"]
        hw = spec.get("hw") or qblox.hw_config(pcs)
        b = ir.Builder(pcs, unit=spec.get("unit", 1e-9))
        its = list(root["items"])
        two = ir.sched([ir.item(it["n"]) for it in rng.sample(its, rng.randrange(1, min(len(its), 6) + 1))],
                       root.get("reps", 1), "shares")
        alone = copy.deepcopy(ir.sched([ir.item(it["n"]) for it in rng.sample(its, rng.randrange(1, min(len(its), 6) + 1))], 1, "alone"))
        self.sch = [b.top(root), b.top(two), ir.Builder(pcs, unit=spec.get("unit", 1e-9)).top(alone)]
        leaves = [nd for nd in ir.flat(root)[0] if nd["k"] == "op" and nd["dur"] > 0 and not any(e["e"] == "a" for e in nd["ev"])]
        extra = [rng.choice(leaves) if leaves else None for _ in range(6)]
        extra[4:] = copy.deepcopy(extra[4:])
        self.more = lambda s, g: b.build(extra[2 * s + g]) if extra[2 * s + g] else None
        self.hw = []
        for c in (0, 1):
            vs = []
            for v in (0, 1):
                x = copy.deepcopy(hw)
                p = pcs[0]
                if 2 * c + v:
                    lat = x["hardware_options"].setdefault("latency_corrections", {})
                    k = f"{p['port']}-{p['clock']}"
                    lat[k] = lat.get(k, 0) + (2 * c + v) * 4e-9
                vs.append(x)
            self.hw.append(vs)

    def _full(self, rng):
        from quantify_scheduler.operations import gate_library as GL
        from quantify_scheduler.operations import pulse_library as PL
        from quantify_scheduler.operations.control_flow_library import LoopOperation
        from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
        from quantify_scheduler.schedules.schedule import Schedule

        fl = ["q0:fl", "q1:fl", "q2:fl", "q3:fl"]

        def leaf(rng):
            r = rng.random()
            q = rng.choice(["q0", "q4"])
            if r < 0.35:
                return rng.choice([GL.X, GL.X90, GL.Y, GL.H, GL.Z])(q)
            if r < 0.5:
                return GL.Rxy(theta=rng.choice([30, 45, 180.0]), phi=rng.choice([0, 12, 90.0]), qubit=q)
            if r < 0.6:
                return GL.Rz(theta=rng.choice([10, 90.0]), qubit=q)
            if r < 0.68:
                return GL.CZ("q2", "q4")
            if r < 0.75:
                return GL.Measure(*rng.choice([("q0",), ("q4",), ("q0", "q4")]),
                                  acq_protocol=rng.choice([None, "SSBIntegrationComplex", "Trace"]))
            if r < 0.8:
                return GL.Reset("q0", "q4")
            if r < 0.9:
                return PL.SquarePulse(amp=rng.choice([0.1, 0.2, -0.3]), duration=rng.choice([20, 40, 200, 1000]) * 1e-9, port=rng.choice(fl),
                                      clock="cl0.baseband")
            if r < 0.95:
                return PL.RampPulse(amp=rng.choice([0.1, 0.2]), duration=rng.choice([20, 40, 200]) * 1e-9, port=rng.choice(fl), clock="cl0.baseband")
            return PL.IdlePulse(rng.choice([20, 100]) * 1e-9)

        pool = [leaf(rng) for _ in range(6)]

        def flux(name):
            s = Schedule(name)
            for _ in range(rng.choice([1, 2, 3])):
                s.add(PL.SquarePulse(amp=rng.choice([0.1, 0.2, -0.3]), duration=rng.choice([20, 40, 100]) * 1e-9, port=rng.choice(fl[:2]),
                                     clock="cl0.baseband"), rel_time=rng.choice([0, 0, -20e-9]) if s.schedulables else 0)
            return s

        def sub(rng, name, depth, pool=pool):
            s = Schedule(name)
            for _ in range(rng.choice([1, 2, 3, 4])):
                r = rng.random()
                if depth and r < 0.2:
                    s.add(sub(rng, name + "s", depth - 1, pool))
                elif depth and r < 0.35:
                    s.add(LoopOperation(body=sub(rng, name + "l", 0, pool), repetitions=rng.choice([2, 3])))
                elif depth and r < 0.45:
                    s.add(PulseCompensation(body=flux(name + "c"), max_compensation_amp={p: 0.6 for p in fl[:2]}, time_grid=4e-9, sampling_rate=1e9))
                else:
                    x = rng.choice(pool) if rng.random() < 0.6 else leaf(rng)
                    s.add(x, ref_pt=rng.choice([None, None, "start"]) if s.schedulables else None, rel_time=rng.choice([0, 0, 8e-9]))
            return s

        shared = [sub(rng, "shared", 1) for _ in range(2)]

        def top(rng, name, parts):
            s = Schedule(name, repetitions=rng.choice([1, 1, 100]))
            for x in parts:
                s.add(x)
            for _ in range(rng.choice([0, 1, 2])):
                s.add(leaf(rng))
            return s

        self.sch = [top(rng, "one", [*shared, *rng.sample(pool, 2)]), top(rng, "two", [*rng.sample(pool, 2), *rng.sample(shared, rng.choice([1, 2]))]),
                    sub(rng, "alone", 1, [leaf(rng) for _ in range(3)])]
        extra = [leaf(rng) if i > 3 or rng.random() < 0.5 else rng.choice(pool) for i in range(6)]
        self.more = lambda s, g: extra[2 * s + g]
        import quantify_scheduler

        base = json.load(open(os.path.join(os.path.dirname(quantify_scheduler.__file__), "schemas", "examples", "qblox_hardware_config_transmon.json")))
        o = base["hardware_options"]
        if rng.random() < 0.5:
            o["crosstalk"] = {f"{a}-cl0.baseband": {f"{b}-cl0.baseband": rng.choice([0.1, 0.02, -0.05]) for b in fl if b != a} for a in fl}
        if rng.random() < 0.5:
            del o["distortion_corrections"]
        self.hw = []
        for c in (0, 1):
            vs = []
            for v in (0, 1):
                x = copy.deepcopy(base)
                y = x["hardware_options"]
                y["modulation_frequencies"]["q4:mw-q4.01"]["interm_freq"] = 2e8 - 1e7 * v
                if c:
                    y["latency_corrections"]["q0:mw-q0.01"] = 12e-9
                vs.append(x)
            self.hw.append(vs)

    # --------------------------------------------------------------------- steps
    def set_tune(self, v):
        self.tune = v
        if self.kind == "full":
            self.m["q0"].rxy.amp180(0.115 + 0.05 * v)
            self.m["q4"].measure.acq_delay((100 + 20 * v) * 1e-9)
        else:
            for q in self.qd:
                q.scheduling_strategy("alap" if v else "asap")

    def set_conf(self, c, v):
        self.conf[c] = v
        self.qd[c].hardware_config(self.hw[c][v])

    def grow(self, s):
        x = self.more(s, self.grown[s])
        self.grown[s] += 1
        if x is not None:
            self.sch[s].add(x)

    def refresh(self):
        for c in (0, 1):
            k = (c, self.conf[c], self.tune)
            if k not in self.kept:
                self.qd[c].keep_original_schedule(True)
                self.kept[k] = self.qd[c].generate_compilation_config()

    def compile(self, s, c, compiler, via):
        q = self.qd[c]
        keep = via not in ("scratch", "inplace")
        x = self.sch[s] if via not in ("copy", "scratch") else copy.deepcopy(self.sch[s])
        if via == "own":
            compiler.quantum_device = q
            return result(lambda: compiler.compile(x))
        if via == "kept":
            return result(lambda: compiler.compile(x, self.kept[c, self.conf[c], self.tune]))
        q.keep_original_schedule(keep)
        try:
            cfg = q.generate_compilation_config()
            return result(lambda: compiler.compile(x, cfg))
        finally:
            q.keep_original_schedule(True)

    def look(self):
        return {"sch": [fp(s) for s in self.sch],
                "cfg": [fp([self.hw[c], self.qd[c].hardware_config(), [v for k, v in sorted(self.kept.items(), key=lambda kv: kv[0])
                                                                      if k[0] == c and k[1:] == (self.conf[c], self.tune)]]) for c in (0, 1)],
                "dev": fp([[n, parameters(e)] for n, e in sorted(self.m.items()) if n.startswith("q")] if self.kind == "full" else 0)}


def keys(h):
    """The contents that a history compiles."""
    g, conf, tune, out = [0, 0, 0], [0, 0], 0, []
    for e in h:
        if e["do"] == "grow":
            g[e["s"] - 1] += 1
        elif e["do"] == "configure":
            conf[e["c"] - 1] ^= 1
        elif e["do"] == "retune":
            tune ^= 1
        elif e["do"] in ("compile", "inplace"):
            k = [e["s"], g[e["s"] - 1], e["c"], conf[e["c"] - 1], tune]
            if k not in out:
                out.append(k)
    return out


def replay_one(item):
    from quantify_scheduler import SerialCompiler

    seed, h = item
    w = World(seed)
    ks = [SerialCompiler("c1"), SerialCompiler("c2")]
    out = []
    for e in h:
        r = ""
        if e["do"] == "grow":
            w.grow(e["s"] - 1)
        elif e["do"] == "configure":
            w.set_conf(e["c"] - 1, 1 - w.conf[e["c"] - 1])
            w.refresh()
        elif e["do"] == "retune":
            w.set_tune(1 - w.tune)
            w.refresh()
        elif e["do"] in ("compile", "inplace"):
            r = w.compile(e["s"] - 1, e["c"] - 1, ks[e["k"] - 1], "inplace" if e["do"] == "inplace" else e["via"])
        out.append({**e, "res": r, **w.look()})
    return out


def reference(item):
    """One compilation in a process that has compiled nothing."""
    from quantify_scheduler import SerialCompiler

    seed, (s, g, c, cv, tune) = item
    w = World(seed)
    for _ in range(g):
        w.grow(s - 1)
    w.set_conf(c - 1, cv)
    w.set_tune(tune)
    return w.compile(s - 1, c - 1, SerialCompiler("r"), "new")


def server(path):
    """Compiles every requested content in a process of its own, with another hash seed."""
    import multiprocessing as mp

    devices()
    jobs = json.load(open(path))
    with mp.get_context("fork").Pool(common.NPROC, maxtasksperchild=1) as pool:
        out = pool.map(reference, jobs, chunksize=1)
    json.dump(out, open(path + ".out", "w"))


def references(ctx, jobs):
    path = os.path.join(ctx.dir, "ref.json")
    json.dump(jobs, open(path, "w"))
    env = dict(os.environ, PYTHONHASHSEED=str(17 + ctx.seed))
    p = subprocess.run([sys.executable, "-c", f"import sys; sys.path[:0] = [{common.VERIF!r}]\n"
                        f"from harness.checks import p09\np09.server({path!r})"], env=env, cwd=os.getcwd(), capture_output=True, text=True,
                       timeout=850)
    if p.returncode:
        raise common.MachineryError("reference process: " + p.stderr[-2000:])
    return json.load(open(path + ".out"))


def judge(ctx, items):
    evs = common.pmap(replay_one, items)
    jobs = [(seed, k) for seed, h in items for k in keys(h)]
    refs = references(ctx, jobs)
    cases, i = [], 0
    for (seed, h), ev in zip(items, evs):
        num = {}

        def no(x):
            return num.setdefault(x, len(num) + 1)

        ref = []
        for k in keys(h):
            ref.append({"key": k, "res": no(refs[i])})
            i += 1
        cases.append({"ref": ref, "ev": [{**e, "res": no(e["res"]), "sch": [no(x) for x in e["sch"]], "cfg": [no(x) for x in e["cfg"]],
                                          "dev": no(e["dev"])} for e in ev], "names": {v: k for k, v in num.items()}})
    verdicts = common.judge(ctx, "PurityTrace", [{"ref": c["ref"], "ev": c["ev"]} for c in cases])
    for (seed, h), c, vs in zip(items, cases, verdicts):
        for cl, d in vs:
            if cl != "ok":
                ctx.violate(cl, f"seed {seed} ({World(seed).kind}): {d}", replay={"seed": seed, "history": h, "case": c})
    return cases


def run(ctx):
    devices()
    common.explore(ctx, "Purity", timeout=300)
    n = ctx.n(160, 1600)
    hs = common.simulate(ctx, "Purity", n, 14)
    items = [(ctx.seed * 1_000_003 + i, h) for i, h in enumerate(hs[:n])]
    cases = judge(ctx, items)
    res = [c["names"][e["res"]] for c in cases for e in c["ev"] if e["do"] == "compile"]
    bad = sum(r.startswith("error") for r in res)
    ctx.notes["compilations"] = {"all": len(res), "rejected": bad, "distinct": len(set(res))}
    if bad > 0.6 * len(res):
        raise common.MachineryError(f"too many rejected compilations: {bad} of {len(res)}")
    ctx.samples = [hs[0][:6]]
    ctx.notes["rule"] = "random histories of compilations, in-place compilations, growing schedules and changing configurations"


def replay(ctx, path):
    r = json.load(open(path))["replay"]
    devices()
    judge(ctx, [(r["seed"], r["history"])])
