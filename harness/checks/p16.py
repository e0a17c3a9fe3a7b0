"""P16: with crosstalk compensation the device receives the pulses the schedule asks for."""
from __future__ import annotations

import random

from .. import common, ir, shapes

TECHNIQUE = ("TLA+ specification of what the device receives through the crosstalk matrix; TLC judges recorded compilations against it; "
             "compiled programs additionally run on the TLA+ Q1 machine")
NOTE = "Bounded: seeded generated schedules and matrices (2-4 lines). Waveforms are compared in up to seven samples, amplitudes up to 5e-4."
TICK = 64
UNIT = 1e-9 / TICK
SCALE = 10000
LINES = ["q0:mw-q0.01", "q1:mw-q1.01", "q2:fl-cl0.baseband", "q0:res-q0.ro", "q3:mw-q3.01", "q4:fl-cl0.baseband"]
FREQS = {"q0.01": 5e9, "q1.01": 5.1e9, "q3.01": 5.2e9, "q0.ro": 7e9}


def ns(x):
    return x * TICK


def at(d):
    """Sample numbers compared."""
    return sorted({0, 1, d // 4, d // 2, 3 * d // 4, d - 2, d - 1} & set(range(d)))


def quant(z):
    f = lambda x: max(-10**5, min(10**5, round(x * SCALE)))
    return [f(z.real), f(z.imag)]


def ev(line, t, d, w):
    return {"l": line + 1, "t": ns(t), "d": ns(d), "s": [quant(complex(w[i])) for i in at(d)]}


def pulse(rng, lines=None):
    line = rng.choice(lines or range(len(LINES)))
    t0 = rng.choice([0, 0, 0, 4, 20])
    d = rng.choice([8, 20, 40, 100, 2 * rng.randrange(4, 100)])
    a = rng.randrange(-600, 600) / 1000
    kind = rng.choice(["square", "square", "ramp", "staircase", "soft", "chirp", "drag", "gauss", "hermite", "snz", "numerical"])
    b = {"kind": kind, "line": line, "t0": t0, "d": d, "a": a}
    if kind == "square":
        b["a"] = a = rng.choice([a, complex(a, rng.randrange(-500, 500) / 1000)])
        w = shapes.square(d, a)
    elif kind == "ramp":
        b["off"] = rng.choice([0, 0.1, -0.3])
        w = shapes.ramp(d, a, b["off"])
    elif kind == "staircase":
        b["steps"], b["fin"] = next(k for k in (3, 7, 11, 13) if d % k), rng.randrange(-600, 600) / 1000
        w = shapes.staircase(d, a, b["fin"], b["steps"])
    elif kind == "soft":
        b["d"] = d = max(d, 20)
        w = shapes.soft_square(d, a)
    elif kind == "chirp":
        b["f0"], b["f1"] = rng.choice([1e6, 2e7]), rng.choice([3e7, 5e6])
        w = shapes.chirp(d, a, b["f0"], b["f1"])
    elif kind in ("drag", "gauss"):
        b["dd"], b["phase"] = (rng.randrange(-500, 500) / 1000 if kind == "drag" else 0.0), rng.choice([0, 45, 90])
        w = shapes.drag(d, a, b["dd"], b["phase"])
    elif kind == "hermite":
        b["skew"], b["phase"] = rng.randrange(-900, 900) / 1e9, rng.choice([0, 90])
        w = shapes.hermite(d, a, b["skew"], b["phase"])
    elif kind == "snz":
        b |= {"bb": rng.randrange(0, 900) / 1000, "scale": rng.choice([1, 0.9]), "tphi": rng.choice([0, 2]), "tc": 10}
        b["d"] = d = 30 + b["tphi"]
        w = shapes.snz(a, b["bb"], b["scale"], 20, b["tphi"], 10)
    else:
        step = 4
        b["samples"] = [rng.randrange(-600, 600) / 1000 for _ in range(rng.choice([3, 6]))]
        b["d"] = d = (len(b["samples"]) - 1) * step
        w = shapes.numerical(b["samples"], step)
    return {"k": "op", "dur": ns(b["d"] + t0), "nod": 0, "ev": [ev(line, t0, b["d"], w)], "b": b}


def leaf(rng, shared):
    r = rng.random()
    if shared and r < 0.3:
        return rng.choice(shared)
    if r < 0.4:
        d = rng.choice([4, 20, 100])
        nd = {"k": "op", "dur": ns(d), "nod": 0, "ev": [], "b": {"kind": "idle", "d": d}}
    elif r < 0.5:
        ps = [pulse(rng) for _ in range(2)]
        nd = {"k": "op", "dur": max(p["dur"] for p in ps), "nod": 0, "ev": [e for p in ps for e in p["ev"]],
              "b": {"kind": "multi", "parts": [p["b"] for p in ps]}}
    else:
        nd = pulse(rng)
    shared.append(nd)
    return nd


def tree(rng, depth, shared, top=False):
    r = rng.random()
    if not top and (depth == 0 or r < 0.6):
        return leaf(rng, shared)
    if not top and r < 0.75:
        return ir.loop(tree(rng, depth - 1, shared), rng.choice([1, 2, 3]))
    if not top and r < 0.8:
        return ir.cond(tree(rng, depth - 1, shared), "lab", 0)
    if not top and r < 0.87:
        subs = [s for s in shared if s["k"] == "sched"]
        if subs:
            return rng.choice(subs)
    n = rng.choice([1, 2, 3, 4])
    items = []
    for j in range(1, n + 1):
        ref = rng.randrange(1, j) if j > 1 and rng.random() < 0.4 else 0
        pts = ["", "", "", "start", "end"]
        items.append(ir.item(tree(rng, depth - 1, shared), ir.con(ref, rng.choice(pts), rng.choice(pts), ns(rng.choice([0, 0, 0, 20, -12])))))
    nd = ir.sched(items)
    shared.append(nd)
    return nd


def matrix(rng, n):
    """(configuration, rows). Rows in 1e-3; the diagonal is one unless given."""
    cfg, mat = {}, [[[1000 if i == j else 0, 0] for j in range(n)] for i in range(n)]
    for i in range(n):
        row = {}
        for j in range(n):
            if i != j and rng.random() < 0.7 or i == j and rng.random() < 0.15:
                v = complex(rng.randrange(-300, 300), rng.choice([0, 0, rng.randrange(-200, 200)]))
                if i == j:
                    v = complex(rng.randrange(800, 1200))
                mat[i][j] = [int(v.real), int(v.imag)]
                row[LINES[j]] = v.real / 1000 if v.imag == 0 else v / 1000
        if row:
            cfg[LINES[i]] = row
    named = set(cfg) | {k for r in cfg.values() for k in r}
    return (cfg, mat) if set(LINES[:n]) == named else matrix(rng, n)


# ------------------------------------------------------------------ the real thing
def _op(b):
    from quantify_scheduler.operations import pulse_library as pl

    if b["kind"] == "idle":
        return pl.IdlePulse(b["d"] * 1e-9)
    if b["kind"] == "multi":
        o = _op(b["parts"][0])
        for p in b["parts"][1:]:
            o.add_pulse(_op(p))
        return o
    port, clock = LINES[b["line"]].split("-")
    kw = {"port": port, "clock": clock, "t0": b["t0"] * 1e-9}
    d, a, k = b["d"] * 1e-9, b["a"], b["kind"]
    if k == "square":
        return pl.SquarePulse(amp=a, duration=d, **kw)
    if k == "ramp":
        return pl.RampPulse(amp=a, duration=d, offset=b["off"], **kw)
    if k == "staircase":
        return pl.StaircasePulse(start_amp=a, final_amp=b["fin"], num_steps=b["steps"], duration=d, **kw)
    if k == "soft":
        return pl.SoftSquarePulse(amp=a, duration=d, **kw)
    if k == "chirp":
        return pl.ChirpPulse(amp=a, duration=d, start_freq=b["f0"], end_freq=b["f1"], **kw)
    if k == "drag":
        return pl.DRAGPulse(G_amp=a, D_amp=b["dd"], phase=b["phase"], duration=d, **kw)
    if k == "gauss":
        return pl.GaussPulse(G_amp=a, phase=b["phase"], duration=d, **kw)
    if k == "hermite":
        return pl.SkewedHermitePulse(duration=d, amplitude=a, skewness=b["skew"], phase=b["phase"], **kw)
    if k == "snz":
        return pl.SuddenNetZeroPulse(amp_A=a, amp_B=b["bb"], net_zero_A_scale=b["scale"], t_pulse=20e-9,
                                     t_phi=b["tphi"] * 1e-9, t_integral_correction=b["tc"] * 1e-9, **kw)
    return pl.NumericalPulse(samples=b["samples"], t_samples=[4e-9 * i for i in range(len(b["samples"]))], **kw)


class Builder(ir.Builder):
    def _op(self, nd):
        return _op(nd["b"])


def ticks(x):
    u = x / UNIT
    r = round(u)
    return r if abs(u - r) < 0.02 else 2 * 10**9


def hw(cfg):
    return {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
            "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal",
                                                  "modules": {str(i + 1): {"instrument_type": "QCM"} for i in range(6)}}},
            "hardware_options": {"crosstalk": cfg},
            "connectivity": {"graph": [[f"cluster0.module{i + 1}.complex_output_0", l.split("-")[0]] for i, l in enumerate(LINES)]}}


def run_case(case):
    cfg, root, strat = case
    import warnings

    from quantify_scheduler import ClockResource, QuantumDevice, SerialCompiler
    from quantify_scheduler.helpers.waveforms import get_waveform
    from qcodes.instrument import Instrument
    warnings.simplefilter("ignore")
    out = []

    def go(o, t):
        if hasattr(o, "schedulables"):
            for x in o.schedulables.values():
                go(o.operations[x["operation_id"]], t + x["abs_time"])
        elif hasattr(o, "body"):
            for k in range(o.data["control_flow_info"].get("repetitions", 1)):
                go(o.body, t + k * o.body.duration)
        else:
            for p in o["pulse_info"]:
                if p.get("wf_func"):
                    w = get_waveform(p, 1e9)
                    l = f"{p['port']}-{p['clock']}"
                    out.append({"l": LINES.index(l) + 1 if l in LINES else 99, "t": ticks(t + p["t0"]),
                                "d": ticks(p["duration"]), "s": [quant(complex(w[i])) for i in at(round(p["duration"] * 1e9))]})

    try:
        Instrument.close_all()
        qd = QuantumDevice("qd")
        qd.scheduling_strategy(strat)
        s = Builder([], UNIT).build(root)
        for c, f in FREQS.items():
            s.add_resource(ClockResource(c, f))
        c = SerialCompiler("c").compile(s, qd.generate_compilation_config())
        qd.hardware_config(hw(cfg))
        conf = qd.generate_compilation_config()
        # the hardware passes up to and including the compensation
        names = [p.name for p in conf.hardware_compilation_config.compilation_passes]
        for p in conf.hardware_compilation_config.compilation_passes[: names.index("crosstalk_compensation") + 1]:
            c = p.compilation_func(schedule=c, config=conf)
        go(c, 0.0)
        return {"res": "ok", "ev": out, "dur": ticks(c.duration), "why": ""}
    except Exception as e:  # noqa: BLE001
        return {"res": "reject", "ev": [], "dur": 0, "why": repr(e)[:300]}


def count(nd, memo):
    if id(nd) not in memo:
        k = nd["k"]
        memo[id(nd)] = (len(nd["ev"]) if k == "op" else sum(count(i["n"], memo) for i in nd["items"]) if k == "sched"
                        else count(nd["body"], memo) * nd.get("reps", 1))
    return memo[id(nd)]


def run(ctx):
    rng = random.Random(ctx.seed)
    cases, n = [], ctx.n(1200, 20000)
    while len(cases) < n:
        m = rng.choice([2, 3, 4])
        cfg, mat = matrix(rng, m)
        root = tree(rng, 2, [], top=True)
        if 0 < count(root, {}) <= 25:
            cases.append((cfg, root, mat))
    obs = common.pmap(run_case, [(c, r, "asap") for c, r, _ in cases])
    js = [{"nodes": ir.export(r), "strat": "asap", "mat": mat, "tol": 5, "obs": o} for (_, r, mat), o in zip(cases, obs)]
    verd = common.judge(ctx, "Crosstalk", js)
    stats = {"ok": 0, "reject": 0}
    for j, o, vs in zip(js, obs, verd):
        stats[o["res"]] += 1
        for cl, det in vs:
            if cl != "ok":
                ctx.violate(cl, f"{det} {o['why']}", j)
    ctx.notes["outcomes"] = stats
    ctx.notes["rule"] = "random nested schedules of all pulse shapes, shared operations, loops and conditionals; random matrices"
    ctx.samples = [js[0], js[-1]]
    ctx.assumptions = ["voltage offsets (and the pulses made of them) are not pulses", "times on a 1/64 ns grid"]
