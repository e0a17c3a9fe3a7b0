"""P14: pulse compensation leaves zero net area on every compensated port."""
from __future__ import annotations

import random

from .. import common, ir, shapes

TECHNIQUE = "TLA+ specification of compensated schedules; TLC judges recorded compilations of generated schedules against it"
NOTE = ("Bounded: seeded generated schedules, up to 60 pulses each. Areas are compared up to 1e-4 V ns per pulse; the sampled area of "
        "shapes comes from independent formulas.")
TICK = 64            # ticks per ns
UNIT = 1e-9 / TICK
CAP = 900 * 10**6    # areas stay inside TLC's 32-bit integers
PORTS = ["a", "b", "c"]
RF = "q0.01"


def ns(x):
    return x * TICK


def area(samples, rate, d):
    """1e-6 per ns of a sampled waveform lasting d ns."""
    return round(sum(z.real for z in samples) / len(samples) * d * 1e6)


def ev(f, port, clk, t, d, a):
    return {"f": f, "port": port, "clk": clk, "t": t, "d": d, "a": a}


def pulse(rng, rate, ports=PORTS):
    port = rng.choice(ports)
    clk = "bb" if rng.random() < 0.85 else "rf"
    t0 = rng.choice([0, 0, 0, 4, 20])
    amp = rng.choice([0.5, 0.25, -0.5, 0.1, rng.randrange(-1000, 1000) / 1000])
    d = rng.choice([4, 20, 40, 100, 2 * rng.randrange(1, 150)])
    n = round(d * rate)
    kind = rng.choice(["square", "square", "square", "ramp", "soft_square", "staircase", "snz", "idle", "multi"])
    b = {"kind": kind, "port": port, "clk": clk, "t0": t0, "d": d, "amp": amp}
    if kind == "soft_square" and n < 12:     # the convolution window has no area then
        kind = b["kind"] = "square"
    fn = {"snz": "sudden_net_zero"}.get(kind, kind)
    if kind == "idle":
        return {"k": "op", "dur": ns(d), "nod": 0, "ev": [], "b": b}
    if kind == "multi":      # several pulses in one operation
        parts = [pulse(rng, rate, ports) for _ in range(rng.choice([2, 3]))]
        parts = [p for p in parts if p["b"]["kind"] not in ("idle", "multi")]
        b["parts"] = [p["b"] for p in parts]
        return {"k": "op", "dur": max([p["dur"] for p in parts], default=0), "nod": 0,
                "ev": [e for p in parts for e in p["ev"]], "b": b} if parts else pulse(rng, rate, ports)
    if kind == "square":
        a = round(amp * d * 1e6)
    elif kind == "ramp":
        b["off"] = rng.choice([0, 0, 0.1, -0.3])
        a = area(shapes.ramp(n, amp, b["off"]), rate, d)
    elif kind == "soft_square":
        a = area(shapes.soft_square(n, amp), rate, d)
    elif kind == "staircase":
        b["steps"] = next(k for k in (3, 7, 11, 13) if d % k)   # no sample on the edge of a step
        b["fin"] = rng.randrange(-900, 900) / 1000
        a = area(shapes.staircase(n, amp, b["fin"], b["steps"]), rate, d)
    elif kind == "snz":
        if rate != 1:
            return pulse(rng, rate, ports)
        b |= {"A": amp, "B": rng.randrange(0, 900) / 1000, "scale": rng.choice([1, 1, 0.9]), "tp": 20,
              "tphi": rng.choice([0, 2, 6]), "tc": rng.choice([4, 10])}
        b["d"] = d = 20 + b["tphi"] + b["tc"]
        a = area(shapes.snz(amp, b["B"], b["scale"], 20, b["tphi"], b["tc"]), rate, d)
    return {"k": "op", "dur": ns(d + t0), "nod": 0, "ev": [ev(fn, port, clk, ns(t0), ns(d), a)], "b": b}


def offset(rng):
    port = rng.choice(PORTS)
    b = {"kind": "offset", "port": port, "amp": rng.randrange(-900, 900) / 1000}
    return {"k": "op", "dur": 0, "nod": 0, "ev": [ev("offset", port, "bb", 0, 0, 0)], "b": b}


def comp(rng, body, dev):
    if dev and rng.random() < 0.4:
        els = rng.sample(sorted(dev), rng.choice([1, 2]) if len(dev) > 1 else 1)
        if els == ["q1"] and dev["q1"]["rate"] != dev["q0"]["rate"]:
            els = ["q0"]     # areas are exported at one sampling rate
        return {"k": "comp", "body": body, "ports": [], "grid": 0, "els": els}
    ps = rng.sample(PORTS, rng.choice([1, 1, 2, 3]))
    return {"k": "comp", "body": body, "els": [], "grid": ns(rng.choice([4, 4, 1, 2, 10, 100, 52])),
            "ports": [{"port": p, "max": rng.choice([100000, 500000, 1000000, 1000 * rng.randrange(30, 1000)])} for p in ps]}


def tree(rng, depth, d, shared, top=False):
    r = rng.random()
    if not top and (depth <= 0 or r < 0.4):
        if shared and rng.random() < 0.2:
            return rng.choice(shared)
        nd = pulse(rng, d["rate"]) if rng.random() < 0.985 else offset(rng)
        shared.append(nd)
        return nd
    if not top and r < 0.52:
        return ir.loop(tree(rng, depth - 1, d, shared), rng.choice([1, 2, 3, 5]))
    if not top and r < 0.54:
        return ir.cond(tree(rng, depth - 1, d, shared), "lab", 0)
    if not top and r < 0.7:
        nd = comp(rng, tree(rng, depth - 1, d, shared), d["dev"])
        shared.append(nd)
        return nd
    n = rng.choice([1, 2, 2, 3, 4])
    items = []
    for j in range(1, n + 1):
        refs = list(range(1, j)) if d["strat"] == "asap" else list(range(j + 1, n + 1))
        ref = rng.choice(refs) if refs and rng.random() < 0.3 else 0
        pts = ["", "", "", "start", "end", "center"]
        items.append(ir.item(tree(rng, depth - 1, d, shared),
                             ir.con(ref, rng.choice(pts), rng.choice(pts), ns(rng.choice([0, 0, 0, 20, -20, 8])))))
    nd = ir.sched(items)
    shared.append(nd)
    return nd


def weight(nd, memo):
    """Upper bound of the area (compensation included) and of the number of pulses of a node."""
    if id(nd) not in memo:
        k = nd["k"]
        if k == "op":
            w = (sum(abs(e["a"]) for e in nd["ev"]), len(nd["ev"]))
        elif k == "sched":
            ws = [weight(i["n"], memo) for i in nd["items"]]
            w = (sum(x[0] for x in ws), sum(x[1] for x in ws))
        else:
            b = weight(nd["body"], memo)
            w = {"loop": lambda: (b[0] * nd["reps"], b[1] * nd["reps"]), "cond": lambda: b,
                 "comp": lambda: (2 * b[0], b[1] + 3)}[k]()
        memo[id(nd)] = w
    return memo[id(nd)]


def device(rng):
    d = {"strat": rng.choice(["asap", "asap", "asap", "alap"]), "rate": rng.choice([1, 1, 1, 2]), "dev": {}}
    same = rng.random() < 0.85
    grid = ns(rng.choice([4, 8, 20]))
    for i, q in enumerate(rng.choice([[], ["q0"], ["q0", "q1"]])):
        d["dev"][q] = {"kind": rng.choice(["transmon", "spin", "sensor", "nv"]), "port": PORTS[i],
                       "max": 1000 * rng.randrange(30, 1000), "grid": grid if same else ns(rng.choice([4, 8])),
                       "rate": d["rate"] if same or i == 0 else rng.choice([1, 2])}
    return d


# ------------------------------------------------------------------ the real thing
def _op(b, rate):
    from quantify_scheduler.operations import pulse_library as pl

    kw = {"port": b.get("port"), "clock": RF if b.get("clk") == "rf" else "cl0.baseband"}
    if b["kind"] == "idle":
        return pl.IdlePulse(b["d"] * 1e-9)
    if b["kind"] == "offset":
        return pl.VoltageOffset(offset_path_I=b["amp"], offset_path_Q=0.0, **kw)
    if b["kind"] == "multi":
        o = _op(b["parts"][0], rate)
        for p in b["parts"][1:]:
            o.add_pulse(_op(p, rate))
        return o
    kw |= {"t0": b["t0"] * 1e-9}
    d = b["d"] * 1e-9
    if b["kind"] == "square":
        return pl.SquarePulse(amp=b["amp"], duration=d, **kw)
    if b["kind"] == "ramp":
        return pl.RampPulse(amp=b["amp"], duration=d, offset=b["off"], **kw)
    if b["kind"] == "soft_square":
        return pl.SoftSquarePulse(amp=b["amp"], duration=d, **kw)
    if b["kind"] == "staircase":
        return pl.StaircasePulse(start_amp=b["amp"], final_amp=b["fin"], num_steps=b["steps"], duration=d, **kw)
    return pl.SuddenNetZeroPulse(amp_A=b["A"], amp_B=b["B"], net_zero_A_scale=b["scale"], t_pulse=b["tp"] * 1e-9,
                                 t_phi=b["tphi"] * 1e-9, t_integral_correction=b["tc"] * 1e-9, **kw)


class Builder(ir.Builder):
    def __init__(self, rate):
        super().__init__([], UNIT)
        self.rate = rate

    def _op(self, nd):
        return _op(nd["b"], self.rate)

    def _comp(self, nd):
        from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation

        body = self.build(nd["body"])
        if nd["els"]:
            return PulseCompensation(body=body, qubits=nd["els"] if len(nd["els"]) > 1 else nd["els"][0])
        return PulseCompensation(body=body, max_compensation_amp={p["port"]: p["max"] / 1e6 for p in nd["ports"]},
                                 time_grid=nd["grid"] * UNIT, sampling_rate=self.rate * 1e9)


def quantum_device(d):
    from qcodes.instrument import Instrument
    from quantify_scheduler import BasicElectronicNVElement, BasicTransmonElement, QuantumDevice
    from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor

    Instrument.close_all()
    qd = QuantumDevice("qd")
    qd.scheduling_strategy(d["strat"])
    keep = [qd]
    for name, e in d["dev"].items():
        q = {"transmon": BasicTransmonElement, "spin": BasicSpinElement, "nv": BasicElectronicNVElement,
             "sensor": ChargeSensor}[e["kind"]](name)
        qd.add_element(q)
        keep.append(q)
        (q.ports.gate if e["kind"] == "sensor" else q.ports.microwave)(e["port"])
        q.pulse_compensation.max_compensation_amp(e["max"] / 1e6)
        q.pulse_compensation.time_grid(e["grid"] * UNIT)
        q.pulse_compensation.sampling_rate(e["rate"] * 1e9)
    return qd, keep


def ticks(x):
    u = x / UNIT
    r = round(u)
    return r if abs(u - r) < 0.02 else 2 * 10**9


def run_case(case):
    d, root = case
    import warnings

    from quantify_scheduler import ClockResource, SerialCompiler
    from quantify_scheduler.helpers.waveforms import get_waveform
    warnings.simplefilter("ignore")
    out = []

    def go(o, t):
        if hasattr(o, "schedulables"):
            for x in o.schedulables.values():
                go(o.operations[x["operation_id"]], t + x["abs_time"])
        elif hasattr(o, "body"):
            for k in range(o.data["control_flow_info"].get("repetitions", 1)):
                go(o.body, t + k * o.body.duration)
        else:
            for p in o["pulse_info"]:
                clk = "bb" if p["clock"] == "cl0.baseband" else "rf"
                if "offset_path_I" in p:
                    out.append(ev("offset", p["port"], clk, ticks(t + p["t0"]), 0, 0))
                elif p.get("wf_func"):
                    f = p["wf_func"].rsplit(".", 1)[1]
                    dn = p["duration"] * 1e9
                    a = p["amp"] * dn if f == "square" else float(get_waveform(p, d["rate"] * 1e9).real.mean()) * dn
                    out.append(ev(f, p["port"], clk, ticks(t + p["t0"]), ticks(p["duration"]),
                                  max(-2 * 10**9, min(2 * 10**9, round(complex(a).real * 1e6)))))

    try:
        qd, keep = quantum_device(d)
        s = Builder(d["rate"]).build(root)
        if RF not in s.resources:
            s.add_resource(ClockResource(RF, 5e9))
        c = SerialCompiler("c").compile(s, qd.generate_compilation_config())
        go(c, 0.0)
        return {"res": "ok", "ev": out, "dur": ticks(c.duration), "why": ""}
    except Exception as e:  # noqa: BLE001
        return {"res": "reject", "ev": [], "dur": 0, "why": repr(e)[:300]}


def dc_case(rng):
    rate = rng.choice([1, 1, 2])
    ps = [pulse(rng, rate) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    return {"ps": ps, "rate": rate, "port": rng.choice(PORTS), "none": int(not ps),
            "amp": rng.choice([0, 0, 100000, -500000, 37000]), "dur": rng.choice([0, 0, ns(40), ns(100), ns(7)])}


def run_dc(c):
    import warnings

    from quantify_scheduler.operations.pulse_library import create_dc_compensation_pulse
    warnings.simplefilter("ignore")
    try:
        p = create_dc_compensation_pulse(
            pulses=[_op(x["b"], c["rate"]) for x in c["ps"]], sampling_rate=c["rate"] * 1e9, port=c["port"],
            amp=c["amp"] / 1e6 if c["amp"] else None, duration=c["dur"] * UNIT if c["dur"] else None)
        (i,) = p["pulse_info"]
        if (i["port"], i["clock"], i["wf_func"]) != (c["port"], "cl0.baseband", "quantify_scheduler.waveforms.square"):
            return {"res": "other", "a": 0, "amp": 0, "d": 0, "why": str(i)[:200]}
        return {"res": "ok", "a": round(i["amp"] * i["duration"] * 1e15), "amp": round(i["amp"] * 1e6),
                "d": ticks(i["duration"]), "why": ""}
    except Exception as e:  # noqa: BLE001
        return {"res": "reject", "a": 0, "amp": 0, "d": 0, "why": repr(e)[:200]}


def export(root):
    order, num = ir.flat(root)
    out = []
    for nd in order:
        if nd["k"] == "comp":
            out.append({"k": "comp", "body": num[id(nd["body"])], "ports": nd["ports"], "grid": nd["grid"], "els": nd["els"]})
        elif nd["k"] == "op":
            out.append({"k": "op", "dur": nd["dur"], "nod": 0, "ev": nd["ev"]})
        elif nd["k"] == "sched":
            out.append({"k": "sched", "reps": 1, "nod": 0,
                        "items": [{"n": num[id(i["n"])], "cons": i["cons"]} for i in nd["items"]]})
        elif nd["k"] == "loop":
            out.append({"k": "loop", "reps": nd["reps"], "body": num[id(nd["body"])]})
        else:
            out.append({"k": "cond", "buf": 0, "body": num[id(nd["body"])], "label": 0})
    return out


def cases_of(rng, n):
    out = []
    while len(out) < n:
        d = device(rng)
        shared = []
        root = tree(rng, 3, d, shared, top=True)
        if rng.random() < 0.8 and not any(x["k"] == "comp" for x in ir.flat(root)[0]):
            root = ir.sched([ir.item(tree(rng, 1, d, shared)), ir.item(comp(rng, root, d["dev"])), ir.item(tree(rng, 1, d, shared))])
            if d["strat"] == "alap":
                continue
        w = weight(root, {})
        if w[0] < CAP and w[1] <= 60 and len(ir.flat(root)[0]) <= 40:
            out.append((d, root))
    return out


def run(ctx):
    rng = random.Random(ctx.seed)
    cases = cases_of(rng, ctx.n(2500, 40000))
    obs = common.pmap(run_case, cases)
    js = [{"nodes": export(r), "strat": d["strat"], "obs": o,
           "dev": {q: {k: e[k] for k in ("port", "max", "grid", "rate")} for q, e in d["dev"].items()} or {"none": 0}}
          for (d, r), o in zip(cases, obs)]
    dcs = [dc_case(rng) for _ in range(ctx.n(600, 10000))]
    dobs = common.pmap(run_dc, dcs)
    js += [{"dc": {"ev": [e for p in c["ps"] for e in p["ev"]], **{k: c[k] for k in ("port", "amp", "dur")},
                   "none": bool(c["none"])}, "obs": o, "nodes": []} for c, o in zip(dcs, dobs)]
    obs = obs + dobs
    verd = common.judge(ctx, "CompTrace", js)
    stats = {"ok": 0, "reject": 0, "other": 0, "compensated": 0}
    for j, o, vs in zip(js, obs, verd):
        stats[o["res"]] += 1
        stats["compensated"] += any(nd["k"] == "comp" for nd in j["nodes"]) and o["res"] == "ok"
        for cl, det in vs:
            if cl != "ok":
                ctx.violate(cl, f"{det} {o['why']}", j)
    ctx.notes["outcomes"] = stats
    ctx.notes["rule"] = "random nested schedules with compensated bodies: loops, conditionals, nested compensation, device elements"
    ctx.samples = [js[0], js[-1]]
    ctx.assumptions = ["areas compared up to 1e-4 per pulse", "times on a 1/64 ns grid",
                       "pulses on other clocks of a compensated port do not count"]
