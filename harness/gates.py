"""Gate-level schedules: random devices, gates, their construction and observation."""
from __future__ import annotations

import random

from . import ir

TICK = 64           # ticks per ns
SPEC_OPS = {"rxy", "rz", "h", "reset", "charge_reset", "spec", "measure", "cr_count", "cz", "raw"}


def ns(x):
    return x * TICK


def sec(t):
    return t / TICK * 1e-9


# ------------------------------------------------------------------ devices
def _ref(rng):
    return rng.choice(["none", "none", "none", "dBm:-10", "V:0.5", "A:0.25"])


def _dur(rng):
    return ns(rng.choice([4, 20, 40, 100, 300, 2 * rng.randrange(1, 200)]))


def rand_element(rng, name, kind):
    e = {"kind": kind, "chan": rng.choice(["0", "1", "7", "s:ch_" + name]), "acq_delay": ns(rng.choice([0, 0, 20, 100, 148])),
         "integ": _dur(rng), "pulse_amp": rng.randrange(1, 900), "pulse_dur": _dur(rng)}
    p = lambda d: name + ":" + (d if rng.random() < 0.8 else d + "X")
    if kind in ("transmon", "spin", "nv"):
        e |= {"amp180": rng.randrange(-1000, 1000), "rxy_dur": _dur(rng), "mw": p("mw"), "reset_dur": _dur(rng)}
    if kind in ("transmon", "spin"):
        e |= {"rxy_ref": _ref(rng)}
    if kind == "transmon":
        e |= {"motzoi": rng.randrange(-900, 900), "fl": p("fl")}
    if kind in ("spin", "sensor"):
        e |= {"gate": p("gt"), "gate_amp": rng.randrange(1, 900)}
    if kind in ("transmon", "spin", "sensor"):
        n = rng.choice([1, 3, 8])
        w = lambda: [rng.randrange(-100, 101) for _ in range(n)]
        e |= {"ro": p("res"), "ro_ref": _ref(rng), "reset_ph": rng.choice([1, 1, 0]), "rot": rng.randrange(0, 360),
              "thr": rng.randrange(-100, 100), "wa": w(), "wb": w(), "wstep": ns(rng.choice([1, 2])),
              "npts": rng.choice([1, 2, 5]), "tail": ns(4)}
    if kind == "nv":
        shapes = ["SkewedHermitePulse", "GaussPulse"]
        e |= {"oc": p("optical_control"), "or": p("optical_readout"), "rxy_shape": rng.choice(shapes),
              "skew": rng.randrange(-900, 900), "reset_amp": rng.randrange(1, 900), "cr_amp": rng.randrange(1, 900),
              "cr_dur": _dur(rng), "spec_amp": rng.randrange(1, 900), "spec_dur": _dur(rng),
              "spec_shape": rng.choice(["SquarePulse", *shapes]), "acq_delay": ns(rng.choice([0, 20, 100, -20, -48])),
              "tsrc": rng.choice(["first", "second", "last"]), "tref": rng.choice(["start", "end", "first"]),
              "cc_ro_amp": rng.randrange(1, 900), "cc_sp_amp": rng.randrange(1, 900), "cc_ro_dur": _dur(rng),
              "cc_sp_dur": _dur(rng), "cc_integ": _dur(rng), "cc_delay": ns(rng.choice([0, 20, -20])),
              "cc_chan": rng.choice(["0", "3", "s:cc"])}
    return e


CLOCKS = {"transmon": ["01", "12", "ro"], "spin": ["f_larmor", "ro"], "sensor": ["ro"],
          "nv": ["f01", "spec", "ge0", "ge1", "ionization"]}
LETTER = {"transmon": "q", "spin": "s", "nv": "n", "sensor": "c"}


def rand_device(rng, kinds=None):
    kinds = kinds or rng.choice([["transmon", "transmon"], ["transmon", "transmon", "transmon"], ["spin", "spin", "sensor"],
                                 ["nv"], ["transmon", "nv"], ["transmon"], ["spin"], ["transmon", "spin", "nv", "sensor"]])
    dev, clocks = {}, {}
    for i, k in enumerate(kinds):
        name = f"{LETTER[k]}{i}"
        dev[name] = rand_element(rng, name, k)
        for c in CLOCKS[k]:
            clocks[f"{name}.{c}"] = -1 if rng.random() < 0.004 else rng.randrange(1000, 9000000)
    edges = []
    names = list(dev)
    for a in names:
        for b in names:
            if a != b and dev[a]["kind"] == dev[b]["kind"] in ("transmon", "spin") and rng.random() < 0.5:
                if any(e["parent"] == b and e["child"] == a for e in edges) and rng.random() < 0.7:
                    continue
                edges.append({"parent": a, "child": b, "amp": rng.randrange(1, 900), "dur": _dur(rng),
                              "pph": rng.randrange(-800, 800), "cph": rng.randrange(-800, 800),
                              "port": f"{a}_{b}:gt" if dev[a]["kind"] == "spin" else dev[a]["fl"]})
    return {"dev": dev, "clocks": clocks, "edges": edges}


def chan(c):
    return c[2:] if c.startswith("s:") else int(c)


def chan_str(x):
    return "s:" + x if isinstance(x, str) else str(int(x))


def make_device(d, strat):
    import numpy as np
    from qcodes.instrument import Instrument
    from quantify_scheduler import BasicElectronicNVElement, BasicTransmonElement, QuantumDevice
    from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
    from quantify_scheduler.device_under_test.spin_edge import SpinEdge
    from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor
    from quantify_scheduler.enums import TimeRef, TimeSource

    Instrument.close_all()
    qd = QuantumDevice("qd")
    qd.scheduling_strategy(strat)
    keep = [qd]
    cls = {"transmon": BasicTransmonElement, "spin": BasicSpinElement, "nv": BasicElectronicNVElement,
           "sensor": ChargeSensor}
    for name, e in d["dev"].items():
        q = cls[e["kind"]](name)
        keep.append(q)
        qd.add_element(q)
        k = e["kind"]
        for c in CLOCKS[k]:
            f = d["clocks"][f"{name}.{c}"]
            par = {"01": "f01", "12": "f12", "ro": "readout"}.get(c, c)
            q.clock_freqs.parameters[par](float("nan") if f == -1 else f * 1e3)
        q.measure.acq_channel(chan(e["chan"]))
        q.measure.acq_delay(sec(e["acq_delay"]))
        q.measure.pulse_duration(sec(e["pulse_dur"]))
        if k != "sensor":
            q.rxy.amp180(e["amp180"] / 1000)
            q.rxy.duration(sec(e["rxy_dur"]))
            q.ports.microwave(e["mw"])
            q.reset.duration(sec(e["reset_dur"]))
        if k in ("transmon", "spin"):
            _setref(q.rxy.reference_magnitude, e["rxy_ref"])
        if k == "transmon":
            q.rxy.motzoi(e["motzoi"] / 1000)
            q.ports.flux(e["fl"])
        if k in ("spin", "sensor"):
            q.ports.gate(e["gate"])
            q.measure.gate_pulse_amp(e["gate_amp"] / 1000)
        if k != "nv":
            q.ports.readout(e["ro"])
            m = q.measure
            m.pulse_amp(e["pulse_amp"] / 1000)
            m.integration_time(sec(e["integ"]))
            _setref(m.reference_magnitude, e["ro_ref"])
            m.reset_clock_phase(bool(e["reset_ph"]))
            m.acq_rotation(e["rot"])
            m.acq_threshold(e["thr"])
            m.acq_weights_a(np.array(e["wa"]) / 100)
            m.acq_weights_b(np.array(e["wb"]) / 100)
            m.acq_weights_sampling_rate(1 / sec(e["wstep"]))
            m.num_points(e["npts"])
        else:
            q.ports.optical_control(e["oc"])
            q.ports.optical_readout(e["or"])
            q.measure.pulse_amplitude(e["pulse_amp"] / 1000)
            q.measure.acq_duration(sec(e["integ"]))
            q.measure.time_source(TimeSource(e["tsrc"]))
            q.measure.time_ref(TimeRef(e["tref"]))
            q.rxy.pulse_shape(e["rxy_shape"])
            q.rxy.skewness(e["skew"] / 1000)
            q.reset.amplitude(e["reset_amp"] / 1000)
            q.charge_reset.amplitude(e["cr_amp"] / 1000)
            q.charge_reset.duration(sec(e["cr_dur"]))
            q.spectroscopy_operation.amplitude(e["spec_amp"] / 1000)
            q.spectroscopy_operation.duration(sec(e["spec_dur"]))
            q.spectroscopy_operation.pulse_shape(e["spec_shape"])
            cc = q.cr_count
            cc.readout_pulse_amplitude(e["cc_ro_amp"] / 1000)
            cc.spinpump_pulse_amplitude(e["cc_sp_amp"] / 1000)
            cc.readout_pulse_duration(sec(e["cc_ro_dur"]))
            cc.spinpump_pulse_duration(sec(e["cc_sp_dur"]))
            cc.acq_duration(sec(e["cc_integ"]))
            cc.acq_delay(sec(e["cc_delay"]))
            cc.acq_channel(chan(e["cc_chan"]))
    for e in d["edges"]:
        ed = (SpinEdge if d["dev"][e["parent"]]["kind"] == "spin" else CompositeSquareEdge)(
            parent_element_name=e["parent"], child_element_name=e["child"])
        keep.append(ed)
        qd.add_edge(ed)
        ed.cz.square_amp(e["amp"] / 1000)
        ed.cz.square_duration(sec(e["dur"]))
        ed.cz.parameters[e["parent"] + "_phase_correction"](e["pph"] / 2)
        ed.cz.parameters[e["child"] + "_phase_correction"](e["cph"] / 2)
    return qd, keep


def _setref(par, ref):
    if ref != "none":
        u, v = ref.split(":")
        getattr(par, u)(float(v))


# -------------------------------------------------------------------- gates
NOMEAS = {"chan": "", "index": -1, "protocol": "", "bin": "", "label": "", "delayed": 1}


def g(op, q=(), theta=0, phi=0, m=None, idx=None, ov=(), ev=(), dur=0, cls=""):
    q = list(q)
    return {"op": op, "q": q, "theta": theta, "phi": phi, "m": dict(NOMEAS, **(m or {})),
            "idx": idx or [-1] * len(q), "ov": [list(o) for o in ov], "ev": list(ev), "dur": dur, "cls": cls}


def node(gate):
    return {"k": "op", "dur": 0, "nod": 0, "ev": [], "b": None, "g": gate}


NAMED = {"X": ("rxy", 360, 0), "X90": ("rxy", 180, 0), "Y": ("rxy", 360, 180), "Y90": ("rxy", 180, 180),
         "Z": ("rz", 360, 0), "Z90": ("rz", 180, 0), "S": ("rz", 180, 0), "SDagger": ("rz", -180, 0),
         "T": ("rz", 90, 0), "TDagger": ("rz", -90, 0)}


def ev(f, port, clock, s=(), v=(), t=0):
    return {"t": t, "f": f, "port": port or "", "clock": clock, "s": list(s), "v": list(v)}


def construct(gt):
    """The operation, through the public classes."""
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations import gate_library as gl
    from quantify_scheduler.operations import nv_native_library as nv
    from quantify_scheduler.operations import pulse_library as pl
    from quantify_scheduler.operations.shared_native_library import SpectroscopyOperation

    op, q, ov = gt["op"], gt["q"], {k: _real(k, v) for k, v in gt["ov"]}
    if op == "raw":
        if not gt["ev"]:
            return pl.IdlePulse(sec(gt["dur"]))
        e = gt["ev"][0]
        if e["f"] == "shift":
            return pl.ShiftClockPhase(phase_shift=e["v"][0] / 2, clock=e["clock"])
        if e["f"] == "resetphase":
            return pl.ResetClockPhase(clock=e["clock"])
        if e["f"] == "setfreq":
            return pl.SetClockFrequency(clock=e["clock"], clock_freq_new=e["v"][0] * 1e3)
        return pl.SquarePulse(amp=e["v"][1] / 1000, duration=sec(e["v"][0]), port=e["port"], clock=e["clock"])
    if op == "rxy":
        if gt["cls"]:
            return getattr(gl, gt["cls"])(q[0], **ov)
        return gl.Rxy(theta=gt["theta"] / 2, phi=gt["phi"] / 2, qubit=q[0], **ov)
    if op == "rz":
        if gt["cls"]:
            return getattr(gl, gt["cls"])(q[0], **ov)
        return gl.Rz(theta=gt["theta"] / 2, qubit=q[0], **ov)
    if op == "h":
        return gl.H(q[0], **ov)
    if op == "cz":
        return gl.CZ(q[0], q[1], **ov)
    if op == "reset":
        return gl.Reset(*q, **ov)
    if op == "charge_reset":
        return nv.ChargeReset(*q)
    if op == "spec":
        return SpectroscopyOperation(q[0])
    m = gt["m"]
    idx = [None if i == -1 else i for i in gt["idx"]]
    kw = {"acq_index": idx[0] if len(q) == 1 else tuple(idx), "acq_protocol": m["protocol"] or None,
          "bin_mode": BinMode(m["bin"]) if m["bin"] else None, "acq_channel": chan(m["chan"]) if m["chan"] else None}
    if op == "cr_count":
        return nv.CRCount(*q, **kw)
    return gl.Measure(*q, **kw, feedback_trigger_label=m["label"] or None, apply_acquisition_delay=bool(m["delayed"]), **ov)


def _real(k, v):
    if k in ("amp180", "motzoi", "skewness", "pulse_amp", "square_amp", "amp"):
        return v / 1000
    if k in ("duration", "pulse_duration", "acq_delay", "acq_duration", "square_duration"):
        return sec(v)
    if k == "freq":
        return v * 1e3
    if k == "acq_channel":
        return chan(v)
    if k == "reset_clock_phase":
        return bool(v)
    if k.startswith("virt_z"):
        return v / 2
    return v


class Builder(ir.Builder):
    def __init__(self, share=True):
        super().__init__([], 1e-9 / TICK, share=share, resources=False)

    def _op(self, nd):
        return construct(nd["g"])


def export(root):
    order, num = ir.flat(root)
    js = ir.export(root)
    for nd, j in zip(order, js):
        if nd["k"] == "op":
            j.clear()
            j.update({"k": "op", "g": {k: v for k, v in nd["g"].items() if k != "cls"}})
    return js


# -------------------------------------------------------------- observation
OFF = 1999999999


def integer(x, scale=1.0, tol=1e-3):
    y = x * scale
    r = round(y)
    return r if abs(y - r) < tol and abs(r) < OFF else OFF


def ticks(x):
    return integer(x, 1e9 * TICK, 0.02)


def _refstr(r):
    return "none" if r is None else f"{r.unit}:{r.value:g}"


def describe(p):
    """One pulse or acquisition description as an event of the specification."""
    port, clock = p.get("port") or "", p["clock"]
    t = ticks(p["t0"])
    if "protocol" in p:
        f = p["protocol"]
        s = [chan_str(p["acq_channel"]), getattr(p["bin_mode"], "value", str(p["bin_mode"]))]
        v = [ticks(p["duration"]), -1 if p["acq_index"] is None else p["acq_index"]]
        if f in ("ThresholdedAcquisition", "WeightedThresholdedAcquisition"):
            s.append(p.get("feedback_trigger_label") or "")
            if f == "ThresholdedAcquisition":
                v.append(integer(p["acq_rotation"]))
            v.append(integer(p["acq_threshold"]))
        if f in ("Timetag", "TimetagTrace"):
            if f == "Timetag":
                s.append(p["time_source"].value)
            s.append(p["time_ref"].value)
        if f in ("NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration", "WeightedThresholdedAcquisition"):
            for w in p["waveforms"]:
                v += [integer(float(x), 100) for x in w["samples"]]
        return ev(f, port, clock, s, v, t)
    if p.get("reset_clock_phase"):
        return ev("resetphase", port, clock, t=t)
    if "phase_shift" in p:
        return ev("shift", port, clock, (), [integer(p["phase_shift"], 2)], t)
    if "clock_freq_new" in p:
        f = p["clock_freq_new"]
        return ev("setfreq", port, clock, (), [-1 if f is None else integer(f, 1e-3)], t)
    if "offset_path_I" in p:
        return ev("offset", port, clock, (), [integer(p["offset_path_I"], 1000), integer(p["offset_path_Q"], 1000)], t)
    wf = p["wf_func"]
    if wf is None:
        return None
    wf = wf.rsplit(".", 1)[1]
    d = ticks(p["duration"])
    s = [_refstr(p.get("reference_magnitude"))]
    if wf == "square":
        a = complex(p["amp"])
        return ev("square", port, clock, s, [d, integer(a.real, 1000), integer(a.imag, 1000)], t)
    if wf == "drag":
        return ev("drag", port, clock, s, [d, integer(p["G_amp"], 360000, 0.02), integer(p["D_amp"], 1000), integer(p["phase"], 2)], t)
    if wf == "skewed_hermite":
        return ev("hermite", port, clock, s,
                  [d, integer(p["amplitude"], 360000, 0.02), integer(p["skewness"], 1000), integer(p["phase"], 2)], t)
    return ev(wf, port, clock, s, [d], t)


def observe(c):
    """Everything in a device-level schedule: events in order of the listing, clock frequencies."""
    out, freqs = [], {}

    def go(o, t):
        if hasattr(o, "schedulables"):
            for name, r in o.resources.items():
                if "freq" in r and name not in ("cl0.baseband", "digital"):
                    freqs.setdefault(name, set()).add(integer(r["freq"], 1e-3))
            for x in o.schedulables.values():
                go(o.operations[x["operation_id"]], t + x["abs_time"])
        elif hasattr(o, "body"):
            n = o.data["control_flow_info"].get("repetitions", 1)
            for k in range(n):
                go(o.body, t + k * o.body.duration)
        else:
            for p in list(o["pulse_info"]) + list(o["acquisition_info"]):
                e = describe(p)
                if e:
                    e["t"] = ticks(t + p["t0"])
                    out.append(e)

    go(c, 0.0)
    return {"res": "ok", "ev": out, "dur": ticks(c.duration), "why": "",
            "clocks": [[k, f] for k, fs in freqs.items() for f in sorted(fs)]}


def run_case(case):
    """(device, strategy, root) -> observation."""
    import warnings

    from quantify_scheduler import SerialCompiler
    warnings.simplefilter("ignore")
    d, strat, root = case
    try:
        qd, keep = make_device(d, strat)
        s = Builder().build(root)
        c = SerialCompiler("c").compile(s, qd.generate_compilation_config())
        return observe(c)
    except Exception as e:  # noqa: BLE001
        return {"res": "reject", "ev": [], "dur": 0, "clocks": [], "why": repr(e)[:300]}


def judge(ctx, cases):
    from . import common

    obs = common.pmap(run_case, cases)
    js = [{"dev": d["dev"], "edges": d["edges"], "clocks": d["clocks"], "nodes": export(r), "strat": s, "obs": o}
          for (d, s, r), o in zip(cases, obs)]
    verd = common.judge(ctx, "GateTrace", js)
    stats = {"ok": 0, "reject": 0}
    for j, o, vs in zip(js, obs, verd):
        stats[o["res"]] += 1
        for cl, det in vs:
            if cl != "ok":
                ctx.violate(cl, f"{det} {o['why']}", j)
    ctx.notes["outcomes"] = stats
    ctx.samples = [js[0], js[-1]]
    return js, obs
