"""Library operations as IR nodes: what the schedule asks for (events) next to how it is built.

Every constructor below returns an IR op node: `b` tells `make` how to build the library
object through the public API, `ev` tells the specification what the operation means.
Amplitudes are normalised floats, times integer ns (IR unit 1 ns).
"""
from __future__ import annotations

from . import ir, shapes
from .shapes import q


def make(b, B):
    return globals()["mk_" + b["kind"]](b, B)


def _pc(b, B):
    pc = B.pcs[b["pc"]]
    return {"port": pc["port"], "clock": pc["clock"]}


class Tabs:
    """Sample tables shared by a case (index 1.. in the specification)."""

    def __init__(self):
        self.t, self.ix = [], {}

    def add(self, vals):
        key = tuple(vals)
        if key not in self.ix:
            self.t.append(list(vals))
            self.ix[key] = len(self.t)
        return self.ix[key]


def wave_ev(tabs, pc, t0, wave):
    return {"e": "w", "pc": pc + 1, "t0": t0, "d": len(wave),
            "I": tabs.add([q(z.real) for z in wave]), "Q": tabs.add([q(z.imag) for z in wave])}


def const_ev(pc, t0, d, amp):
    amp = complex(amp)
    return {"e": "p", "pc": pc + 1, "t0": t0, "d": d, "I": q(amp.real), "Q": q(amp.imag)}


# ------------------------------------------------------------------ constructors
def idle(d):
    return ir.op({"kind": "idle", "dur": d}, d)


def square(pc, amp, d, t0=0):
    return ir.op({"kind": "square", "amp": amp, "dur": d, "t0": t0, "pc": pc}, d + t0, [const_ev(pc, t0, d, amp)])


def wave(tabs, kind, pc, d, t0=0, **kw):
    b = {"kind": kind, "pc": pc, "dur": d, "t0": t0, **kw}
    if kind == "ramp":
        w = shapes.ramp(d, kw["amp"], kw.get("offset", 0.0))
    elif kind == "longramp":
        w = shapes.ramp(d, kw["amp"], kw.get("offset", 0.0))
    elif kind in ("staircase", "longstair"):
        w = shapes.staircase(d, kw["start"], kw["final"], kw["steps"])
    elif kind == "soft":
        w = shapes.soft_square(d, kw["amp"])
    elif kind == "chirp":
        w = shapes.chirp(d, kw["amp"], kw["f0"], kw["f1"])
    elif kind == "drag":
        w = shapes.drag(d, kw["g"], kw["dd"], kw["phase"], kw.get("sigma"))
    elif kind == "gauss":
        w = shapes.drag(d, kw["g"], 0.0, kw["phase"], kw.get("sigma"))
    elif kind == "hermite":
        w = shapes.hermite(d, kw["amp"], kw["skew"], kw["phase"])
    elif kind == "snz":
        w = shapes.snz(kw["a"], kw["bb"], kw["scale"], kw["tp"], kw["tphi"], kw["tc"])
        assert len(w) == d
    elif kind == "numerical":
        w = shapes.numerical(kw["samples"], kw["step"])
        assert len(w) == d
    elif kind == "longsquare":
        w = shapes.square(d, kw["amp"])
    else:
        raise KeyError(kind)
    return ir.op(b, d + t0, [wave_ev(tabs, pc, t0, w)])


def offset(pc, i, qq, t0=0):
    return ir.op({"kind": "offset", "pc": pc, "i": i, "q": qq, "t0": t0}, t0,
                 [{"e": "o", "pc": pc + 1, "t0": t0, "I": q(i), "Q": q(qq)}])


def phase(ck, deg, clock, t0=0):
    return ir.op({"kind": "phase", "deg": deg, "clock": clock, "t0": t0}, t0,
                 [{"e": "phs", "ck": ck, "t0": t0, "a": round(deg % 360 / 360 * 1e9) % 10**9}])


def reset(ck, clock, t0=0):
    return ir.op({"kind": "reset", "clock": clock, "t0": t0}, t0, [{"e": "rst", "ck": ck, "t0": t0}])


def setfreq(ck, clock, freq, df, t0=0):
    """df: new minus configured clock frequency, Hz (integer)."""
    return ir.op({"kind": "setfreq", "clock": clock, "freq": freq, "t0": t0}, t0,
                 [{"e": "frq", "ck": ck, "t0": t0, "df": df * 4}])


def marker(pc, bit, d, t0=0):
    return ir.op({"kind": "marker", "pc": pc, "dur": d, "t0": t0}, d + t0,
                 [{"e": "m", "pc": pc + 1, "b": bit, "d": d, "t0": t0}])


def switch(pc, bit, d):
    return ir.op({"kind": "switch", "pc": pc, "dur": d}, d, [{"e": "m", "pc": pc + 1, "b": bit, "d": d, "t0": 0}])


PROTOCOL = {"trace": "Trace", "ssb": "SSBIntegrationComplex", "thr": "ThresholdedAcquisition", "ttl": "TriggerCount",
            "wsep": "NumericalSeparatedWeightedIntegration", "wnum": "NumericalWeightedIntegration",
            "tag": "Timetag", "ttr": "TimetagTrace", "wthr": "WeightedThresholdedAcquisition", "ttc": "ThresholdedTriggerCount",
            "dual": "DualThresholdedTriggerCount"}


def acq(kind, pc, d, ch, t0=0, index=None, mode="average", label=None, labnum=0, tabs=None, chnum=None, **kw):
    """kind: trace, ssb, thr, wsep, wnum, wthr, ttl"""
    user = kw.pop("user", None)
    b = {"kind": "acq", "proto": kind, "pc": pc, "dur": d, "ch": ch, "t0": t0, "index": index, "mode": mode,
         "label": label, **kw}
    ev = {"e": "a", "pc": pc + 1, "t0": t0, "d": d, "ch": chnum if chnum is not None else ch,
          "ai": -1 if index is None else index,
          "app": mode == "append", "label": labnum, "wI": 0, "wQ": 0, "proto": "int",
          "thrn": kw.get("count", 0), "cnd": int(kw.get("less", False)), "pn": PROTOCOL[kind], "md": mode,
          "uc": -1 if user is None else user}
    if user is not None:
        b["coords"] = {f"user_{ch}": user}
    if kind in ("ttl", "ttc", "dual"):
        ev["proto"] = "ttl"
    elif kind == "trace":
        ev["proto"] = "trace"
    elif kind in ("wsep", "wnum", "wthr"):
        ev["proto"] = "weighed"
        ev["wI"] = tabs.add([q(x) for x in kw["wa"]])
        ev["wQ"] = tabs.add([q(x) for x in kw["wb"]])
    return ir.op(b, d + t0, [ev])


# ---------------------------------------------------------------------- builders
def mk_idle(b, B):
    from quantify_scheduler.operations.pulse_library import IdlePulse

    return IdlePulse(B.t(b["dur"]))


def mk_square(b, B):
    from quantify_scheduler.operations.pulse_library import SquarePulse

    return SquarePulse(amp=b["amp"], duration=B.t(b["dur"]), t0=B.t(b.get("t0", 0)), **_pc(b, B))


def mk_ramp(b, B):
    from quantify_scheduler.operations.pulse_library import RampPulse

    return RampPulse(amp=b["amp"], duration=B.t(b["dur"]), offset=b.get("offset", 0.0), t0=B.t(b["t0"]), **_pc(b, B))


def mk_staircase(b, B):
    from quantify_scheduler.operations.pulse_library import StaircasePulse

    return StaircasePulse(start_amp=b["start"], final_amp=b["final"], num_steps=b["steps"], duration=B.t(b["dur"]),
                          t0=B.t(b["t0"]), **_pc(b, B))


def mk_soft(b, B):
    from quantify_scheduler.operations.pulse_library import SoftSquarePulse

    return SoftSquarePulse(amp=b["amp"], duration=B.t(b["dur"]), t0=B.t(b["t0"]), **_pc(b, B))


def mk_chirp(b, B):
    from quantify_scheduler.operations.pulse_library import ChirpPulse

    return ChirpPulse(amp=b["amp"], duration=B.t(b["dur"]), start_freq=b["f0"], end_freq=b["f1"], t0=B.t(b["t0"]),
                      **_pc(b, B))


def mk_drag(b, B):
    from quantify_scheduler.operations.pulse_library import DRAGPulse

    return DRAGPulse(G_amp=b["g"], D_amp=b["dd"], phase=b["phase"], duration=B.t(b["dur"]), t0=B.t(b["t0"]),
                     sigma=None if b.get("sigma") is None else B.t(b["sigma"]), **_pc(b, B))


def mk_gauss(b, B):
    from quantify_scheduler.operations.pulse_library import GaussPulse

    return GaussPulse(G_amp=b["g"], phase=b["phase"], duration=B.t(b["dur"]), t0=B.t(b["t0"]),
                      sigma=None if b.get("sigma") is None else B.t(b["sigma"]), **_pc(b, B))


def mk_hermite(b, B):
    from quantify_scheduler.operations.pulse_library import SkewedHermitePulse

    return SkewedHermitePulse(duration=B.t(b["dur"]), amplitude=b["amp"], skewness=b["skew"], phase=b["phase"],
                              t0=B.t(b["t0"]), **_pc(b, B))


def mk_snz(b, B):
    from quantify_scheduler.operations.pulse_library import SuddenNetZeroPulse

    return SuddenNetZeroPulse(amp_A=b["a"], amp_B=b["bb"], net_zero_A_scale=b["scale"], t_pulse=B.t(b["tp"]),
                              t_phi=B.t(b["tphi"]), t_integral_correction=B.t(b["tc"]), t0=B.t(b["t0"]), **_pc(b, B))


def mk_numerical(b, B):
    from quantify_scheduler.operations.pulse_library import NumericalPulse

    s = b["samples"]
    return NumericalPulse(samples=list(s), t_samples=[B.t(i * b["step"]) for i in range(len(s))], t0=B.t(b["t0"]),
                          **_pc(b, B))


def mk_longsquare(b, B):
    from quantify_scheduler.backends.qblox.operations import long_square_pulse

    return long_square_pulse(amp=b["amp"], duration=B.t(b["dur"]), t0=B.t(b["t0"]), **_pc(b, B))


def mk_longramp(b, B):
    from quantify_scheduler.backends.qblox.operations import long_ramp_pulse

    kw = {"part_duration_ns": b["part"]} if b.get("part") else {}
    return long_ramp_pulse(amp=b["amp"], duration=B.t(b["dur"]), offset=b.get("offset", 0.0), t0=B.t(b["t0"]),
                           **kw, **_pc(b, B))


def mk_longstair(b, B):
    from quantify_scheduler.backends.qblox.operations import staircase_pulse

    return staircase_pulse(start_amp=b["start"], final_amp=b["final"], num_steps=b["steps"], duration=B.t(b["dur"]),
                           t0=B.t(b["t0"]), **_pc(b, B))


def mk_offset(b, B):
    from quantify_scheduler.operations.pulse_library import VoltageOffset

    return VoltageOffset(offset_path_I=b["i"], offset_path_Q=b["q"], t0=B.t(b["t0"]), **_pc(b, B))


def mk_phase(b, B):
    from quantify_scheduler.operations.pulse_library import ShiftClockPhase

    return ShiftClockPhase(phase_shift=b["deg"], clock=b["clock"], t0=B.t(b["t0"]))


def mk_reset(b, B):
    from quantify_scheduler.operations.pulse_library import ResetClockPhase

    return ResetClockPhase(clock=b["clock"], t0=B.t(b["t0"]))


def mk_setfreq(b, B):
    from quantify_scheduler.operations.pulse_library import SetClockFrequency

    return SetClockFrequency(clock=b["clock"], clock_freq_new=b["freq"], t0=B.t(b["t0"]))


def mk_marker(b, B):
    from quantify_scheduler.operations.pulse_library import MarkerPulse

    return MarkerPulse(duration=B.t(b["dur"]), t0=B.t(b["t0"]), **_fine(b), **_pc(b, B))


def mk_stamp(b, B):
    from quantify_scheduler.operations.pulse_library import Timestamp

    return Timestamp(t0=B.t(b["t0"]), **_pc(b, B))


def _fine(b):
    return {f"fine_{k}_delay": b[x] * 1e-12 for k, x in (("start", "fs"), ("end", "fe")) if x in b}


def mk_switch(b, B):
    from quantify_scheduler.backends.qblox.operations.rf_switch_toggle import RFSwitchToggle

    return RFSwitchToggle(duration=B.t(b["dur"]), **_pc(b, B))


def mk_acq(b, B):
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations import acquisition_library as al

    kw = dict(acq_channel=b["ch"], acq_index=b["index"], t0=B.t(b["t0"]), bin_mode=BinMode(b["mode"]), **_pc(b, B))
    if b.get("coords") is not None:
        kw["coords"] = b["coords"]
    k, d = b["proto"], B.t(b["dur"])
    if b.get("qtm"):
        kw.update(_fine(b))
        if k in ("tag", "ttr"):
            kw.update({x: b[x] for x in ("time_ref", "time_ref_port") if b.get(x)})
            return al.Timetag(duration=d, time_source=b["time_source"], **kw) if k == "tag" else al.TimetagTrace(duration=d, **kw)
    if k == "trace":
        return al.Trace(duration=d, **kw)
    if k == "ssb":
        return al.SSBIntegrationComplex(duration=d, **kw)
    if k == "thr":
        return al.ThresholdedAcquisition(duration=d, feedback_trigger_label=b["label"],
                                         acq_rotation=b.get("rot", 0), acq_threshold=b.get("thr", 0), **kw)
    if k == "ttc":
        from quantify_scheduler.enums import TriggerCondition

        return al.ThresholdedTriggerCount(
            duration=d, threshold=b["count"], feedback_trigger_label=b["label"],
            feedback_trigger_condition=TriggerCondition.LESS_THAN if b.get("less") else TriggerCondition.GREATER_THAN_EQUAL_TO, **kw)
    if k == "dual":
        return al.DualThresholdedTriggerCount(duration=d, threshold_low=b["low"], threshold_high=b["high"],
                                              **({f"label_{b['slot']}": b["label"]} if b["label"] else {}), **kw)
    if k == "ttl":
        return al.TriggerCount(duration=d, **kw)
    if k == "wsep":
        return al.NumericalSeparatedWeightedIntegration(weights_a=list(b["wa"]), weights_b=list(b["wb"]), **kw)
    if k == "wnum":
        return al.NumericalWeightedIntegration(weights_a=list(b["wa"]), weights_b=list(b["wb"]), **kw)
    if k == "wthr":
        return al.WeightedThresholdedAcquisition(weights_a=list(b["wa"]), weights_b=list(b["wb"]),
                                                 feedback_trigger_label=b["label"], acq_threshold=b.get("thr", 0), **kw)
    raise KeyError(k)
