"""P19: the device registry and the configurations generated from it."""
from __future__ import annotations

import json
import os
import tempfile
import warnings

from .. import common

TECHNIQUE = ("TLA+ specification of the device registry and of the configuration it generates (Device.tla), exhaustively checked with TLC on a "
             "small instance; behaviours simulated by TLC replayed on real QuantumDevice objects")
NOTE = ("Replay: six elements of four kinds, three edges, every parameter, four values each, behaviours of 40 steps. "
        "Values of configurations generated earlier are compared again at the end.")
Q = 1e-9


def values(p):
    """Four values for a parameter (index 0: the one it gets when the instrument is made)."""
    import numpy as np
    from quantify_scheduler.enums import TimeRef, TimeSource
    sub, name = p.split(".")
    if sub == "ports":
        return ["a:x", "b:y", "q0:mw", "c:z"]
    if sub == "clock_freqs":
        return [4e9, 5.1e9, 200e6, 7.25e9]
    if name == "pulse_type":
        return ["SquarePulse"] * 4
    if name == "pulse_shape":
        return ["SkewedHermitePulse", "GaussPulse", "SkewedHermitePulse", "GaussPulse"]
    if name == "acq_weight_type":
        return ["SSB", "Numerical", "SSB", "Numerical"]
    if name == "acq_channel":
        return [0, 1, "ch", 7]
    if name == "reset_clock_phase":
        return [True, False, True, False]
    if name.startswith("acq_weights_") and name[-1] in "ab":
        return [np.array([]), np.array([0.1, 1 / 3]), np.array([1e-7]), np.array([1.0, -0.5, 0.25])]
    if name == "acq_weights_sampling_rate":
        return [1e9, 5e8, 2e9, 1.5e9]
    if name == "num_points":
        return [1, 2, 3, 10]
    if name == "time_source":
        return [TimeSource.FIRST, TimeSource.LAST, TimeSource.SECOND, TimeSource.LAST]
    if name == "time_ref":
        return [TimeRef.START, TimeRef.END, TimeRef.FIRST, TimeRef.START]
    if name == "acq_rotation":
        return [0, 90, 123.5, 359]
    if name in ("parent", "child", "acq_threshold"):
        return [0, 12.5, 90, 33]
    if "duration" in name or name in ("integration_time", "acq_delay", "time_grid"):
        return [20e-9, 40e-9, 1.2e-6, 300e-9]
    if name == "reference_magnitude":
        return [None, ("dBm", -10), ("V", 0.5), ("A", 0.001)]
    if name == "sampling_rate":
        return [1e9, 2e9, 5e8, 1.8e9]
    return [0.1, 0.2, 0.3, 0.45]


def real_name(i, name):
    if name in ("parent", "child"):
        return i.split("_")[name == "child"] + "_phase_correction"
    return name


KINDS = {"q0": "transmon", "q1": "transmon", "s0": "spin", "s1": "spin", "c0": "sensor", "n0": "nv"}


def make(i, pars):
    from quantify_scheduler.device_under_test.composite_square_edge import CompositeSquareEdge
    from quantify_scheduler.device_under_test.nv_element import BasicElectronicNVElement
    from quantify_scheduler.device_under_test.spin_edge import SpinEdge
    from quantify_scheduler.device_under_test.spin_element import BasicSpinElement, ChargeSensor
    from quantify_scheduler.device_under_test.transmon_element import BasicTransmonElement
    if "_" in i:
        inst = (SpinEdge if i[0] == "s" else CompositeSquareEdge)(*i.split("_"))
    else:
        inst = {"transmon": BasicTransmonElement, "spin": BasicSpinElement, "sensor": ChargeSensor,
                "nv": BasicElectronicNVElement}[KINDS[i]](i)
    for p in pars:
        assign(inst, i, p, 0)
    return inst


def assign(inst, i, p, v):
    sub, name = p.split(".")
    val = values(p)[v]
    sm = inst.submodules[sub]
    if name == "reference_magnitude":
        rm = sm.submodules["reference_magnitude"]
        if val is None:
            for x in rm.parameters.values():
                x(float("nan"))
        else:
            {"dBm": rm.dBm, "V": rm.V, "A": rm.A}[val[0]](val[1])
    else:
        sm.parameters[real_name(i, name)](val)


def same(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def value_ok(exp, got):
    """exp: ["v", param, index] or ["s", text]."""
    if exp[0] == "s":
        return got is None if exp[1] == "None" else str(got) == exp[1]
    w = values(exp[1])[exp[2]]
    if exp[1].endswith("reference_magnitude"):
        if w is None:
            return got is None
        return got is not None and (got.unit, got.value) == w
    return same(w, got)


# deviations of the code that are known (KNOWN_FINDINGS.txt): seen in this behaviour
SEEN = set()


def compare_ops(exp, got):
    if {o["o"] for o in exp} != set(got):
        return f"operations {sorted(got)}"
    for o in exp:
        g = got[o["o"]]
        f = getattr(g.factory_func, "__name__", str(g.factory_func)).split(".")[-1]
        if f != o["f"]:
            return f"{o['o']}: factory {f}"
        if set(g.gate_info_factory_kwargs or []) != set(o["info"]):
            return f"{o['o']}: gate info {g.gate_info_factory_kwargs}"
        if set(g.factory_kwargs) != {k.removesuffix("[]") for k, _ in o["kw"]}:
            return f"{o['o']}: arguments {sorted(g.factory_kwargs)}"
        for k, srcs in o["kw"]:
            x = g.factory_kwargs[k.removesuffix("[]")]
            x = list(x) if k.endswith("[]") else [x]
            if (o["o"], k, srcs, x) == ("pulse_compensation", "clock", [["s", "n0.spec"]], ["n0.f_larmor"]):
                SEEN.add("nv-compensation-clock")
                continue
            if len(x) != len(srcs) or not all(value_ok(e, y) for e, y in zip(srcs, x)):
                return f"{o['o']}: {k} is {x}, expected {srcs}"
    return None


def compare(exp, cfg):
    d = cfg.device_compilation_config
    if d.scheduling_strategy != exp["strategy"]:
        return f"strategy {d.scheduling_strategy}"
    if cfg.keep_original_schedule != exp["keep"]:
        return f"keep_original_schedule {cfg.keep_original_schedule}"
    if set(d.elements) != {e for e, _ in exp["elements"]} or set(d.edges) != {e for e, _ in exp["edges"]}:
        return f"contains {sorted(d.elements)} {sorted(d.edges)}"
    want = {c: values(p)[v] for cl in exp["clocks"] for c, p, v in cl}
    if dict(d.clocks) != want:
        return f"clocks {d.clocks}, expected {want}"
    for part, src in ((exp["elements"], d.elements), (exp["edges"], d.edges)):
        for e, ops in part:
            bad = compare_ops(ops, src[e])
            if bad:
                return f"{e}.{bad}"
    return None


_PARS = {}


def pars():
    """The parameters of each instrument, as the specification has them (p of P(p) in Device.tla)."""
    return _PARS


def reload_known(qd, inst, pars, mag, strategy, keep):
    """What is known to be lost when a device is written and read back; the history goes on with the values it should have."""
    for i in [*qd.elements(), *qd.edges()]:
        for p in pars[i]:
            if p.endswith("reference_magnitude") and values(p)[mag.get((i, p), 0)] is not None:
                rm = inst[i].submodules[p.split(".")[0]].submodules["reference_magnitude"]
                if all(x() != x() for x in (rm.dBm, rm.V, rm.A)):
                    SEEN.add("reload-reference-magnitude")
                    assign(inst[i], i, p, mag[(i, p)])
    if qd.scheduling_strategy() != strategy and qd.scheduling_strategy() == "asap":
        SEEN.add("reload-options")
        qd.scheduling_strategy(strategy)
    if qd.keep_original_schedule() != keep and qd.keep_original_schedule() is True:
        SEEN.add("reload-options")
        qd.keep_original_schedule(keep)


KNOWN = {"nv-compensation-clock": "configuration", "reload-reference-magnitude": "configuration", "reload-options": "configuration"}


def replay_all(h):
    """(violation or None, known deviations seen)."""
    SEEN.clear()
    bad = replay_one(h)
    return bad, sorted(SEEN)


def report(ctx, tr, results, prefix=""):
    for h, (bad, seen) in zip(tr, results):
        for key in seen:
            ctx.violate(prefix + KNOWN[key], f"known deviation {key}", replay={"device": h}, key=key)
        if bad:
            ctx.violate(prefix + bad[0], bad[1], replay={"device": h})


def replay_one(h):
    import quantify_scheduler
    from qcodes.instrument import Instrument
    from quantify_scheduler import QuantumDevice
    warnings.simplefilter("ignore")
    Instrument.close_all()
    P = h[0]["pars"]
    inst = {i: make(i, P[i]) for i in P}
    qd = QuantumDevice("qd")
    qd.cfg_sched_repetitions(1)
    kept, mag, strategy, keep = [], {}, qd.scheduling_strategy(), qd.keep_original_schedule()
    try:
        for k, st in enumerate(h):
            a, do, msg = st["arg"], st["do"], ""
            try:
                if do == "add_element":
                    qd.add_element(inst[a[0]])
                elif do == "add_edge":
                    qd.add_edge(inst[a[0]])
                elif do == "add_element_wrong":
                    qd.add_element(inst[a[0]])
                elif do == "add_edge_wrong":
                    qd.add_edge(inst[a[0]])
                elif do == "remove_element":
                    qd.remove_element(a[0])
                elif do == "remove_edge":
                    qd.remove_edge(a[0])
                elif do == "get_element":
                    assert qd.get_element(a[0]) is inst[a[0]], "another element"
                elif do == "get_edge":
                    assert qd.get_edge(a[0]) is inst[a[0]], "another edge"
                elif do == "set":
                    assign(inst[a[0]], *a)
                    mag[(a[0], a[1])] = a[2]
                elif do == "strategy":
                    qd.scheduling_strategy(a[0])
                    strategy = a[0]
                elif do == "keep":
                    qd.keep_original_schedule(a[0])
                    keep = a[0]
                elif do == "reps":
                    qd.cfg_sched_repetitions(a[0])
                elif do == "renew":
                    inst[a[0]].close()
                    inst[a[0]] = make(a[0], P[a[0]])
                    mag = {x: v for x, v in mag.items() if x[0] != a[0]}
                elif do == "generate":
                    cfg = qd.generate_compilation_config()
                    bad = compare(st["cfg"], cfg)
                    if bad:
                        return "configuration", f"step {k}: {bad}"
                    if cfg.hardware_compilation_config is not None:
                        return "configuration", f"step {k}: hardware configuration"
                    kept.append((k, st["cfg"], cfg))
                elif do == "reload":
                    text = qd.to_json()
                    way = ("text", "yaml", "file", "dict")[k % 4]
                    with tempfile.TemporaryDirectory(prefix="p19-") as tmp:
                        if way == "yaml":
                            qd.to_yaml_file(tmp, add_timestamp=False)
                        elif way == "file":
                            qd.to_json_file(tmp, add_timestamp=False)
                        data = qd.to_dict()
                        Instrument.close_all()
                        if way == "yaml":
                            qd = QuantumDevice.from_yaml_file(os.path.join(tmp, "qd.yaml"))
                        elif way == "file":
                            qd = QuantumDevice.from_json_file(os.path.join(tmp, "qd.json"))
                        else:
                            qd = QuantumDevice.from_dict(data) if way == "dict" else QuantumDevice.from_json(text)
                    for i in P:
                        inst[i] = (qd.get_element(i) if i in qd.elements() else qd.get_edge(i)
                                   if i in qd.edges() else make(i, P[i]))
                    reload_known(qd, inst, P, mag, strategy, keep)
                    mag = {x: v for x, v in mag.items() if x[0] in [*qd.elements(), *qd.edges()]}
                    if json.loads(qd.to_json()) != json.loads(text):
                        return "reload-text", f"step {k}: another text"
                res = "ok"
            except Exception as e:  # noqa: BLE001
                res, msg = type(e).__name__, str(e)[:200]
            where = f"step {k} {do} {a}"
            if res != st["res"]:
                return "result", f"{where}: {res} {msg}, expected {st['res']}"
            if list(qd.elements()) != st["els"] or list(qd.edges()) != st["eds"]:
                return "registry", f"{where}: {qd.elements()} {qd.edges()}, expected {st['els']} {st['eds']}"
            if qd.cfg_sched_repetitions() != st["reps"]:
                return "repetitions", f"{where}: {qd.cfg_sched_repetitions()}"
        for k, exp, cfg in kept:
            bad = compare(exp, cfg)
            if bad:
                return "configuration-changed", f"the configuration generated in step {k} afterwards: {bad}"
    finally:
        Instrument.close_all()
    return None


def run(ctx):
    common.explore(ctx, "Device", timeout=300)
    n = ctx.n(480, 4000)
    tr = common.simulate(ctx, "Device", n, 40)
    report(ctx, tr, common.pmap(replay_all, tr))
    ctx.traces += len(tr)
    ctx.notes["rule"] = "random histories of adding, removing, reconfiguring, generating and reloading"
    ctx.samples = [tr[0][:6]]
    ctx.assumptions = ["instruments are made before they are registered"]


def replay(ctx, path):
    r = json.load(open(path))["replay"]
    report(ctx, [r["device"]], [replay_all(r["device"])])
