"""P20: behaviours of spec/Gettable.tla replayed on real gettables with stand-in instruments."""
from __future__ import annotations

import copy
import json
import math
import warnings

from harness import common

TECHNIQUE = ("TLA+ specification of gettables that share instruments (what is initialised when, what runs, which values are returned), "
             "checked by TLC; its behaviours are replayed on real ScheduleGettable objects, coordinators and a compilation backend")
NOTE = "instruments are stand-ins that return the data of the program they were prepared with; reports and profiles are not judged"
LOG, FAIL = [], ["none"]
NOPROG = {"g": 0, "a": 0, "b": 0, "reps": 0}
PROTOCOL = {"average": "SSBIntegrationComplex", "append": "SSBIntegrationComplex", "trace": "Trace", "thresholded": "ThresholdedAcquisition",
            "counts": "TriggerCount"}
SHAPES = []


def program(schedule):
    """The arguments of the schedule function, as they can be seen in the schedule."""
    d = [round(schedule.operations[s["operation_id"]].duration * 1e9) for s in schedule.schedulables.values()]
    return {"g": int(schedule.name[1:]), "a": d[0], "b": d[1], "reps": schedule.repetitions}


def compile_to_stub(schedule, config):  # noqa: ARG001
    from quantify_scheduler.schedules.schedule import CompiledSchedule

    schedule["compiled_instructions"] = {"stub": program(schedule)}
    return CompiledSchedule(schedule)


def schedule_function(g):
    def make(a, b, repetitions=1):
        from quantify_scheduler import Schedule
        from quantify_scheduler.operations.pulse_library import IdlePulse

        s = Schedule(f"s{g}", repetitions=repetitions)
        s.add(IdlePulse(a * 1e-9))
        s.add(IdlePulse(b * 1e-9))
        return s

    return make


def value(p, ch, i, r):
    k = (p["a"] * 7 + p["b"] * 5 + p["reps"] * 3 + ch * 2 + i + r * 4) % 9 + 1
    return complex(math.nan, math.nan) if k == 8 else complex(3 * k, -4 * k)


_CONFIG = None


def config():
    """A hardware configuration of a backend of our own."""
    global _CONFIG
    if _CONFIG is None:
        from quantify_scheduler.backends.graph_compilation import SimpleNodeConfig
        from quantify_scheduler.backends.types.common import HardwareCompilationConfig

        class StubHardwareCompilationConfig(HardwareCompilationConfig):
            hardware_description: dict = {}
            hardware_options: dict = {}
            compilation_passes: list[SimpleNodeConfig] = [SimpleNodeConfig(name="stub", compilation_func=compile_to_stub)]

        globals()["StubHardwareCompilationConfig"] = StubHardwareCompilationConfig
        StubHardwareCompilationConfig.__qualname__ = "StubHardwareCompilationConfig"
        _CONFIG = {"config_type": f"{__name__}.StubHardwareCompilationConfig", "hardware_description": {}, "hardware_options": {},
                   "connectivity": {"graph": []}}
    return copy.deepcopy(_CONFIG)


def component():
    import numpy as np
    import xarray as xr
    from qcodes.instrument import Instrument
    from quantify_scheduler.instrument_coordinator.components.base import InstrumentCoordinatorComponentBase

    class Stub(InstrumentCoordinatorComponentBase):
        def __init__(self, instrument):
            super().__init__(instrument)
            self.p = None

        def call(self, op, p=NOPROG):
            LOG.append({"op": op, "p": p})
            if op == "stop" and FAIL[0] == "stop":
                FAIL[0] = "none"
                raise AttributeError("not prepared")
            if op == FAIL[0] or (op == "stop" and FAIL[0] == "last-stop" and len(LOG) > 1):
                FAIL[0] = "none"
                self.p = None if op == "prepare" else self.p
                raise RuntimeError(op)

        is_running = False

        def prepare(self, prog):
            self.call("prepare", prog)
            self.p = prog

        def start(self):
            self.call("start")

        def stop(self):
            self.call("stop")

        def wait_done(self, timeout_sec=10):
            pass

        def get_hardware_log(self, compiled_schedule):  # noqa: ARG002
            return None

        def retrieve_acquisition(self):
            self.call("retrieve")
            if FAIL[0] == "empty" or self.p is None:
                if FAIL[0] == "empty":
                    FAIL[0] = "none"
                return None
            s = SHAPES[self.p["g"] - 1]
            ds = xr.Dataset()
            reps = self.p["reps"] if s["proto"] == "append" else 1
            for c in s["chans"]:
                v = np.array([[value(self.p, c, i, r) for i in range(s["n"])] for r in range(reps)])
                if s["proto"] == "append":
                    dims = ["repetition", f"acq_index_{c}"]
                elif s["proto"] == "trace":
                    dims = [f"acq_index_{c}", f"trace_index_{c}"]
                else:
                    v, dims = v[0], [f"acq_index_{c}"]
                if s["proto"] == "counts":
                    v = np.nan_to_num(v)
                ds[c] = xr.DataArray(v, dims=dims, attrs={"acq_protocol": PROTOCOL[s["proto"]]})
            return ds

    return Stub(Instrument("stub"))


def column_ok(kind, exp, got, proto):
    """One returned array against the values of the specification (<<re, im, missing>>)."""
    if len(exp) != len(got):
        return False
    for (re, im, miss), x in zip(exp, got):
        if miss and proto == "counts":
            ok = x == 0
        elif miss:
            ok = math.isnan(abs(x))
        elif kind == "complex":
            ok = x == complex(re, im)
        elif kind == "re":
            ok = x == re
        elif kind == "im":
            ok = x == im
        elif kind == "abs":
            ok = abs(x - abs(complex(re, im))) < 1e-9
        else:
            ok = abs(x - math.degrees(math.atan2(im, re))) < 1e-9
        if not ok:
            return False
    return True


def data_of(out, shape):
    """The returned arrays, in the order of the columns of the specification."""
    if shape["xr"]:
        import numpy as np

        return [np.asarray(out[c]).reshape(-1) for c in sorted(out.data_vars)]
    return list(out)


def replay_one(h):
    from qcodes.instrument import Instrument
    from qcodes.parameters import ManualParameter
    from quantify_scheduler import InstrumentCoordinator, QuantumDevice
    from quantify_scheduler.gettables import ScheduleGettable
    from quantify_scheduler.gettables_profiled import ProfiledScheduleGettable

    warnings.simplefilter("ignore")
    Instrument.close_all()
    LOG.clear()
    FAIL[0] = "none"
    SHAPES[:] = h[0]["shape"]
    par = [ManualParameter("one", initial_value=1), ManualParameter("two", initial_value=2)]
    ic = InstrumentCoordinator("ic", add_default_generic_icc=False)
    stub = component()
    ic.add_component(stub)
    qds = []
    for n in ("qd", "qd_profiled"):
        qd = QuantumDevice(n)
        qd.hardware_config(config())
        qd.instr_instrument_coordinator(ic.name)
        qd.cfg_sched_repetitions(2)
        qds.append(qd)
    gs = [(ProfiledScheduleGettable if g == 3 else ScheduleGettable)(
        qds[g == 3], schedule_function(g), {"a": par[[1, 2, 1][g - 1] - 1], "b": g}, num_channels=len(s["chans"]),
        real_imag=s["ri"], batched=s["batched"], return_xarray=s["xr"]) for g, s in zip((1, 2, 3), SHAPES)]
    for g, (x, s) in enumerate(zip(gs, SHAPES), 1):
        one, unit, lab = (["I", "Q"], ["V", "V"], ["Voltage I", "Voltage Q"]) if s["ri"] else (["magn", "phase"], ["V", "deg"], ["Magnitude", "Phase"])
        n = len(s["chans"])
        if x.name != one * n or x.unit != unit * n or x.label != [f"{v}{i}" for i in range(n) for v in lab] or x.batched != s["batched"]:
            return "names", f"gettable {g}: {x.name} {x.unit} {x.label}"
    try:
        for k, st in enumerate(h):
            do, g, arg = st["do"], st["g"], st["arg"]
            LOG.clear()
            x, out, msg = gs[g - 1], None, ""
            try:
                if do == "get":
                    out = x() if arg == "call" else x.get()
                elif do == "initialize":
                    x.initialize()
                elif do == "compile":
                    c = x.compile()
                    if c is None or program(c) != st["comp"]:
                        return "compiled-schedule", f"step {k} compile of {g}: returns {c and program(c)}, expected {st['comp']}"
                elif do == "param":
                    par[g - 1](arg if arg else None)
                elif do == "kwarg":
                    x.schedule_kwargs["b"] = arg
                elif do == "reps":
                    for q in qds:
                        q.cfg_sched_repetitions(arg)
                elif do == "always":
                    x.always_initialize = arg
                elif do == "fail":
                    FAIL[0] = arg
                res = "ok"
            except Exception as e:  # noqa: BLE001
                res, msg = type(e).__name__, str(e)[:150]
            where = f"step {k} {do} {g} {arg}"
            if res != st["res"]:
                return "result", f"{where}: {res} {msg}, expected {st['res']}"
            if st["calls"] != LOG:
                return "calls", f"{where}: {LOG}, expected {st['calls']}"
            if st["comp"] != NOPROG and (x.compiled_schedule is None or program(x.compiled_schedule) != st["comp"]):
                return "compiled-schedule", f"{where}: {x.compiled_schedule and program(x.compiled_schedule)}, expected {st['comp']}"
            if out is not None:
                s = SHAPES[g - 1]
                got = data_of(out, s)
                if len(got) != len(st["cols"]):
                    return "number-of-arrays", f"{where}: {len(got)}, expected {len(st['cols'])}"
                src = SHAPES[stub.p["g"] - 1]["proto"]
                for c, v in zip(st["cols"], got):
                    if not column_ok(c["kind"], c["val"], list(v), src):
                        return "data", f"{where}: {c['kind']} of channel {c['ch']} is {list(v)[:6]}, expected {c['val'][:6]}"
    finally:
        gs[2].close()
        Instrument.close_all()
    return None


def run(ctx):
    common.explore(ctx, "Gettable", timeout=400)
    n = ctx.n(800, 8000)
    tr = common.simulate(ctx, "Gettable", n, 40)
    bad = 0
    for h, b in zip(tr, common.pmap(replay_one, tr)):
        if b:
            bad += 1
            ctx.violate(b[0], b[1], replay={"gettable": h})
    ctx.traces += len(tr)
    ctx.notes["gets"] = sum(e["do"] == "get" for h in tr for e in h)
    ctx.notes["failing"] = sum(e["do"] == "get" and e["res"] != "ok" for h in tr for e in h)
    ctx.notes["rule"] = "random histories of changing parameters, options and failures, initialising, compiling and getting"
    ctx.samples = [tr[0][:4]]


def replay(ctx, path):
    r = json.load(open(path))["replay"]
    b = replay_one(r["gettable"])
    if b:
        ctx.violate(b[0], b[1], replay=r)
