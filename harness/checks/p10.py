"""P10: what is written can be read back."""
from __future__ import annotations

import copy
import json
import os
import pickle
import random
import shutil
import tempfile
import warnings

from .. import anyop, common
from . import p09, p19

TECHNIQUE = ("TLA+ specification of objects, documents and contents (writing, reading, copying, extending, compiling); TLC-generated histories "
             "are replayed on real schedules, operations, configurations and compiled schedules, and TLC judges the recorded fingerprints, "
             "texts, comparisons and compilation results")


# ------------------------------------------------------------------------ worlds
def free(rng, name, depth=2):
    """A schedule with operations of any kind, nested in any way (in general it cannot be compiled)."""
    from quantify_scheduler.operations.control_flow_library import ConditionalOperation, LoopOperation
    from quantify_scheduler.operations.pulse_compensation_library import PulseCompensation
    from quantify_scheduler.backends.qblox.operations import long_ramp_pulse, long_square_pulse, staircase_pulse
    from quantify_scheduler.resources import BasebandClockResource, ClockResource, DigitalClockResource
    from quantify_scheduler.schedules.schedule import Schedule

    num = anyop.number

    def body(d):
        return free(rng, f"{name}n{rng.randrange(100)}", d) if rng.random() < 0.5 else anyop.make(rng)

    s = Schedule(name, repetitions=num(rng, rng.choice([1, 3, 1000])))
    for r in (ClockResource(name="q0.01", freq=num(rng, 5e9)), ClockResource(name="q0.ro", freq=123456789.25, phase=num(rng, rng.choice([0, 90]))),
              BasebandClockResource("x.baseband"), DigitalClockResource("dig")):
        if rng.random() < 0.4:
            s.add_resource(r)
    for i in range(rng.choice([0, 1, 2, 3, 4]) if depth < 2 else rng.choice([2, 4, 6])):
        r = rng.random()
        kw = {}
        if depth and r < 0.15:
            x = free(rng, f"{name}s{i}", depth - 1)
        elif depth and r < 0.3:
            x = LoopOperation(body=body(depth - 1), repetitions=num(rng, rng.choice([2, 10])), t0=rng.choice([0, 8e-9]))
        elif depth and r < 0.4:
            x = ConditionalOperation(body=body(depth - 1), qubit_name=rng.choice(["q0", "lab"]), t0=rng.choice([0, 8e-9]),
                                     hardware_buffer_time=num(rng, rng.choice([4e-9, 8e-9])))
        elif depth and r < 0.5:
            x = PulseCompensation(body=body(depth - 1), **rng.choice([{"qubits": "q0"}, {"qubits": ["q0", "q1"]},
                                  {"max_compensation_amp": {"q0:fl": num(rng, 0.5), "q1:fl": 0.25}, "time_grid": num(rng, 4e-9), "sampling_rate": 1e9}]))
        elif r < 0.55:
            x = rng.choice([lambda: long_square_pulse(amp=num(rng, 0.25), duration=2e-6, port="q0:mw", clock="q0.01"),
                            lambda: long_ramp_pulse(amp=num(rng, 0.25), duration=4e-6, port="q0:mw", offset=0.1),
                            lambda: staircase_pulse(start_amp=0.1, final_amp=0.5, num_steps=4, duration=4e-6, port="q0:mw")])()
        else:
            x = anyop.make(rng)
        if s.schedulables and rng.random() < 0.5:
            kw["ref_op"] = rng.choice(list(s.schedulables))
        s.add(x, rel_time=num(rng, rng.choice([0, 1e-7, -2e-8, 1 / 3e8])), ref_pt=rng.choice([None, "start", "center", "end"]),
              ref_pt_new=rng.choice([None, "start", "center", "end"]), label=f"l{i}", **kw)
    return s


class World:
    def __init__(self, seed):
        from quantify_scheduler import Schedule, SerialCompiler

        self.rng = rng = random.Random(seed)
        self.dir = tempfile.mkdtemp(prefix="p10-")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = p09.World(seed)
            self.kind = w.kind
            self.compiler = SerialCompiler("c")
            self.config = w.kept[0, 0, 0]
            self.fixed = copy.deepcopy(w.sch[0])
            op = anyop.make(rng)
            if rng.random() < 0.3:
                op = next(iter(free(rng, "one").operations.values()), op)
            try:
                done = self.compiler.compile(copy.deepcopy(w.sch[0]), self.config)
            except Exception:  # noqa: BLE001 (this world has no compiled schedule)
                done = Schedule("not compiled")
            self.slots = [w.sch[0], w.sch[2], free(rng, "free"), op, copy.deepcopy(self.config.hardware_compilation_config), done]
            self.origin = [1, 2, 3, 4, 5, 6]
            self.grown = [0] * 6
        self.docs = {}

    # ------------------------------------------------------------------ observing
    @staticmethod
    def is_config(x):
        return hasattr(x, "model_dump_json")

    def text(self, x):
        from quantify_scheduler.json_utils import SchedulerJSONEncoder

        if self.is_config(x):
            return x.model_dump_json()
        return x.to_json() if hasattr(x, "to_json") else json.dumps(x, cls=SchedulerJSONEncoder)

    def content(self, x):
        if hasattr(x, "compiled_instructions"):
            # (the settings within the compiled instructions are read as dictionaries, so they are compared as they are written)
            x = x.data
            return [p09.canon({k: v for k, v in x.items() if k not in ("compiled_instructions", "compiled_acquisition_metadata")}),
                    p09.canon({k: v.get("acq_channels_data") for k, v in x["compiled_instructions"].items()}),
                    list(x["schedulables"])]
        out = p09.canon(x)
        if hasattr(x, "schedulables"):
            out = [out, list(x.schedulables), {k: [v.name, canon_duration(v)] for k, v in x.operations.items()}]
        elif not self.is_config(x):
            out = [out, x.name, canon_duration(x)]
        return out

    def fp(self, x):
        import hashlib

        return hashlib.sha1(json.dumps(self.content(x), default=str).encode()).hexdigest()[:16]

    def look(self, o):
        import hashlib

        return {"fp": [self.fp(x) for x in self.slots],
                "txt": [hashlib.sha1(self.text(x).encode()).hexdigest()[:16] for x in self.slots],
                "eq": [self.same(self.slots[o], x) for x in self.slots] if o >= 0 else []}

    @staticmethod
    def same(a, b):
        if type(a) is not type(b):
            return 0
        if hasattr(a, "compiled_instructions"):
            return 1 if (a.name, list(a.schedulables), a.operations) == (b.name, list(b.schedulables), b.operations) else 0
        if World.is_config(a):  # which of the fields have been set explicitly is part of the comparison of pydantic models
            a, b = a.model_dump(), b.model_dump()
        try:
            return 1 if a == b else 0
        except Exception:  # noqa: BLE001
            return 2

    # ---------------------------------------------------------------------- steps
    def write(self, x, d, via):
        from quantify_scheduler.json_utils import SchedulerJSONDecoder, SchedulerJSONEncoder

        if via == "pickle":
            return lambda s=pickle.dumps(x): pickle.loads(s)
        cls = type(x)
        if self.is_config(x):
            if via == "dict":
                return lambda s=x.model_dump_json(): cls.model_validate(json.loads(s))
            return lambda s=x.model_dump_json(): cls.model_validate_json(s)
        if not hasattr(x, "to_json") and via != "nested":
            return lambda s=self.text(x): json.loads(s, cls=SchedulerJSONDecoder)
        if via in ("file", "stamped"):
            path = os.path.join(self.dir, f"d{d}{via}")
            os.makedirs(path, exist_ok=True)
            f = x.to_json_file(path, add_timestamp=via == "stamped")
            return lambda: cls.from_json_file(f)
        if via == "dict":
            return lambda s=x.to_dict(): cls.from_dict(s)
        if via == "nested":
            s = json.dumps({"a": [0, {"x": x}], "b": x}, cls=SchedulerJSONEncoder)
            return lambda: json.loads(s, cls=SchedulerJSONDecoder)["a"][1]["x"]
        return lambda s=x.to_json(): cls.from_json(s)

    def compile(self, o):
        x, origin = self.slots[o], self.origin[o]
        if origin == 3:
            from quantify_scheduler.compilation import _determine_absolute_timing

            try:
                y = _determine_absolute_timing(copy.deepcopy(x), "ideal")
                return p09.fp([f"{v['abs_time']:.9g}" for v in y.schedulables.values()])
            except Exception as e:  # noqa: BLE001
                return "error " + type(e).__name__
        if origin == 5:
            cfg = self.config.model_copy(update={"hardware_compilation_config": x})
            return p09.result(lambda: self.compiler.compile(self.fixed, cfg))
        return p09.result(lambda: self.compiler.compile(x, self.config))

    def grow(self, o):
        from quantify_scheduler.operations.pulse_library import IdlePulse

        g = self.grown[o]
        self.slots[o].add(IdlePulse(20e-9 * (g + 1)), label=f"grown{g}", rel_time=4e-9 * g)
        self.grown[o] += 1

    def step(self, e):
        do, o, d = e["do"], e["o"] - 1, e["d"] - 1
        if do == "write":
            self.docs[d] = (self.origin[o], self.grown[o], self.write(self.slots[o], d, e["via"]))
        elif do == "read":
            self.origin[o], self.grown[o], read = self.docs[d]
            self.slots[o] = read()
        elif do == "copy":
            self.origin[o], self.grown[o] = self.origin[d], self.grown[d]
            self.slots[o] = copy.deepcopy(self.slots[d]) if e["via"] == "deep" else copy.copy(self.slots[d])
        elif do == "grow":
            self.grow(o)
        elif do == "compile":
            return self.compile(o)
        return ""

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def canon_duration(x):
    try:
        return f"{x.duration:.9g}"
    except Exception as e:  # noqa: BLE001 (gates have no duration)
        return type(e).__name__


def replay_one(item):
    seed, h = item
    w = World(seed)
    out = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for e in [{"do": "look", "o": 0, "d": 0, "via": ""}, *h]:
                try:
                    r = w.step(e)
                    out.append({**e, "res": r, "exc": "", **w.look(e["o"] - 1)})
                except Exception as ex:  # noqa: BLE001
                    out.append({**out[-1], **e, "res": "", "exc": repr(ex)[:200], "eq": []} if out else
                               {**e, "res": "", "exc": repr(ex)[:200], "eq": [], "fp": ["?"] * 6, "txt": ["?"] * 6})
                    break
    finally:
        w.close()
    return w.kind, out


def judge(ctx, items):
    res = common.pmap(replay_one, items)
    cases = []
    for _, ev in res:
        num = {}

        def no(x):
            return num.setdefault(x, len(num) + 1)

        cases.append([{**e, "res": no(e["res"]), "fp": [no(x) for x in e["fp"]], "txt": [no(x) for x in e["txt"]]} for e in ev])
    for (seed, h), (kind, _), ev, vs in zip(items, res, cases, common.judge(ctx, "StoreTrace", cases)):
        for cl, d in vs:
            if cl != "ok":
                ctx.violate(cl, f"seed {seed} ({kind}): {d}", replay={"seed": seed, "history": h, "ev": ev})
    return res


def run(ctx):
    p09.devices()
    common.explore(ctx, "Store", timeout=300)
    n = ctx.n(240, 2400)
    hs = common.simulate(ctx, "Store", n, 24)
    items = [(ctx.seed * 1_000_003 + i, h) for i, h in enumerate(hs[:n])]
    res = judge(ctx, items)
    # devices: behaviours of Device, with reloading in every way
    tr = common.simulate(ctx, "Device", ctx.n(160, 1600), 40, salt=1)
    p19.report(ctx, tr, [(bad, [k for k in seen if k.startswith("reload")]) for bad, seen in common.pmap(p19.replay_all, tr)], "device-")
    cs = [e["res"] for _, ev in res for e in ev if e["do"] == "compile"]
    ctx.notes["steps"] = {k: sum(e["do"] == k for _, ev in res for e in ev) for k in ("write", "read", "copy", "grow", "compile")}
    ctx.notes["compilations"] = {"all": len(cs), "rejected": sum(c.startswith("error") for c in cs), "distinct": len(set(cs))}
    ctx.samples = [hs[0][:6]]
    ctx.notes["rule"] = "random histories of writing, reading, copying, extending and compiling, on random schedules, operations and configurations"


def replay(ctx, path):
    r = json.load(open(path))["replay"]
    if "device" in r:
        p19.replay(ctx, path)
        return
    p09.devices()
    judge(ctx, [(r["seed"], r["history"])])
