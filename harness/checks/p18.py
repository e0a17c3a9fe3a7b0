"""P18: behaviours of spec/Coordinator.tla and spec/GenericComponent.tla replayed on the real
InstrumentCoordinator with recording components, and on the real generic component."""
from __future__ import annotations

import json
import warnings

from harness import common

TECHNIQUE = "TLA+ model of the coordinator, checked exhaustively by TLC; its behaviours replayed on the real objects"
NOTE = ("Exhaustive for two components and schedules of up to two instruments in the model; simulated behaviours of 24 steps "
        "with three components are replayed on the real coordinator with recording components.")

LOG = []


def _classes():
    import numpy as np
    import xarray as xr
    from qcodes.instrument import Instrument
    from quantify_scheduler.instrument_coordinator.components.base import InstrumentCoordinatorComponentBase

    class Comp(InstrumentCoordinatorComponentBase):
        """Records its calls; what it does is told by the argument it was prepared with."""

        def __init__(self, instrument):
            super().__init__(instrument)
            self.me = instrument.name
            self.reset()

        def reset(self):
            self.arg, self.run = "none", False

        @property
        def is_running(self):
            return self.run

        def prepare(self, program):
            LOG.append([self.me, "prepare", program["arg"]])
            self.arg = program["arg"]
            if self.arg == "bad":
                raise RuntimeError("bad instructions")

        def start(self):
            LOG.append([self.me, "start", ""])
            self.run = True

        def stop(self):
            LOG.append([self.me, "stop", ""])
            if self.arg == "noattr":
                raise AttributeError("no such attribute")
            self.run = False

        def wait_done(self, timeout_sec=10):
            LOG.append([self.me, "wait", str(timeout_sec)])
            self.run = False

        def get_hardware_log(self, compiled_schedule):
            LOG.append([self.me, "log", ""])
            return None if self.arg == "nodata" else {"arg": self.arg, "sched": compiled_schedule}

        def retrieve_acquisition(self):
            LOG.append([self.me, "retrieve", ""])
            if self.arg == "nodata":
                return None
            ds = xr.Dataset()
            chans = {}
            for c, i, v in DATA.get(self.arg, []):
                chans.setdefault(c, {})[i] = v
            for c, cells in chans.items():
                ix = sorted(cells)
                val = [complex(cells[i], cells[i] + 0.5) for i in ix]
                dim = f"acq_index_{c}"
                if c == "2":
                    ds[int(c)] = xr.DataArray(np.array([val, [10 * x for x in val]]), dims=["repetition", dim],
                                              coords={dim: ix})
                else:
                    ds[int(c)] = xr.DataArray(np.array(val), dims=[dim], coords={dim: ix})
            return ds

    return Comp, Instrument


DATA = {"x0": [("0", 0, 1)], "x1": [("0", 1, 2), ("0", 2, 3)], "x2": [("0", 0, 7), ("0", 1, 5)],
        "y0": [("1", 0, 4), ("1", 3, 6)], "xy": [("0", 3, 8), ("1", 1, 9)],
        "r0": [("2", 0, 1), ("2", 1, 2)], "r1": [("2", 2, 3), ("2", 3, 4)], "r2": [("2", 1, 5), ("2", 3, 6)]}


def _cells(ds):
    """All values of a dataset that are there: {(channel, index, value)}; checks the repetitions."""
    import numpy as np
    out = set()
    for ch in ds.data_vars:
        da = ds[ch]
        dim = f"acq_index_{ch}"
        if dim not in da.dims:
            return f"dimensions of {ch}: {da.dims}"
        two = "repetition" in da.dims
        da = da.transpose("repetition", dim) if two else da
        for k, ix in enumerate(np.asarray(da[dim])):
            v = np.atleast_1d(da.values[:, k] if two else da.values[k])
            if np.all(np.isnan(v)):
                continue
            r = v[0].real
            if v[0] != complex(r, r + 0.5) or (two and (len(v) != 2 or v[1] != 10 * v[0])):
                return f"values of {ch} at {ix}: {v}"
            out.add((str(ch), int(ix), int(r)))
    return out


_W = {}


def _world():
    if not _W:
        Comp, Instrument = _classes()
        _W["objs"] = {n: Comp(Instrument(n)) for n in ("a", "b", "c", "z")}
        _W["other"] = Instrument("other")
        _W["k"] = 0
        from quantify_scheduler.schedules.schedule import Schedule
        _W["uncompiled"] = Schedule("uncompiled")
    return _W


def _sched(s):
    from quantify_scheduler.schedules.schedule import CompiledSchedule, Schedule
    cs = CompiledSchedule(Schedule("s"))
    cs["compiled_instructions"] = {n: {"arg": a} for n, a in s}
    return cs


def replay_one(item):
    """Replay one behaviour; returns None or (clause, detail)."""
    import copy
    from quantify_scheduler.instrument_coordinator.instrument_coordinator import InstrumentCoordinator
    w = _world()
    w["k"] += 1
    ic = InstrumentCoordinator(f"coord{w['k']}", add_default_generic_icc=False)
    objs = w["objs"]
    for o in objs.values():
        o.reset()
    scheds = {}
    try:
        lastobj = None
        for k, st in enumerate(item):
            LOG.clear()
            do, arg, val = st["do"], st["arg"], None
            given = before = None
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if do == "add":
                        ic.add_component(objs[arg])
                    elif do == "addother":
                        ic.add_component(w["other"])
                    elif do == "remove":
                        ic.remove_component("ic_" + arg)
                    elif do == "get":
                        o = ic.get_component("ic_" + arg)
                        val = arg if o is objs[arg] else repr(o)
                    elif do == "getother":
                        ic.get_component("a")       # the instrument, not the component
                    elif do == "timeout":
                        ic.timeout(arg)
                    elif do == "prepare":
                        key = json.dumps(arg)
                        # the same compiled schedule object is prepared again
                        given = scheds.setdefault(key, _sched(arg))
                        before = copy.deepcopy(given["compiled_instructions"])
                        ic.prepare(given)
                    elif do == "prepareother":
                        ic.prepare(w["uncompiled"])
                    elif do == "start":
                        ic.start()
                    elif do == "stop":
                        ic.stop(allow_failure=arg)
                    elif do == "wait":
                        ic.wait_done(arg)
                    elif do == "retrieve":
                        val = _cells(ic.retrieve_acquisition())
                    elif do == "logs":
                        logs = ic.retrieve_hardware_logs()
                        val = {(n, d["arg"]) for n, d in logs.items()}
                        if any(d["sched"] is not lastobj for d in logs.values()):
                            return "logs", f"step {k}: logs of another schedule"
                    elif do == "running":
                        val = ic.is_running
                    elif do == "last":
                        if ic.last_schedule is not lastobj:
                            return "last-schedule", f"step {k}: not the schedule last given"
                res = "ok"
            except Exception as e:  # noqa: BLE001
                res = type(e).__name__
                msg = str(e)[:200]
            calls = [list(c) for c in LOG]
            where = f"step {k} {do} {arg}"
            if res != st["res"]:
                return f"{do}-result", f"{where}: {res}{' ' + msg if res != 'ok' else ''}, expected {st['res']}"
            failed = do == "retrieve" and res != "ok"
            if not failed and calls != st["calls"]:
                return f"{do}-calls", f"{where}: calls {calls}, expected {st['calls']}"
            if failed:
                # which components were asked before the failure is not prescribed
                x = [c for c in calls if c not in st["calls"]]
                if x:
                    return f"{do}-calls", f"{where}: calls {x}"
            if res == "ok" and do in ("retrieve", "logs", "running", "get"):
                exp = st["val"]
                if do in ("retrieve", "logs"):
                    exp = {tuple(x) for x in exp}
                if val != exp:
                    return f"{do}-value", f"{where}: {val}, expected {exp}"
            if ic.components() != ["ic_" + n for n in st["comps"]]:
                return "components", f"{where}: components {ic.components()}, expected {st['comps']}"
            if given is not None:
                if given["compiled_instructions"] != before:
                    return "prepare-pure", f"{where}: the compiled schedule was changed"
                if res in ("ok", "RuntimeError"):
                    lastobj = given
        return None
    finally:
        ic.close()


def run(ctx):
    common.explore(ctx, "Coordinator", timeout=300)
    n = ctx.n(4000, 60000)
    seen = {}
    for part in range(max(1, n // 8000)):
        tr = common.simulate(ctx, "Coordinator", min(n, 8000), 24, salt=part)
        for h in tr:
            for s in h:
                seen[s["do"], s["res"]] = seen.get((s["do"], s["res"]), 0) + 1
        for h, bad in zip(tr, common.pmap(replay_one, tr)):
            if bad:
                ctx.violate(bad[0], bad[1], replay={"coordinator": h})
        ctx.traces += len(tr)
        ctx.samples += [[(s["do"], s["arg"], s["res"]) for s in tr[0]]]
        generic(ctx, part)
    ctx.notes["steps"] = {f"{a}/{b}": c for (a, b), c in sorted(seen.items())}


_G = {}


def _gworld():
    if not _G:
        from qcodes.instrument import Instrument, InstrumentBase, InstrumentChannel
        from quantify_scheduler.instrument_coordinator.components.generic import GenericInstrumentCoordinatorComponent

        def param(inst, key):
            name = key.split(".")[-1]

            def set_cmd(v, key=key):
                LOG.append([key, v])
                _G["val"][key] = v
            inst.add_parameter(name, set_cmd=set_cmd, get_cmd=lambda key=key: _G["val"][key], initial_cache_value=None)

        g1, g2 = Instrument("g1"), Instrument("g2")
        sub = InstrumentChannel(g1, "sub")
        g1.add_submodule("sub", sub)
        deep = InstrumentChannel(sub, "deep")
        sub.add_submodule("deep", deep)
        owner = {"g1.p": g1, "g1.q": g1, "g2.p": g2, "g1.sub.p": sub, "g1.sub.deep.p": deep}
        for key, inst in owner.items():
            param(inst, key)
        g1.f = lambda v: LOG.append(["g1.f", v])
        g2.const = 5
        _G.update(comp=GenericInstrumentCoordinatorComponent("gen"), val={}, keep=(g1, g2),
                  par={k: getattr(o, k.split(".")[-1]) for k, o in owner.items()})
    return _G


def generic_one(item):
    g = _gworld()
    comp = g["comp"]
    comp.force_set_parameters(False)
    g["val"].update({k: 0 for k in g["par"]})
    for p in g["par"].values():
        p.cache.invalidate()
        p.cache._raw_value = p.cache._value = None
    for k, st in enumerate(item):
        LOG.clear()
        msg = ""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if st["do"] == "prepare":
                    comp.prepare({a: b for a, b in st["arg"]})
                elif st["do"] == "force":
                    comp.force_set_parameters(st["arg"])
                elif st["do"] == "knob":
                    g["val"][st["arg"][0]] = st["arg"][1]
                elif st["do"] == "set":
                    g["par"][st["arg"][0]](st["arg"][1])
            res = "ok"
        except Exception as e:  # noqa: BLE001
            res, msg = type(e).__name__, str(e)[:150]
        where = f"step {k} {st['do']} {st['arg']}"
        if res != st["res"]:
            return "generic-result", f"{where}: {res} {msg}, expected {st['res']}"
        if [list(x) for x in LOG] != st["set"]:
            return "generic-set", f"{where}: set {LOG}, expected {st['set']}"
        if g["val"] != st["val"]:
            return "generic-value", f"{where}: values {g['val']}, expected {st['val']}"
    return None


def generic(ctx, part):
    if part == 0:
        common.explore(ctx, "GenericComponent", timeout=300)
    n = ctx.n(1500, 6000)
    tr = common.simulate(ctx, "GenericComponent", n, 16, salt=100 + part)
    for h, bad in zip(tr, common.pmap(generic_one, tr)):
        if bad:
            ctx.violate(bad[0], bad[1], replay={"generic": h})
    ctx.traces += len(tr)


def replay(ctx, path):
    r = json.load(open(path))["replay"]
    if "coordinator" in r:
        bad = replay_one(r["coordinator"])
        if bad:
            ctx.violate(bad[0], bad[1], replay=r)
    if "generic" in r:
        bad = generic_one(r["generic"])
        if bad:
            ctx.violate(bad[0], bad[1], replay=r)
