"""P22: behaviours of spec/Options.tla (hardware options and the instruments they reach) replayed: every step is
compiled, prepared on a dummy cluster by the real component, and compared with what the specification sets."""
from __future__ import annotations

import json
import random
import warnings
import zlib

from harness import cluster, common, qblox

TECHNIQUE = "TLA+ specification of hardware options, checked exhaustively by TLC; its behaviours replayed on compiler and instruments"
NOTE = ("Exhaustive for four port-clocks of three modules, two at once, two values of every option, in the model; simulated "
        "behaviours of four schedules over 23 port-clocks of eight modules are compiled and prepared on one persisting dummy cluster.")

CL = qblox.CL
#          slot, type, kind, io, channel, frequency (MHz), measures
PC = [(1, "QCM", "complex", "output", 0, 60, 0), (1, "QCM", "complex", "output", 0, 80, 0), (1, "QCM", "real", "output", 2, 60, 0),
      (1, "QCM", "real", "output", 3, 60, 0), (2, "QRM", "complex", "both", 0, 60, 1), (2, "QRM", "complex", "both", 0, 80, 0),
      (3, "QRM", "real", "output", 0, 60, 0), (3, "QRM", "real", "input", 1, 80, 1), (4, "QCM_RF", "complex", "output", 0, 5000, 0),
      (4, "QCM_RF", "complex", "output", 0, 5100, 0), (4, "QCM_RF", "complex", "output", 1, 5000, 0),
      (5, "QRM_RF", "complex", "both", 0, 5000, 1), (5, "QRM_RF", "complex", "both", 0, 5100, 0), (6, "QRC", "complex", "both", 0, 5000, 1),
      (6, "QRC", "complex", "output", 1, 5100, 0), (6, "QRC", "complex", "output", 2, 5000, 0), (6, "QRC", "complex", "output", 5, 5000, 0),
      (7, "QTM", "digital", "input", 0, 0, 1), (7, "QTM", "digital", "input", 3, 0, 1), (7, "QTM", "digital", "output", 4, 0, 0),
      (8, "QCM", "complex", "output", 0, 60, 0), (8, "QCM", "complex", "output", 1, 60, 0), (8, "QCM", "real", "output", 3, 60, 0)]
TYPES = {p[0]: p[1] for p in PC}
# units of the instrument in those of the specification, by the end of the parameter's name
SCALE = [("offset_awg_path0", 0.125), ("offset_awg_path1", 0.125), ("gain_awg_path0", 0.125), ("gain_awg_path1", 0.125),
         ("_offset", 1e-3), ("lo_freq", 1e6), ("nco_freq", 1e6), ("ratio", 0.01), ("ttl_acq_threshold", 0.125), ("analog_threshold", 1e-3), ("_amplitude", 0.125)]


def port(i):
    s, t, kind, io, n, *_ = PC[i - 1]
    return f"m{s}:{kind[0]}{'i' if io == 'input' else 'o'}{n}"


def clock(i):
    return "digital" if PC[i - 1][1] == "QTM" else f"m{PC[i - 1][0]}.f{PC[i - 1][5]}"


def key(i):
    return f"{port(i)}-{clock(i)}"


def config(st, rnd):
    """The hardware configuration of a step; the order of everything in it is random."""
    graph = set()
    for s, t, kind, io, n, *_ in PC:
        i = PC.index((s, t, kind, io, n, *_)) + 1
        for d in ("output", "input") if io == "both" else (io,):
            graph.add((f"{CL}.module{s}.{kind}_{d}_{n}", port(i)))
    graph = [list(e) for e in sorted(graph)]
    rnd.shuffle(graph)
    ho = {}
    given = list(st["given"])
    rnd.shuffle(given)

    def put(name, i, v):
        ho.setdefault(name, {})[key(i)] = v

    for i in given:
        o = st["opts"][i - 1]
        kind, typ = PC[i - 1][2], PC[i - 1][1]
        if o["gain"]:
            g = o["gain"][0]
            put("input_gain", i, {"gain_I": g[0], "gain_Q": g[1]} if kind == "complex" else g)
        if o["oatt"]:
            put("output_att", i, o["oatt"][0])
        if o["iatt"]:
            put("input_att", i, o["iatt"][0])
        if o["mc"]:
            m = o["mc"][0]
            d = {}
            if m["i"]:
                d["dc_offset_i"] = m["i"][0] * 1e-3
            if m["q"]:
                d["dc_offset_q"] = m["q"][0] * 1e-3
            if not m["sb"]:
                d.update(amp_ratio=m["ratio"] / 100, phase_error=m["phase"])
            else:
                d["auto_sideband_cal"] = "on_interm_freq_change"
            if m["lo"] != "off" or rnd.random() < 0.3:
                d["auto_lo_cal"] = m["lo"]
            put("mixer_corrections", i, d)
        if o["so"]:
            s = o["so"][0]
            d = {"init_offset_awg_path_I": s["oi"] / 8, "init_offset_awg_path_Q": s["oq"] / 8, "init_gain_awg_path_I": s["gi"] / 8,
                 "init_gain_awg_path_Q": s["gq"] / 8}
            if s["ttl"]:
                d["ttl_acq_threshold"] = s["ttl"][0] / 8
            put("sequencer_options", i, d)
        if o["dc"]:
            fs = [filt(f) for f in o["dc"][0]]
            put("distortion_corrections", i, fs if kind == "complex" else fs[0])
        if o["dt"]:
            put("digitization_thresholds", i, {"analog_threshold": o["dt"][0] * 1e-3})
        if o["lo"]:
            put("modulation_frequencies", i, {"lo_freq": o["lo"][0] * 1e6})
        if o["nco"]:
            put("modulation_frequencies", i, {"interm_freq": o["nco"][0] * 1e6})
    return {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig", "version": "0.2",
            "hardware_description": {CL: {"instrument_type": "Cluster", "ref": "internal",
                                          "modules": {str(s): {"instrument_type": t} for s, t in TYPES.items()}}},
            "hardware_options": ho, "connectivity": {"graph": graph}}


def coeffs(fir):
    return [fir[0] / 8] + [0.0] * (fir[1] - 1)


def filt(f):
    d = {}
    for x, e in enumerate(f["exp"]):
        if e:
            d[f"exp{x}_coeffs"] = [e[0], e[1] / 8]
    if f["fir"]:
        d["fir_coeffs"] = coeffs(f["fir"])
    return d


def schedule(st, rnd):
    from quantify_scheduler import Schedule
    from quantify_scheduler.operations.acquisition_library import SSBIntegrationComplex, TriggerCount
    from quantify_scheduler.enums import BinMode
    from quantify_scheduler.operations.pulse_library import IdlePulse, MarkerPulse, SquarePulse
    from quantify_scheduler.resources import ClockResource

    s = Schedule("s", repetitions=rnd.choice([1, 3]))
    used = list(st["used"])
    rnd.shuffle(used)
    for i in used:
        _, t, kind, io, n, f, acq = PC[i - 1]
        if t != "QTM" and clock(i) not in s.resources:
            s.add_resource(ClockResource(clock(i), f * 1e6))
        if t == "QTM":
            s.add(TriggerCount(port=port(i), clock=clock(i), duration=2e-6, acq_channel=i, bin_mode=BinMode.APPEND) if acq
                  else MarkerPulse(duration=100e-9, port=port(i), clock=clock(i)), rel_time=20e-9)
            continue
        if io != "input":
            s.add(SquarePulse(amp=0.25, duration=dur(i) * 1e-9, port=port(i), clock=clock(i)), rel_time=20e-9)
        if acq:
            s.add(SSBIntegrationComplex(port=port(i), clock=clock(i), duration=(300 + 4 * i) * 1e-9, acq_channel=i), rel_time=20e-9)
    s.add(IdlePulse(100e-9))
    return s


def dur(i):
    return 4 + i


def owner(slot, name, sv, used):
    """The port-clock that a compiled sequencer serves, by what it plays or measures."""
    if TYPES[slot] == "QTM":
        c = [i for i in used if PC[i - 1][0] == slot and PC[i - 1][4] == int(name[3:])]
    else:
        lens = {len(w["data"]) for w in sv.sequence["waveforms"].values()}
        c = [i for i in used if PC[i - 1][0] == slot and
             (dur(i) in lens if PC[i - 1][3] != "input" else sv.integration_length_acq == 300 + 4 * i)]
    return c[0] if len(c) == 1 else None


WATCH_M = {"in0_gain", "in1_gain", "in0_att", "in1_att"} | {f"out{n}_att" for n in range(6)} | {f"out{n}_offset" for n in range(4)} | {
    f"out{n}_offset_path{q}" for n in range(2) for q in range(2)} | {f"out{n}_lo_freq" for n in range(6)} | {
    f"out{n}_in{n}_lo_freq" for n in range(2)} | {f"out{n}_exp{x}_{w}" for n in range(4) for x in range(4) for w in ("config", "time_constant", "amplitude")} | {
    f"out{n}_fir_{w}" for n in range(4) for w in ("config", "coeffs")}
WATCH_S = {"sync_en", "connect_acq", "connect_acq_I", "connect_acq_Q", "offset_awg_path0", "offset_awg_path1", "gain_awg_path0", "gain_awg_path1",
           "ttl_acq_threshold", "mixer_corr_gain_ratio", "mixer_corr_phase_offset_degree", "mod_en_awg", "demod_en_acq", "nco_freq"} | {
    f"connect_out{n}" for n in range(6)}
WATCH_C = {"mode", "analog_threshold"}


def text(x):
    x = getattr(x, "value", x)
    if isinstance(x, bool):
        return str(x)
    if hasattr(x, "tolist"):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return "[" + " ".join(f"{float(y):.6g}" for y in x) + "]"
    if isinstance(x, (int, float)):
        return f"{float(x) + 0.0:.9g}"
    return str(x)


def snapshot(cl):
    out = {}
    for s, t in TYPES.items():
        m = cl.modules[s - 1]
        out.update({(s, "m", 0, p): text(m.parameters[p].cache()) for p in WATCH_M if p in m.parameters})
        for k, q in enumerate(m.sequencers):
            out.update({(s, "s", k, p): text(q.parameters[p].cache()) for p in WATCH_S if p in q.parameters})
        if t == "QTM":
            for k, c in enumerate(m.io_channels):
                out.update({(s, "c", k, p): text(c.parameters[p].cache()) for p in WATCH_C})
    return out


def value(p, v):
    if isinstance(v, str):
        return v
    if p.endswith("_fir_coeffs"):
        return text(coeffs([v, 32]))
    for k, f in SCALE:
        if p.endswith(k):
            return text(v * f)
    return text(v)


CALLS = []


def world():
    comp, store, cl = cluster.cluster(TYPES)
    if not getattr(cl, "_p22", False):
        for s, t in TYPES.items():
            m = cl.modules[s - 1]
            if t not in ("QCM_RF", "QRM_RF"):
                continue
            for k, q in enumerate(m.sequencers):
                q.sideband_cal = lambda s=s, k=k, q=q: side(s, k, q)
            for n in range(2):
                f = lambda *a, s=s, n=n, **kw: CALLS.append(("lo", s, n))  # noqa: E731
                m.__dict__.setdefault("functions", {})
                for name in (f"out{n}_lo_cal", "out0_in0_lo_cal") if n == 0 else (f"out{n}_lo_cal",):
                    object.__setattr__(m, name, f)
        cl._p22 = True
    return comp, cl


def side(s, k, q):
    """A calibration: finds some values of its own."""
    CALLS.append(("sideband", s, k))
    q.parameters["mixer_corr_gain_ratio"].set(0.93)
    q.parameters["mixer_corr_phase_offset_degree"].set(-11 + k)


def replay_one(h):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return _replay(h)


def _replay(h):
    comp, cl = world()
    rnd = random.Random(zlib.crc32(json.dumps(h, sort_keys=True).encode()))
    comp.force_set_parameters(rnd.random() < 0.3)
    for n, st in enumerate(h):
        where = f"step {n}, port-clocks {[key(i) for i in st['used']]}"
        hw = config(st, rnd)
        sched = schedule(st, rnd)
        try:
            c = qblox.compile_schedule(sched, hw)
            msg = ""
        except Exception as e:  # noqa: BLE001
            c, msg = None, f"{type(e).__name__}: {str(e)[:400]}"
        if st["bad"]:
            if c is not None:
                return "accepted-" + sorted(st["bad"])[0], f"{where}: accepted although {st['bad']}"
            continue
        if c is None:
            return "rejected-valid", f"{where}: {msg}"
        prog = c["compiled_instructions"][CL]
        before = snapshot(cl)
        CALLS.clear()
        try:
            comp.prepare(prog)
        except Exception as e:  # noqa: BLE001
            return "not-prepared", f"{where}: {type(e).__name__}: {str(e)[:400]}"
        after = snapshot(cl)
        want = dict(before)
        home = {}
        for m, v in prog.items():
            if not (isinstance(v, dict) and "sequencers" in v):
                continue
            slot = int(m.split("module")[1])
            for name, sv in v["sequencers"].items():
                i = owner(slot, name, sv, st["used"])
                if i is None or i in home:
                    return "sequencer", f"{where}: sequencer {name} of module {slot} serves {'no port-clock' if i is None else key(i) + ' too'}"
                home[i] = int(name[3:])
        if set(home) != set(st["used"]):
            return "no-sequencer", f"{where}: no sequencer for {[key(i) for i in set(st['used']) - set(home)]}"
        for r in st["mods"]:
            for k in range(len(cl.modules[r["slot"] - 1].sequencers)):
                want[(r["slot"], "s", k, "sync_en")] = "False"
        for r in st["mods"]:
            for x in r["set"]:
                want[(r["slot"], "m", 0, x["p"])] = value(x["p"], x["v"])
        for r in st["seqs"]:
            s = PC[r["i"] - 1][0]
            for x in r["set"]:
                want[(s, "s", home[r["i"]], x["p"])] = value(x["p"], x["v"])
            for x in r["chan"]:
                want[(s, "c", PC[r["i"] - 1][4], x["p"])] = value(x["p"], x["v"])
        # the modulation of channels without an output is not judged
        for i in st["used"]:
            if PC[i - 1][3] == "input" and TYPES[PC[i - 1][0]] != "QTM":
                for p in ("mod_en_awg", "demod_en_acq", "nco_freq"):
                    want[(PC[i - 1][0], "s", home[i], p)] = after[(PC[i - 1][0], "s", home[i], p)]
        # calibrations run exactly if the frequency is new
        calls = set()
        for r in st["cals"]:
            if r["what"] == "sideband":
                k = (r["slot"], "s", home[r["i"]])
                if before[(*k, "nco_freq")] != want[(*k, "nco_freq")]:
                    calls.add(("sideband", r["slot"], k[2]))
                    want[(*k, "mixer_corr_gain_ratio")] = text(0.93)
                    want[(*k, "mixer_corr_phase_offset_degree")] = text(-11 + k[2])
            else:
                p = "out0_in0_lo_freq" if TYPES[r["slot"]] == "QRM_RF" else f"out{r['n']}_lo_freq"
                k = (r["slot"], "m", 0, p)
                new = before[k] != want[k]
                if r["what"] == "on_lo_interm_freq_change":
                    for i in st["used"]:
                        if PC[i - 1][0] == r["slot"] and PC[i - 1][4] == r["n"]:
                            q = (r["slot"], "s", home[i], "nco_freq")
                            new = new or before[q] != want[q]
                if new:
                    calls.add(("lo", r["slot"], r["n"]))
        for k, v in want.items():
            if k not in after:
                return "no-parameter", f"{where}: {k} does not exist"
            if after[k] != v:
                what = "kept" if v == before[k] else "set"
                return f"{what}-{k[1]}-{k[3]}", (f"{where}: module {k[0]} ({TYPES[k[0]]}) "
                                                 f"{'' if k[1] == 'm' else ('sequencer ' if k[1] == 's' else 'channel ') + str(k[2])} {k[3]} "
                                                 f"is {after[k]}, expected {v}; before {before[k]}")
        if set(CALLS) != calls or len(CALLS) != len(calls):
            return "calibration", f"{where}: calibrated {CALLS}, expected {sorted(calls)}"
    return None


def run(ctx):
    common.explore(ctx, "Options", timeout=400)
    n = ctx.n(400, 4000)
    tr = common.simulate(ctx, "Options", n, 10)
    for h, bad in zip(tr, common.pmap(replay_one, tr)):
        if bad:
            ctx.violate(bad[0], bad[1], replay={"options": h})
    ctx.traces += len(tr)
    steps = [st for h in tr for st in h]
    ctx.notes["schedules"] = len(steps)
    ctx.notes["refused"] = {r: sum(r in st["bad"] for st in steps) for r in sorted({r for st in steps for r in st["bad"]})}
    ctx.notes["calibrations"] = sum(bool(st["cals"]) for st in steps)
    ctx.notes["rule"] = "random options of random subsets of the port-clocks; four schedules one after another on the same cluster"
    ctx.samples = [tr[0][:1]]


def replay(ctx, path):
    r = json.load(open(path))["replay"]
    bad = replay_one(r["options"])
    if bad:
        ctx.violate(bad[0], bad[1], replay=r)
