"""P12: the compiled LO and intermediate frequencies add up to the clock frequency."""
from __future__ import annotations

import random
import re
import warnings

from .. import common, qblox

TECHNIQUE = ("TLA+ state machine of the frequency assignment (FreqModel), exhaustively checked with TLC for confluence and the LO+IF relation; "
             "TLC judges compiled LO/NCO settings and set_freq instructions of the real backend against its solution (FreqTrace)")
NOTE = ("Model: two users, two oscillators, all fixings and orders. Conformance: seeded configurations of up to five port-clocks on six oscillators. "
        "Whether a configuration is accepted that only determines a frequency through another port-clock's IF is left open.")
U = 10  # Hz
# oscillator: (slot, module, channel, external LO)
OSC = {1: (1, "QCM_RF", "complex_output_0", None), 2: (1, "QCM_RF", "complex_output_1", None),
       3: (2, "QRM_RF", "complex_output_0", None), 4: (3, "QCM", "complex_output_0", "lo_a"),
       5: (3, "QCM", "complex_output_1", "lo_b"), 6: (4, "QRM", "complex_output_0", "lo_c"),
       7: (6, "QCM", "real_output_2", "lo_d"), 8: (6, "QCM", "real_output_0", "lo_e")}
BB = [(5, "QCM", "complex_output_0"), (5, "QCM", "complex_output_1"), (7, "QRM", "complex_output_0")]
IFS = [0, 50e6, 100e6, -100e6, 217.5e6, -333e6, 12345670.0]


def make(rng):
    nosc = rng.choice([1, 1, 1, 2, 2, 3])
    oscs = rng.sample(sorted(OSC), nosc)
    chan = {}
    for o in oscs:
        ext = OSC[o][3] is not None
        real = OSC[o][2].startswith("real")
        chan[o] = {"down": rng.choice([None, None, None, 12e9, 11.5e9, 3e9 if rng.random() < 0.1 else None]) if not real else None,
                   "mix": rng.random() < 0.8 if ext else True, "lo": rng.choice([4.9e9, 5e9, 6.2e9])}
    ncl = rng.randrange(1, 5)
    clocks = {}
    users = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5])):
        o = rng.choice(oscs)
        ch = chan[o]
        k = rng.randrange(ncl)
        cl = f"c{k}"
        if cl not in clocks:
            x = ch["lo"] + rng.choice(IFS)
            clocks[cl] = x if ch["down"] is None else ch["down"] - x
            if clocks[cl] <= 0:
                clocks[cl] = 5e9
        port = f"q{o}:p{rng.randrange(2)}"
        if any(u["port"] == port and u["cl"] == cl for u in users) or sum(OSC[u["o"]][0] == OSC[o][0] for u in users) >= 6:
            continue
        users.append({"o": o, "port": port, "cl": cl})
    if rng.random() < 0.25:
        s, t, c = rng.choice(BB)
        f = rng.choice([50e6, 100e6, 217.5e6])
        clocks["bb1"] = f
        users.append({"o": 0, "port": "q9:b", "cl": "bb1", "bb": (s, t, c)})
    for u in users:
        f = clocks[u["cl"]]
        if not u["o"]:
            u["fl"], u["lof"] = False, 0
            u["fi"] = rng.random() < 0.5
            u["iff"] = f if rng.random() < 0.8 else 40e6
            continue
        ch = chan[u["o"]]
        t = f if ch["down"] is None else ch["down"] - f
        u["fl"] = rng.random() < 0.5
        u["fi"] = rng.random() < 0.55 or (not ch["mix"] and rng.random() < 0.9)
        u["lof"] = ch["lo"]
        u["iff"] = t - ch["lo"] if ch["mix"] else rng.choice([50e6, -100e6, 0])
        if abs(u["iff"]) > 450e6:
            u["iff"] = rng.choice(IFS)
            u["fi"] = u["fi"] or rng.random() < 0.5
        p = rng.random()
        if p < 0.06:
            u["iff"] = rng.choice(IFS)
        elif p < 0.12:
            u["lof"] = rng.choice([4.9e9, 5e9, 6.2e9, 5.00000001e9 if u["fi"] else 5e9])
    p = {"users": users, "chan": {str(k): v for k, v in chan.items()}, "clocks": clocks, "double": None, "set": None, "flip": rng.random() < 0.5}
    if rng.random() < 0.5:
        cl = rng.choice([u["cl"] for u in users])
        if not any(u["cl"] == cl and u["fi"] and u["iff"] == 0 for u in users):
            p["set"] = [cl, clocks[cl] + rng.choice([10e6, -20e6, 1.5e6, 33333330.0, 0])]
    ext = [o for o in oscs if OSC[o][3]]
    if len(ext) >= 2 and rng.random() < 0.3:
        p["double"] = ext[:2]
    return p


def config(p):
    mods, graph, mf, hd = {}, [], {}, {}
    lo_name = {o: OSC[o][3] for o in OSC}
    if p["double"]:
        lo_name[p["double"][1]] = lo_name[p["double"][0]]
    for u in p["users"]:
        slot, typ, ch = u["bb"] if not u["o"] else OSC[u["o"]][:3]
        m = mods.setdefault(str(slot), {"instrument_type": typ})
        m.setdefault(ch, {})
        c = p["chan"].get(str(u["o"]))
        path = f"cluster0.module{slot}.{ch}"
        if c:
            if c["down"] is not None:
                m[ch]["downconverter_freq"] = c["down"]
            if not c["mix"]:
                m[ch]["mix_lo"] = False
        if u["o"] and OSC[u["o"]][3]:
            lo = lo_name[u["o"]]
            mix = "mix" + str(u["o"])
            hd[lo] = {"instrument_type": "LocalOscillator", "power": 1}
            hd[mix] = {"instrument_type": "IQMixer"}
            es = [[path, mix + ".if"], [lo + ".output", mix + ".lo"], [mix + ".rf", u["port"]]]
        else:
            es = [[path, u["port"]]]
        graph += [e for e in es if e not in graph]
        f = {}
        if u["fl"]:
            f["lo_freq"] = u["lof"]
        if u["fi"]:
            f["interm_freq"] = u["iff"]
        if f:
            mf[f"{u['port']}-{u['cl']}"] = f
    if p["flip"]:
        mf = dict(reversed(mf.items()))
    return {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
            "hardware_description": {"cluster0": {"instrument_type": "Cluster", "ref": "internal", "modules": mods}, **hd},
            "hardware_options": {"modulation_frequencies": mf}, "connectivity": {"graph": graph}}


_GAIN = re.compile(r"set_awg_gain\s+(-?\d+)\s*,\s*(-?\d+)")
_FREQ = re.compile(r"set_freq\s+(-?\d+)")


def amp_of(sq):
    """The largest amplitude a sequencer plays (each user plays one pulse of its own amplitude)."""
    sq = sq if isinstance(sq, dict) else {"program": "", "waveforms": {}}
    g = max((max(abs(int(x)), abs(int(y))) for x, y in _GAIN.findall(sq["program"])), default=0)
    w = max((abs(v) for wf in sq["waveforms"].values() for v in wf["data"]), default=0)
    return g / 32768 * w


def run_case(p):
    warnings.simplefilter("ignore")
    from quantify_scheduler import Schedule, ClockResource
    from quantify_scheduler.operations.pulse_library import SetClockFrequency, SquarePulse
    s = Schedule("f")
    for n, f in p["clocks"].items():
        s.add_resource(ClockResource(n, f))
    real = 0.0
    if p["set"]:
        s.add(SetClockFrequency(clock=p["set"][0], clock_freq_new=p["set"][1]), rel_time=100e-9)
    for i, u in enumerate(p["users"]):
        s.add(SquarePulse(amp=(i + 1) / 20 + real, duration=20e-9, port=u["port"], clock=u["cl"]), rel_time=100e-9)
    lo_name = {o: OSC[o][3] for o in OSC}
    if p["double"]:
        lo_name[p["double"][1]] = lo_name[p["double"][0]]
    users = p["users"]
    try:
        comp = qblox.compile_schedule(s, config(p)).compiled_instructions
    except Exception as e:  # noqa: BLE001
        return {"res": "reject", "lo": [], "iff": [], "set": [], "why": repr(e)[:300]}
    los, iff, st = [], [], []
    for m, v in comp["cluster0"].items():
        if not (isinstance(v, dict) and "sequencers" in v):
            continue
        for sv in v["sequencers"].values():
            sq = sv.sequence if not isinstance(sv, dict) else sv["sequence"]
            i = round(amp_of(sq) * 20) - 1
            if not 0 <= i < len(users):
                continue
            f = sv.modulation_freq
            iff.append({"u": i + 1, "f": round(f / U) if f is not None else 2**30, "on": bool(sv.nco_en)})
            for x in _FREQ.findall(sq["program"]):
                if p["set"]:
                    st.append({"u": i + 1, "c": round(p["set"][1] / U), "f": round(int(x) / 4 / U)})
        slot = int(m.split("module")[-1])
        for o, (sl, typ, ch, ext) in OSC.items():
            if sl == slot and ext is None and any(u["o"] == o for u in users):
                f = getattr(v["settings"], f"lo{ch[-1]}_freq")
                los.append({"l": o, "f": round(f / U) if f is not None else -1})
    for o in {u["o"] for u in users if u["o"] and OSC[u["o"]][3]}:
        d = comp.get("generic") or {}
        f = d.get(lo_name[o] + ".frequency")
        los.append({"l": o if not p["double"] or o not in p["double"] else p["double"][0], "f": round(f / U) if f is not None else -1})
    return {"res": "ok", "lo": los, "iff": iff, "set": st, "why": ""}


def spec_case(p, o):
    us, conflict = [], False
    for i, u in enumerate(p["users"]):
        c = p["chan"].get(str(u["o"])) or {"down": None, "mix": True}
        lo = u["o"]
        if p["double"] and lo in p["double"]:
            lo = p["double"][0]
        us.append({"lo": lo if lo else -1 - i, "clock": round(p["clocks"][u["cl"]] / U),
                   "down": round(c["down"] / U) if c["down"] is not None else -1, "mix": c["mix"],
                   "fl": u["fl"] or not lo, "lof": round(u["lof"] / U) if lo else 0, "fi": u["fi"], "iff": round(u["iff"] / U)})
    for a in us:
        conflict = conflict or any(not a["mix"] and not b["mix"] and a["lo"] == b["lo"] and a["fl"] and b["fl"] and a["lof"] != b["lof"] for b in us)
        if not a["mix"]:
            conflict = conflict or any(b["lo"] == a["lo"] and b["mix"] for b in us) or any(b["lo"] == a["lo"] and b["fl"] for b in us)
    return {"us": us, "any": bool(conflict or p["double"]), "obs": o,
            "setc": [{"u": i + 1, "c": round(p["set"][1] / U)} for i, u in enumerate(p["users"]) if u["cl"] == p["set"][0]] if p["set"] else []}


def run(ctx):
    rng = random.Random(ctx.seed)
    common.explore(ctx, "FreqModel")
    ps = [make(rng) for _ in range(ctx.n(2500, 40000))]
    ps = [p for p in ps if p["users"]]
    obs = common.pmap(run_case, ps)
    js = [spec_case(p, o) for p, o in zip(ps, obs)]
    verd = common.judge(ctx, "FreqTrace", js)
    stats = {"ok": 0, "reject": 0, "set": 0}
    for p, j, o, vs in zip(ps, js, obs, verd):
        stats[o["res"]] += 1
        stats["set"] += bool(o["set"])
        for cl, det in vs:
            if cl != "ok":
                ctx.violate(cl, f"{det} {o['why']}", {"case": p, "judged": j})
    ctx.notes["outcomes"] = stats
    ctx.notes["rule"] = "random assignments of fixed and free LO/IF values to port-clocks sharing module outputs, oscillators, clocks; downconverters; unmixed LOs"
    ctx.samples = [js[0], js[-1]]
    ctx.assumptions = ["frequencies are multiples of 10 Hz"]
