"""Compile schedules for a Qblox cluster and export what the compiler made for the specification."""
from __future__ import annotations

import re
import warnings

from . import ir

CL = "cluster0"
MAXINSTR = {"QCM": 16384, "QCM_RF": 16384, "QRM": 12288, "QRM_RF": 12288, "QRC": 12288, "QTM": 16384}
# mask of the switch of a radio-frequency channel
RFSWITCH = {("QCM_RF", "complex_output_0"): 0, ("QCM_RF", "complex_output_1"): 1, ("QRM_RF", "complex_output_0"): 1}
MARKBIT = {"QCM": {f"digital_output_{i}": i for i in range(4)}, "QRM": {f"digital_output_{i}": i for i in range(4)},
           "QCM_RF": {"digital_output_0": 3, "digital_output_1": 2}, "QRM_RF": {"digital_output_0": 2, "digital_output_1": 3},
           "QRC": {"digital_output_0": 0}}
RFMASK = {"QCM_RF": 3, "QRM_RF": 2}


def pc(port, clock, slot, typ, ch="complex_output_0", freq=None, iff=None, lo=None, lat=0, kind="analog", rfon=True,
       cfg_if=True, **kw):
    """One port-clock and the channel it is wired to. freq: clock frequency (Hz) or None for baseband."""
    return {"port": port, "clock": clock, "slot": slot, "typ": typ, "ch": ch, "freq": freq, "if": iff, "lo": lo,
            "lat": lat, "kind": kind, "rfon": rfon, "cfg_if": cfg_if, **kw}


def markbit(p):
    return MARKBIT[p["typ"]][p["ch"]]


def nco(p):
    return p["kind"] == "analog" and p["if"] is not None


def hw_config(pcs, **options):
    mods, graph, mf, lat = {}, [], {}, {}
    for p in pcs:
        m = mods.setdefault(str(p["slot"]), {"instrument_type": p["typ"]})
        if p["typ"] in ("QCM_RF", "QRM_RF"):
            m["rf_output_on"] = p["rfon"]
        e = [f"{CL}.module{p['slot']}.{p['ch']}", p["port"]]
        if e not in graph:
            graph.append(e)
        if p["typ"] in ("QCM_RF", "QRM_RF", "QRC") and p["kind"] == "analog":
            mf[f"{p['port']}-{p['clock']}"] = {"interm_freq": p["if"]} if p["cfg_if"] else {"lo_freq": p["lo"]}
        if p["lat"]:
            lat[f"{p['port']}-{p['clock']}"] = p["lat"] * 1e-9
    ho = {"modulation_frequencies": mf}
    if lat:
        ho["latency_corrections"] = lat
    for k, v in options.items():
        if k != "modules":
            ho[k] = v
    for k, v in options.get("modules", {}).items():
        mods[str(k)].update(v)
    return {"config_type": "quantify_scheduler.backends.qblox_backend.QbloxHardwareCompilationConfig",
            "hardware_description": {CL: {"instrument_type": "Cluster", "ref": "internal", "modules": mods}},
            "hardware_options": ho, "connectivity": {"graph": graph}}


_QD = None


def device():
    """A fresh device with one transmon element per process (instruments are global)."""
    global _QD
    if _QD is None:
        from quantify_scheduler import QuantumDevice

        _QD = QuantumDevice("qd_verif")
    return _QD


def compile_schedule(s, hw, keep=True):
    from quantify_scheduler import SerialCompiler

    qd = device()
    qd.keep_original_schedule(keep)
    qd.hardware_config(hw)
    return SerialCompiler("c").compile(s, qd.generate_compilation_config())


# ----------------------------------------------------------------- assembly text
_LABEL = re.compile(r"^\s*([A-Za-z_][A-Za-z0-9_]*):\s*(.*)$")


def assemble(text):
    """Q1ASM text as a list of [op, args] with labels resolved to 1-based positions."""
    raw, labels, pending, dup = [], {}, [], ""
    for line in text.split("\n"):
        line = line.split("#", 1)[0].strip()
        if not line:
            continue
        m = _LABEL.match(line)
        while m:
            if m.group(1) in labels or m.group(1) in pending:
                dup = m.group(1)
            pending.append(m.group(1))
            line = m.group(2).strip()
            m = _LABEL.match(line) if line else None
        if not line:
            continue
        for p in pending:
            labels[p] = len(raw) + 1
        pending = []
        parts = line.split(None, 1)
        args = [a.strip() for a in parts[1].split(",")] if len(parts) > 1 else []
        raw.append((parts[0], args))
    for p in pending:
        labels[p] = len(raw) + 1
    prog = []
    for op, args in raw:
        out = []
        for a in args:
            if a.startswith("@"):
                out.append({"k": "l", "v": labels.get(a[1:], 0)})
            elif re.fullmatch(r"R\d+", a):
                out.append({"k": "r", "v": int(a[1:])})
            elif re.fullmatch(r"-?\d+", a):
                v = int(a)
                if v >= 2**31:
                    v -= 2**32
                if not -2**31 <= v < 2**31:
                    v = 2**31 - 1
                    op = "bad-immediate"
                out.append({"k": "i", "v": v})
            else:
                op, out = "bad-argument", out + [{"k": "i", "v": 0}]
        prog.append({"op": op, "a": out})
    return prog, dup


def _table(decl):
    """Sample tables by index; also reports an index declared twice."""
    dup = ""
    n = max([d["index"] for d in decl.values()], default=-1) + 1
    out = [[] for _ in range(n)]
    for name, d in decl.items():
        if out[d["index"]]:
            dup = name
        data = [round(float(x) * 32768) for x in d["data"]]
        out[d["index"]] = data or [0]
    return out, dup


def export_map(m, chans):
    """The module's account of where each result is stored: [ch, ix, index, bin, stride] (ix -1: the whole index)."""
    out = []
    for ch, v in (m or {}).items():
        n = chans.get(str(ch), -1)
        if isinstance(v, dict):
            out += [{"ch": n, "ix": int(i), "index": b.index, "bin": b.bin, "stride": b.stride} for i, b in v.items()]
        else:
            out.append({"ch": n, "ix": -1, "index": int(v), "bin": 0, "stride": 0})
    return out


def export_channels(comp, chans):
    """The compiled table of acquisition channels, one entry per channel."""
    out = []
    for ch, d in (comp.compiled_instructions.get(CL, {}).get("acq_channels_data") or {}).items():
        e = {"ch": chans.get(str(ch), -1), "proto": d.protocol, "md": str(getattr(d.bin_mode, "value", d.bin_mode)),
             "dim": d.acq_index_dim_name == f"acq_index_{ch}", "type": type(ch).__name__, "coords": []}
        for c in d.coords if isinstance(d.coords, list) else [d.coords]:
            c = dict(c)
            e["coords"].append({"legacy": int(c.pop(f"acq_index_legacy_{ch}", -1)), "rep": int(c.pop(f"loop_repetition_{ch}", -1)),
                                "user": int(c.pop(f"user_{ch}", -1)), "more": len(c)})
        out.append(e)
    return out


SLOTS = ("low", "mid", "high", "invalid")


def write_address(sv):
    if not sv.thresholded_acq_trigger_write_en:
        return 0
    if hasattr(sv, "thresholded_acq_trigger_write_address_high"):
        return max(int(getattr(sv, f"thresholded_acq_trigger_write_address_{x}") or 0) for x in SLOTS)
    return int(sv.thresholded_acq_trigger_write_address or 0)


def tag_settings(sv):
    """Settings of a time-tag sequencer."""
    g = lambda n: getattr(sv, n, None)
    s = lambda x: "" if x is None else str(getattr(x, "value", x))
    i = lambda x: -1 if x is None else int(x)
    return {"src": s(g("time_source")), "ref": s(g("time_ref")), "refch": i(g("time_ref_channel")), "scope": s(g("scope_trace_type")),
            "trdur": i(g("trace_acq_duration")), "slots": [x for x in SLOTS if g("thresholded_acq_trigger_write_en")
                                                           and g(f"thresholded_acq_trigger_write_address_{x}")]}


def export_seq(sv, k, p, amap=None, chans=()):
    s = sv.sequence
    prog, dup1 = assemble(s["program"])
    wf, dup2 = _table(s.get("waveforms") or {})
    wt, dup3 = _table(s.get("weights") or {})
    acqs, dup4 = [], ""
    for name, d in (s.get("acquisitions") or {}).items():
        while len(acqs) <= d["index"]:
            acqs.append(0)
        if acqs[d["index"]]:
            dup4 = name
        acqs[d["index"]] = d["num_bins"]
    g = lambda n, d=0.0: float(getattr(sv, n, None) if getattr(sv, n, None) is not None else d)
    gain = lambda x: max(-32768, min(32767, round(x * 32768)))
    rs = getattr(sv, "thresholded_acq_trigger_read_settings", None) or {}
    thr = []
    for a in range(1, max(rs, default=0) + 1):
        t = rs.get(a)
        n = getattr(t, "thresholded_acq_trigger_count", None)
        thr.append({"count": 1 if n is None else int(n), "inv": bool(getattr(t, "thresholded_acq_trigger_invert", False))})
    return {
        "pc": k + 1, "prog": prog, "wf": wf, "wt": wt, "acqs": acqs, "dup": dup1 or dup2 or dup3 or dup4,
        "maxinstr": MAXINSTR[p["typ"]], "intlen": int(getattr(sv, "integration_length_acq", None) or 0),
        "sync": bool(sv.sync_en),
        "waddr": write_address(sv), "tag": tag_settings(sv),
        "ath": -1 if getattr(sv, "analog_threshold", None) is None else round(sv.analog_threshold * 1000),
        "thr": thr, "map": export_map(amap, chans),
        "sett": {"o0": round(g("init_offset_awg_path_I") * 32768), "o1": round(g("init_offset_awg_path_Q") * 32768),
                 "g0": gain(g("init_gain_awg_path_I", 1.0)), "g1": gain(g("init_gain_awg_path_Q", 1.0)),
                 "fr": round(g("modulation_freq") * 4) if getattr(sv, "nco_en", False) else 0},
    }


def find_pc(pcs, slot, sv, used):
    """The port-clock a compiled sequencer serves, by its wiring (and IF when the channel is shared)."""
    names = [sv.channel_name] + list(sv.channel_name_measure or [])
    c = [i for i, p in enumerate(pcs) if p["slot"] == slot and p["ch"] in names and i not in used]
    if len(c) > 1:
        f = getattr(sv, "modulation_freq", None)
        d = [i for i in c if pcs[i]["if"] is not None and f is not None and abs(pcs[i]["if"] - f) < 1]
        c = d or c
    return c[0] if c else None


def export(comp, pcs, chans=None):
    """All compiled sequencers as records for the specification."""
    chans = chans or {}
    seqs, used = [], set()
    for m, v in comp.compiled_instructions.get(CL, {}).items():
        if not (isinstance(v, dict) and "sequencers" in v):
            continue
        slot = int(re.search(r"module(\d+)", m).group(1))
        for name, sv in v["sequencers"].items():
            i = find_pc(pcs, slot, sv, used)
            if i is None:
                seqs.append({"pc": 99, "prog": [], "wf": [], "wt": [], "acqs": [], "dup": "", "maxinstr": 0, "intlen": 0,
                             "sync": False, "waddr": 0, "thr": [], "map": [], "sett": {}, "tag": {}, "ath": -1})
                continue
            used.add(i)
            seqs.append(export_seq(sv, i, pcs[i], (v.get("acq_hardware_mapping") or {}).get(name), chans))
    return seqs


def clocks(pcs):
    out = []
    for p in pcs:
        if p["clock"] not in out:
            out.append(p["clock"])
    return out


def used_pcs(root):
    u = set()
    for nd in ir.flat(root)[0]:
        if nd["k"] == "op":
            u |= {e["pc"] - 1 for e in nd["ev"] if "pc" in e}
    return u


def case(root, pcs, tabs, observed, expect="ok", labels=(), tol=4, phtol=3, fuel=60000, maxout=4, sig=True,
         mk=True, play=True):
    """The record the specification judges. observed: (seqs|None, message)."""
    seqs, msg, table = observed
    u = used_pcs(root)
    lat0 = min([pcs[i]["lat"] for i in u], default=0)
    cks = clocks(pcs)
    out = []
    for i, p in enumerate(pcs):
        mask = RFMASK.get(p["typ"], 0) if p["rfon"] and p["kind"] == "marker" else 0
        if p["kind"] == "analog" and p["rfon"] and (p["typ"], p["ch"]) in RFSWITCH:
            mask = 2 ** RFSWITCH[(p["typ"], p["ch"])]
        out.append({"lat": p["lat"] - lat0, "fr": round(p["if"] * 4) if nco(p) else 0, "nco": nco(p),
                    "ck": cks.index(p["clock"]) + 1, "sig": sig and p["kind"] == "analog", "acq": True,
                    "mkbits": [0, 1, 2, 3] if mk and p["kind"] in ("analog", "marker") else [], "mk0": mask,
                    "dig": p["kind"] in ("dout", "din"), "ath": p.get("ath", -1),
                    "auto": p.get("auto", -1), "sw": RFSWITCH.get((p["typ"], p["ch"]), 0)})
    return {"nodes": ir.export(root, {lab: i + 1 for i, lab in enumerate(l["name"] for l in labels)}),
            "reps": root.get("reps", 1), "expect": expect, "obs": "reject" if seqs is None else "ok",
            "msg": msg[:300], "pcs": out, "seqs": seqs or [], "tabs": tabs, "tol": tol, "phtol": phtol,
            "labels": [{"pc": l["pc"] + 1} for l in labels], "fuel": fuel, "chans": table,
            "maxout": maxout, "run": play, "held": False}


def channels(root):
    """Acquisition channels of the schedule: name as text -> number used in the specification."""
    return {str(nd["b"]["ch"]): nd["ev"][0]["ch"] for nd in ir.flat(root)[0] if nd["k"] == "op" and nd["b"]["kind"] == "acq"}


def run_case(root, pcs, hw=None, keep=True, unit=1e-9):
    """Build with the public API, compile, export; (seqs, message, channel table)."""
    chans = channels(root)
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            s = ir.Builder(pcs, unit=unit).top(root)
            c = compile_schedule(s, hw or hw_config(pcs), keep)
        long = sorted({int(m.group(1)) for x in w for m in [re.search(r"Number of instructions \((\d+)\)", str(x.message))] if m})
    except Exception as e:  # noqa: BLE001
        return None, f"{type(e).__name__}: {e}", []
    seqs = export(c, pcs, chans)
    for q in seqs:
        # programs for which the compiler warned about their length
        q["warned"] = len(q["prog"]) > q["maxinstr"] and bool(long)
    return seqs, "", export_channels(c, chans)
