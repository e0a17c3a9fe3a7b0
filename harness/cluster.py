"""A Qblox cluster whose sequencers store recognisable results: the real coordinator component drives
a dummy cluster whose acquisition memory is emulated here."""
from __future__ import annotations

import math
import re

from . import qblox

SCALE = 1000
NAN = -2_000_000_000
STALE = 7_000_000


def code(h, ix, bin):
    return (h * 32 + ix) * 512 + bin


def small(h, ix, bin):
    return (7 * h + 3 * ix + 5 * bin + 1) % 11


def cumulative(h, ix, bin):
    """Counts of at least bin + 1 events; nothing recorded beyond the largest count."""
    n = 5 + ix + h % 3
    return None if bin >= n else 3 * ((n - bin + 1) // 2)


class Store:
    """The acquisition memory of one cluster."""

    def __init__(self):
        self.raw = "code"
        self.seq = {}        # (slot, seq) -> uploaded sequence
        self.armed = set()
        self.data = {}       # (slot, seq) -> number of runs whose data is there
        self.scope = {}      # (slot, seq) -> names whose scope was stored
        self.ran = []        # sequencers that ran at the last start
        self.log = []
        self.status = {}

    def value(self, h, ix, b, n):
        x = {"code": code, "small": small, "cum": cumulative}[self.raw](h, ix, b)
        return float("nan") if x is None else float(x + (STALE if n > 1 else 0))

    def start(self):
        self.ran = sorted(self.armed)
        for k in self.armed:
            self.data[k] = self.data.get(k, 0) + 1
        self.armed = set()

    def acquisitions(self, slot, seq):
        n = self.data.get((slot, seq), 0)
        h = hid(slot, seq)
        out = {}
        for name, d in (self.seq.get((slot, seq), {}).get("acquisitions") or {}).items():
            ix, nb = d["index"], d["num_bins"]
            v = [self.value(h, ix, b, n) if n else float("nan") for b in range(nb)]
            w = [2 * x + 1 for x in v]
            here = name in self.scope.get((slot, seq), ())
            sc = {f"path{p}": {"data": [float(scope(h, ix, i, p)) for i in range(16384)] if here else [],
                               "out-of-range": False, "avg_cnt": 1} for p in range(4)}
            out[name] = {"index": ix, "acquisition": {
                "scope": sc,
                "bins": {"integration": {"path0": v, "path1": w}, "threshold": v, "avg_cnt": v}}}
        return out


def scope(h, ix, i, p):
    return (h * 32 + ix) * 64 + (i * (p + 1)) % 61


def hid(slot, seq):
    return (slot - 1) * 6 + seq


class Param:
    """Stands in for the sequence parameter of a sequencer (the dummy would run an assembler)."""

    def __new__(cls, store, slot, seq, inst):
        from qcodes.parameters import Parameter

        store.seq.setdefault((slot, seq), {})
        return Parameter("sequence", set_cmd=lambda v: store.seq.__setitem__((slot, seq), v), get_cmd=None, instrument=None)


def close(prefix):
    """Close every instrument whose name starts so."""
    from qcodes.instrument import Instrument

    for n in [x for x in Instrument._all_instruments if x.startswith(prefix)]:
        Instrument.find_instrument(n).close()


_CACHE = {}


def cluster(types):
    """(component, store, cluster) for {slot: type}; one per configuration and process."""
    import qcodes
    from qblox_instruments import Cluster, ClusterType, SequencerStates, SequencerStatus, SequencerStatuses
    from quantify_scheduler.instrument_coordinator.components.qblox import ClusterComponent

    key = tuple(sorted(types.items()))
    old = _CACHE.get("now")
    if old and old[0] == key:
        return old[1:]
    if old:
        close("ic_" + qblox.CL)
        close(qblox.CL)
    name = qblox.CL
    cl = Cluster(name, dummy_cfg={s: getattr(ClusterType, "CLUSTER_" + t) for s, t in types.items()})
    st = Store()
    for slot in types:
        m = cl.modules[slot - 1]
        for i, sq in enumerate(m.sequencers):
            sq.parameters["sequence"] = Param(st, slot, i, sq)
        m.get_acquisitions = lambda seq, slot=slot, **kw: st.acquisitions(slot, seq)
        m.arm_sequencer = lambda sequencer=None, slot=slot: st.armed.add((slot, sequencer))

        def start_one(sequencer=None, slot=slot):
            if sequencer is None or (slot, sequencer) in st.armed:
                st.start()

        m.start_sequencer = start_one

        def stop_one(sequencer=None, slot=slot):
            st.armed = {k for k in st.armed if k[0] != slot}

        m.stop_sequencer = stop_one

        def delete(sequencer=None, name="", all=False, slot=slot):
            st.data.pop((slot, sequencer), None)
            st.scope.pop((slot, sequencer), None)

        m.delete_acquisition_data = delete

        def status(sequencer=None, timeout=0, slot=slot, **kw):
            s = SequencerStates.ARMED if (slot, sequencer) in st.armed else SequencerStates.STOPPED
            return SequencerStatus(SequencerStatuses.OKAY, s, [], [], [], [])

        m.get_sequencer_status = status
    cl.start_sequencer = lambda *a, **k: st.start()

    def stop(*a, **k):
        st.armed = set()

    cl.stop_sequencer = stop

    def store_scope(slot, seq, name):
        st.scope.setdefault((slot, seq), set()).add(name)

    cl.store_scope_acquisition = store_scope
    comp = ClusterComponent(cl)
    _CACHE["now"] = (key, comp, st, cl)
    return comp, st, cl


def types_of(pcs):
    return {p["slot"]: p["typ"] for p in pcs}


def sequencers(comp):
    """(slot, index) of every sequencer the compiled program uses."""
    out = []
    for m, v in comp.compiled_instructions.get(qblox.CL, {}).items():
        if isinstance(v, dict) and "sequencers" in v:
            slot = int(re.search(r"module(\d+)", m).group(1))
            out += [(slot, int(n[3:]), sv) for n, sv in v["sequencers"].items()]
    return out


def num(x):
    x = float(x)
    if math.isnan(x):
        return NAN
    return max(-2_000_000_000, min(2_000_000_000, round(x * SCALE)))


def export_data(ds, chans, reps):
    """The retrieved dataset, one record per channel and scaled integers."""
    import numpy as np

    out = []
    if ds is None:
        return out
    for ch, a in ds.items():
        dim = f"acq_index_{ch}"
        e = {"ch": chans.get(str(ch), -1), "proto": a.attrs.get("acq_protocol", ""), "type": type(ch).__name__,
             "dims": [{"repetition": "r", dim: "i", f"trace_index_{ch}": "t"}.get(d, "?") for d in a.dims],
             "reps": [int(x) for x in a.coords["repetition"].values] if "repetition" in a.coords else [],
             "ix": [int(x) for x in a.coords[dim].values] if dim in a.coords else [-1],
             "tix": [int(x) for x in a.coords[f"trace_index_{ch}"].values] if f"trace_index_{ch}" in a.coords else [],
             "counts": [int(x) for x in a.coords[f"counts_{ch}"].values] if f"counts_{ch}" in a.coords else []}
        known = {"repetition", dim, f"trace_index_{ch}", f"counts_{ch}"}
        cs = {c: a.coords[c] for c in a.coords if c not in known}

        def coord(name, i, d):
            if name not in cs:
                return -1
            v = cs[name]
            x = float(v.values[i] if v.dims == (d,) else v.values) if v.dims in ((d,), ()) else -2
            return -1 if math.isnan(x) else int(x)

        n = len(e["ix"])
        e["coords"] = [{"legacy": coord(f"acq_index_legacy_{ch}", i, dim), "rep": coord(f"loop_repetition_{ch}", i, dim),
                        "user": coord(f"user_{ch}", i, dim), "more": len(set(cs) - {f"acq_index_legacy_{ch}", f"loop_repetition_{ch}", f"user_{ch}"})}
                       for i in range(n)]
        v = np.asarray(a.values)
        # rows: [repetition][index][sample]
        if "repetition" not in a.dims:
            v = v[None, ...]
        if v.ndim == 2:
            v = v[:, :, None]
        cplx = np.iscomplexobj(v)
        e["re"] = [[[num(x.real if cplx else x) for x in r] for r in rr] for rr in v]
        e["im"] = [[[num(x.imag) if cplx else 0 for x in r] for r in rr] for rr in v]
        out.append(e)
    return out


# ------------------------------------------------------------ settings on the instrument
SEQ = {"init_offset_awg_path_I": "offset_awg_path0", "init_offset_awg_path_Q": "offset_awg_path1",
       "init_gain_awg_path_I": "gain_awg_path0", "init_gain_awg_path_Q": "gain_awg_path1",
       "integration_length_acq": "integration_length_acq", "thresholded_acq_rotation": "thresholded_acq_rotation",
       "thresholded_acq_threshold": "thresholded_acq_threshold", "ttl_acq_threshold": "ttl_acq_threshold",
       "ttl_acq_input_select": "ttl_acq_input_select", "ttl_acq_auto_bin_incr_en": "ttl_acq_auto_bin_incr_en",
       "thresholded_acq_trigger_write_address": "thresholded_acq_trigger_address",
       "thresholded_acq_trigger_write_en": "thresholded_acq_trigger_en",
       "mixer_corr_phase_offset_degree": "mixer_corr_phase_offset_degree", "mixer_corr_gain_ratio": "mixer_corr_gain_ratio"}
MOD = {"QCM": {"offset_ch0_path_I": "out0_offset", "offset_ch0_path_Q": "out1_offset", "offset_ch1_path_I": "out2_offset",
               "offset_ch1_path_Q": "out3_offset"},
       "QRM": {"offset_ch0_path_I": "out0_offset", "offset_ch0_path_Q": "out1_offset", "in0_gain": "in0_gain", "in1_gain": "in1_gain"},
       "QCM_RF": {"lo0_freq": "out0_lo_freq", "lo1_freq": "out1_lo_freq", "out0_att": "out0_att", "out1_att": "out1_att",
                  "offset_ch0_path_I": "out0_offset_path0", "offset_ch0_path_Q": "out0_offset_path1",
                  "offset_ch1_path_I": "out1_offset_path0", "offset_ch1_path_Q": "out1_offset_path1"},
       "QRM_RF": {"lo0_freq": "out0_in0_lo_freq", "out0_att": "out0_att", "in0_att": "in0_att",
                  "offset_ch0_path_I": "out0_offset_path0", "offset_ch0_path_Q": "out0_offset_path1"}}


def text(x):
    x = getattr(x, "value", x)
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, (int, float)):
        return f"{float(x):.9g}"
    return str(x)


def wiring(typ, ch, acq):
    """Which paths of a sequencer go to which outputs and inputs for a channel of a module."""
    kind, io, n = ch.split("_")[:3]
    n = int(n) if n.isdigit() else 0
    out = {}
    if typ in ("QCM", "QRM"):
        k = 4 if typ == "QCM" else 2
        for i in range(k):
            out[f"connect_out{i}"] = "off"
        if io == "output" and kind == "complex":
            out[f"connect_out{2 * n}"], out[f"connect_out{2 * n + 1}"] = "I", "Q"
        elif io == "output" and kind == "real":
            out[f"connect_out{n}"] = "I"
        if typ == "QRM" and acq:
            a = {0, 1} if kind == "complex" else {n}
            out["connect_acq_I"] = "in0" if 0 in a else "off"
            out["connect_acq_Q"] = "in1" if 1 in a else "off"
    elif typ in ("QCM_RF", "QRM_RF"):
        for i in range(2 if typ == "QCM_RF" else 1):
            out[f"connect_out{i}"] = "IQ" if io == "output" and kind == "complex" and i == n else "off"
        if typ == "QRM_RF" and acq:
            out["connect_acq"] = "in0"
    return out


def settings(comp, pcs, cl, where):
    """[what, want, got] for every setting of the compiled program and the wiring of its channels.
    where: (slot, seq) -> (pc, acquires?)"""
    out = []
    for m, v in comp.compiled_instructions.get(qblox.CL, {}).items():
        if not (isinstance(v, dict) and "sequencers" in v):
            continue
        slot = int(re.search(r"module(\d+)", m).group(1))
        typ = types_of(pcs)[slot]
        mod = cl.modules[slot - 1]
        for a, p in MOD.get(typ, {}).items():
            x = getattr(v["settings"], a, None)
            if x is not None:
                out.append({"w": f"{slot}.{p}", "want": text(x), "got": text(mod.parameters[p].cache())})
        for name, sv in v["sequencers"].items():
            i = int(name[3:])
            sq = mod.sequencers[i]
            want = {}
            for a, p in SEQ.items():
                x = getattr(sv, a, None)
                if x is not None:
                    want[p] = text(x)
            if typ != "QTM":
                want["mod_en_awg"] = text(bool(sv.nco_en))
                if sv.nco_en:
                    want["nco_freq"] = text(sv.modulation_freq)
                pc, acq = where[(slot, i)]
                want.update(wiring(typ, pcs[pc]["ch"], acq))
                if typ.startswith("QRM"):
                    want["demod_en_acq"] = text(bool(sv.nco_en))
            for a, t in (sv.thresholded_acq_trigger_read_settings or {}).items():
                want[f"trigger{a}_threshold_invert"] = text(t.thresholded_acq_trigger_invert)
                if t.thresholded_acq_trigger_count is not None:
                    want[f"trigger{a}_count_threshold"] = text(t.thresholded_acq_trigger_count)
            for p, x in want.items():
                out.append({"w": f"{slot}.{i}.{p}", "want": x, "got": text(sq.parameters[p].cache())})
    return out
