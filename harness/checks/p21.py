"""P21: what schedules tell about themselves, and how they are put together."""
from __future__ import annotations

import json
import random

from .. import common, ir, ops

TECHNIQUE = ("TLA+ specification of a schedule's rows and signals, judged by TLC on recorded timing tables, queries and diagrams; and of "
             "schedule building histories (spec/Building.tla), whose behaviours are replayed on real Schedule objects")
NOTE = "diagrams are judged by the sampled signals they draw, without modulation; gate-level circuit drawings are not covered"
PCS = [{"port": "q0:a", "clock": "cl0.baseband", "freq": None}, {"port": "q0:b", "clock": "ck1", "freq": 50e6},
       {"port": "q0:b", "clock": "ck2", "freq": 20e6}, {"port": "q1:r", "clock": "ck2", "freq": 20e6}]
PORTS = [p["port"] for p in PCS]
FREQS = [{"name": "ck1", "freq": 50}, {"name": "ck2", "freq": 20}]
WHY = ("unknown clock", "Inconsistent clock", "no schedulables", "Acyclic", "not found in schedulables")
FAR = 2 * 10**9


# ------------------------------------------------------------------ operations
def make_multi(b, B):
    from quantify_scheduler.operations.operation import Operation

    o = Operation(b["name"])
    for part in b["parts"]:
        x = ops.make(part, B)
        o.add_pulse(x)
        o.add_acquisition(x)
    return o


def make_window(b, B):
    from quantify_scheduler.operations.pulse_library import WindowOperation

    return WindowOperation(window_name=b["name"], duration=B.t(b["dur"]), t0=B.t(b["t0"]))


def make_stamp(b, B):
    from quantify_scheduler.operations.pulse_library import Timestamp

    return Timestamp(t0=B.t(b["t0"]), **ops._pc(b, B))


ops.mk_multi, ops.mk_window, ops.mk_stamp = make_multi, make_window, make_stamp


def rows(b):
    """One row per pulse and acquisition."""
    k = b["kind"]
    if k == "multi":
        parts = [r for p in b["parts"] for r in rows(p)]
        for acq in (False, True):
            for i, r in enumerate([r for r in parts if r["acq"] == acq]):
                r["wf"] = i
        return parts
    port = clock = ""
    if "pc" in b:
        port, clock = PCS[b["pc"]]["port"], PCS[b["pc"]]["clock"]
    elif k in ("idle", "window"):
        clock = "cl0.baseband"
    elif "clock" in b:
        clock = b["clock"]
    zero = k in ("offset", "phase", "reset", "setfreq", "stamp")
    return [{"port": port, "clock": clock, "t0": b.get("t0", 0), "d": 0 if zero else b["dur"], "acq": k == "acq", "wf": 0,
             "a": json.dumps({x: v for x, v in b.items() if x != "t0"}, sort_keys=True, default=str) if k == "acq" else ""}]


def leaf(rng, tabs, depth=0):
    k = rng.choice(["square"] * 4 + ["ramp", "soft", "drag", "numerical", "offset", "offset", "offset", "phase", "reset", "setfreq", "marker",
                    "idle", "acq", "acq", "window", "stamp", "multi", "multi"])
    pc, d, t0 = rng.randrange(len(PCS)), rng.choice([4, 7, 20, 40, rng.randrange(2, 120)]), rng.choice([0, 0, 0, 4, 13])
    amp = rng.choice([0.5, -0.25, round(rng.uniform(-1, 1), 3), complex(round(rng.uniform(-1, 1), 3), 0.25)])
    if k == "square":
        return ops.square(pc, amp, d, t0)
    if k == "ramp":
        return ops.wave(tabs, "ramp", pc, d, t0, amp=rng.choice([0.5, -0.75, 1.0]), offset=rng.choice([0.0, 0.125]))
    if k == "soft":
        return ops.wave(tabs, "soft", pc, max(d, 8), t0, amp=0.5)
    if k == "drag":
        return ops.wave(tabs, "drag", pc, max(d, 8), t0, g=0.5, dd=0.25, phase=rng.choice([0, 90, 33]))
    if k == "numerical":
        n, step = rng.randrange(2, 6), rng.choice([1, 4, 10])
        return ops.wave(tabs, "numerical", pc, (n - 1) * step, t0, samples=[round(rng.uniform(-1, 1), 2) for _ in range(n)], step=step)
    if k == "offset":
        return ops.offset(pc, rng.choice([0.0, 0.0, 0.25, -0.5]), rng.choice([0.0, 0.0, 0.125]), t0)
    if k == "phase":
        return ops.phase(1, rng.choice([90, -45, -1, -2]), "ck1", t0)
    if k == "reset":
        return ops.reset(1, "ck1", t0)
    if k == "setfreq":
        return ops.setfreq(1, "ck1", rng.choice([50e6, 60e6]), 0, t0)
    if k == "marker":
        return ops.marker(0, 0, d, t0)
    if k == "idle":
        return ops.idle(d)
    if k == "acq":
        return ops.acq(rng.choice(["ssb", "trace", "ttl"]), pc, d, rng.randrange(3), t0, mode="average", index=rng.choice([0, 1]))
    if k == "window":
        return ir.op({"kind": "window", "name": rng.choice(["w", "v"]), "dur": d, "t0": t0}, d + t0)
    if k == "stamp":
        return ir.op({"kind": "stamp", "pc": pc, "t0": t0}, t0)
    parts = []
    while not parts or rng.random() < 0.6:
        p = leaf(rng, tabs, 1)
        if p["b"]["kind"] != "multi" and not (depth and p["b"]["kind"] == "idle"):
            parts.append(p)
    name = "m" + str(abs(hash(json.dumps([p["b"] for p in parts], default=str))) % 10**9)
    return ir.op({"kind": "multi", "name": name, "parts": [p["b"] for p in parts]}, max(p["dur"] for p in parts),
                 [e for p in parts for e in p["ev"]])


def tree(rng, depth, tabs, shared, top=False):
    r = rng.random()
    if not top and (depth == 0 or r < 0.55):
        if shared and r < 0.1:
            return rng.choice(shared)
        x = leaf(rng, tabs)
        shared.append(x)
        return x
    if not top and r < 0.68:
        return ir.loop(tree(rng, depth - 1, tabs, shared), rng.choice([1, 2, 3, 5]))
    if not top and r < 0.76:
        return ir.cond(tree(rng, depth - 1, tabs, shared), "q0", rng.choice([0, 16]))
    items = []
    n = rng.choice([1, 2, 3, 4, 6])
    for j in range(1, n + 1):
        r = rng.random()
        ref = rng.randrange(0, j)
        c = ir.con() if r < 0.5 else ir.con(ref, rng.choice(["", "start", "end"]), rng.choice(["", "start", "end"]), rng.choice([0, 0, 4, 20, -10, 33]))
        items.append(ir.item(tree(rng, depth - 1, tabs, shared), c))
    x = ir.sched(items, reps=rng.choice([1, 1, 3]) if top else 1)
    if not top:
        shared.append(x)
    return x


# ------------------------------------------------------------------ observation
def units(x):
    r = round(x * 1e9)
    return r if abs(x * 1e9 - r) < 1e-4 else FAR


def idents(order):
    """Operations with equal arguments are one."""
    key = lambda nd: json.dumps(nd["b"], sort_keys=True, default=str)
    seen = {}
    return {id(nd): seen.setdefault(key(nd), len(seen) + 1) for nd in order if nd["k"] == "op"}


def table(compiled, names):
    import pandas as pd

    out = []
    for r in compiled.timing_table.data.to_dict("records"):
        s = lambda v: "" if v is None or pd.isna(v) else v
        ok = r["waveform_op_id"].startswith(r["operation"])
        out.append({"id": names.get(r["operation"], 0) if ok else -1, "port": s(r["port"]), "clock": s(r["clock"]), "t": units(r["abs_time"]),
                    "d": units(r["duration"]), "acq": bool(r["is_acquisition"]), "wf": int(r["wf_idx"])})
    return out


def signals(compiled, rng, end):
    """Samples of the drawn signals, and the drawn acquisition windows."""
    import numpy as np
    from quantify_scheduler.schedules._visualization.pulse_diagram import sample_schedule

    kw, lo, hi = {}, 0, end
    if rng.random() < 0.4 and end > 8:
        lo = rng.randrange(0, end - 4)
        hi = rng.randrange(lo + 3, end + 1)
        kw["x_range"] = (lo * 1e-9, hi * 1e-9)
    ports = None
    if rng.random() < 0.3:
        ports = rng.sample(PORTS, 2)
        kw["port_list"] = ports
    data = sample_schedule(compiled, **kw)
    if "x_range" in kw:
        lo, hi = lo + 1, hi - 1
    sig, win = [], []
    marks = sorted({p["t"] + dt for p in table(compiled, {}) for dt in (0, p["d"], p["d"] - 1, -1, 1)} | {0, end - 1})
    for port in sorted(set(ports or PORTS)):
        pulses, acqs = data.get(port, ([], []))
        win += [{"port": port, "t": units(a.t0), "d": units(a.duration)} for a in acqs]
        probes = [t for t in marks if lo <= t < hi]
        probes = sorted(set(rng.sample(probes, min(10, len(probes))) + [rng.randrange(lo, hi) for _ in range(6) if hi > lo]))
        for t in probes:
            v = 0
            for p in pulses:
                v += complex(np.interp((t + 1e-6) * 1e-9, p.time, np.asarray(p.signal, dtype=complex), left=0, right=0))
            sig.append({"port": port, "t": t, "I": ops.q(v.real), "Q": ops.q(v.imag)})
    if ports and set(data) - set(ports):
        sig.append({"port": PORTS[0], "t": 0, "I": FAR, "Q": FAR})
    return sig, win, not ports


def observe(case):
    from quantify_scheduler import SerialCompiler

    root, seed = case
    rng = random.Random(seed)
    order, _ = ir.flat(root)
    ident = idents(order)
    B = ir.Builder(PCS, 1e-9)
    obs = {"res": "ok", "rows": [], "pcs": [], "acqs": [], "clk": [], "dur": 0, "sig": [], "win": []}
    try:
        c = SerialCompiler("c").compile(B.top(root), config())
    except Exception as e:  # noqa: BLE001
        return {**obs, "res": "reject"}, repr(e)[:200], False
    for nd in order:
        if id(nd) not in B.memo:
            B.build(nd)
    names = {str(B.memo[id(nd)][0]): ident[id(nd)] for nd in order if nd["k"] == "op"}
    acqs = {}
    for nd in order:
        if nd["k"] == "op":
            for r, a in zip([r for r in rows(nd["b"]) if r["acq"]], B.memo[id(nd)][0]["acquisition_info"]):
                acqs[acq_key(a)] = r["a"]
    # shapes that depend on all samples are drawn approximately
    drawn = not any(k in json.dumps(nd["b"], default=str) for nd in order if nd["k"] == "op" for k in ('"soft"', '"drag"'))
    return look(c, names, acqs, rng, obs, drawn)


def repr_all(o):
    """The whole content, nested schedules included."""
    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    if isinstance(o, ScheduleBase):
        return [repr({k: v for k, v in o.data.items() if k != "operation_dict"}), [repr_all(x) for x in o.operations.values()]]
    if isinstance(o, ControlFlowOperation):
        return [repr({k: v for k, v in o.data["control_flow_info"].items() if k != "body"}), repr_all(o.body)]
    return repr(o.data)


def acq_key(a):
    return repr(sorted((k, repr(v)) for k, v in a.items() if k not in ("t0", "waveforms")))


def clocks(o):
    """All definitions of clocks, nested schedules included."""
    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
    from quantify_scheduler.schedules.schedule import ScheduleBase

    if isinstance(o, ScheduleBase):
        mine = [{"name": r.name, "freq": round(r["freq"] / 1e6)} for r in o.resources.values() if r.name not in ("cl0.baseband", "digital")]
        return mine + [x for y in o.operations.values() for x in clocks(y)]
    return clocks(o.body) if isinstance(o, ControlFlowOperation) else []


def look(c, names, acqs, rng, obs, drawn):
    from quantify_scheduler.helpers.schedule import get_acq_info_by_uuid

    err = ""
    try:
        obs["rows"] = table(c, names)
    except Exception as e:  # noqa: BLE001
        obs["rows"] = []
        err += " table: " + repr(e)[:200]
    obs["pcs"] = sorted([list(x) for x in c.get_used_port_clocks()])
    obs["clk"] = clocks(c)
    obs["acqs"] = [acqs.get(acq_key(a), "unknown") for a in get_acq_info_by_uuid(c).values()]
    obs["dur"] = units(c.get_schedule_duration())
    full = False
    try:
        if not drawn:
            return obs, err, False
        before = repr_all(c)
        obs["sig"], obs["win"], full = signals(c, rng, units(c.get_schedule_duration() / c.repetitions))
        if before != repr_all(c):
            err += " diagram changed the schedule"
    except Exception as e:  # noqa: BLE001
        obs["sig"] = [{"port": PORTS[0], "t": 0, "I": FAR, "Q": FAR}]
        err += " diagram: " + repr(e)[:200]
    return obs, err, full


# ------------------------------------------------------------------ building
def pool():
    """The operations that are added, as arguments and events (12, see BuildingSim.cfg)."""
    tabs = ops.Tabs()
    sq = ops.square(1, 0.25, 12)
    aq = ops.acq("ssb", 3, 30, 2, mode="average", index=0)
    out = [ops.phase(1, -1, "ck1"), ops.phase(1, -2, "ck1"), ops.square(1, -1.0, 16), ops.square(0, 0.5, 20, 4),
           ops.acq("ssb", 3, 20, 0, mode="average", index=0), ops.acq("ssb", 3, 20, 1, mode="average", index=0),
           ops.wave(tabs, "numerical", 1, 8, 0, samples=[-1.0, 0.0, 1.0], step=4),
           ops.wave(tabs, "numerical", 1, 8, 0, samples=[-2.0, 0.0, 1.0], step=4),
           ops.idle(20), ops.offset(2, 0.25, 0.0),
           ir.op({"kind": "multi", "name": "both", "parts": [sq["b"], aq["b"]]}, 30, sq["ev"] + aq["ev"]),
           ops.setfreq(1, "ck1", 60e6, 0)]
    return out, tabs.t


def content(heap, labels, known):
    """The real schedules, in the terms of the specification."""
    from quantify_scheduler.operations.control_flow_library import LoopOperation
    from quantify_scheduler.schedules.schedule import Schedule

    index = {id(s): i + 1 for i, s in enumerate(heap)}

    def what(o):
        if isinstance(o, Schedule):
            return {"k": "sched", "i": index.get(id(o), 0), "n": 1}
        if isinstance(o, LoopOperation):
            return {"k": "loop", "i": index.get(id(o.body), 0), "n": o.repetitions}
        return {"k": "op", "i": known.get(repr(o.data), 0), "n": 1}

    out = []
    for s, lab in zip(heap, labels):
        name = lambda x: lab.get(x, x)
        items = []
        for key, x in s.schedulables.items():
            cons = [{"ref": "" if c.ref_schedulable is None else name(c.ref_schedulable), "rp": c.ref_pt or "", "rpn": c.ref_pt_new or "",
                     "rel": round(c.rel_time * 1e9)} for c in x["timing_constraints"]]
            consistent = key == x["name"] == x["label"] == str(x)
            items.append({"lab": name(key) if consistent else "?", "what": what(s.operations[x["operation_id"]]), "cons": cons})
        res = [{"name": k, "freq": round(r["freq"] / 1e9)} for k, r in s.resources.items()
               if k == r.name and k not in ("cl0.baseband", "digital")]
        fine = len(res) + 2 == len(s.resources)
        out.append({"name": s.name, "reps": s.repetitions, "res": res if fine else ["?"], "items": items})
    return out


def build(case):
    """Replay one history; returns (violation, cases for the specification of tables)."""
    from copy import deepcopy

    from quantify_scheduler import ClockResource, Schedule, SerialCompiler
    from quantify_scheduler.operations.control_flow_library import LoopOperation

    h, seed = case
    nodes, tabs = pool()
    B = ir.Builder(PCS, 1e-9, share=False)
    make = lambda i: B.build(nodes[i - 1])
    known = {repr(make(i).data): i for i in range(1, len(nodes) + 1)}
    heap, labels = [Schedule("s1"), Schedule("s2")], [{}, {}]

    def ref(s, k, r):
        if r == "":
            return None
        key = next((x for x, m in labels[s].items() if m == r), r)
        return heap[s].schedulables[key] if k % 2 and key in heap[s].schedulables else key

    def obj(w):
        return make(w["i"]) if w["k"] == "op" else heap[w["i"] - 1] if w["k"] == "sched" else LoopOperation(body=heap[w["i"] - 1], repetitions=w["n"])

    for k, st in enumerate(h):
        s, a, do, msg = st["s"] - 1, st["arg"], st["do"], ""
        try:
            if do == "add":
                c = a["con"]
                x = heap[s].add(obj(a["what"]), rel_time=c["rel"] * 1e-9, ref_op=ref(s, k, c["ref"]), ref_pt=c["rp"] or None,
                                ref_pt_new=c["rpn"] or None, label=a["lab"] or None)
                if heap[s].schedulables.get(str(x)) is not x:
                    return ("returned", f"step {k}: the schedulable returned is not the one added"), []
                if not a["lab"]:
                    labels[s][str(x)] = f"#{len(heap[s].schedulables)}"
            elif do == "add-wrong":
                heap[s].add({"none": None, "text": "X", "class": Schedule, "dict": dict(make(3).data)}[a], label=f"w{k}")
            elif do == "constrain":
                c = a["con"]
                list(heap[s].schedulables.values())[a["j"] - 1].add_timing_constraint(
                    rel_time=c["rel"] * 1e-9, ref_schedulable=ref(s, k, c["ref"]), ref_pt=c["rp"], ref_pt_new=c["rpn"])
            elif do == "resources":
                rs = [ClockResource(r["name"], r["freq"] * 1e9) for r in a]
                if len(rs) == 1 and k % 2:
                    heap[s].add_resource(rs[0])
                else:
                    heap[s].add_resources(rs)
            elif do == "resource-wrong":
                heap[s].add_resource({"none": None, "text": "ck1", "operation": make(3)}[a])
            elif do == "repetitions":
                heap[s].repetitions = a
            elif do == "rename":
                heap[s]["name"] = a
            elif do == "new":
                heap.append(Schedule(a))
                labels.append({})
            elif do == "copy":
                src = heap[s]
                new = deepcopy(src)
                if not (new == src and new.hash == src.hash):
                    return ("copy-differs", f"step {k}"), []
                pairs = {}

                def walk(x, y):
                    if isinstance(x, Schedule):
                        if pairs.setdefault(id(x), y) is not y:
                            raise RuntimeError("one schedule became two")
                        for p, q in zip(x.schedulables.values(), y.schedulables.values()):
                            walk(x.operations[p["operation_id"]], y.operations[q["operation_id"]])
                    elif isinstance(x, LoopOperation):
                        walk(x.body, y.body)

                walk(src, new)
                for i, nm in zip(a["from"], a["names"]):
                    y = pairs[id(heap[i - 1])]
                    y["name"] = nm
                    heap.append(y)
                    labels.append(dict(labels[i - 1]))
            res = "ok"
        except Exception as e:  # noqa: BLE001
            res, msg = type(e).__name__, str(e)[:200]
        if res != st["res"]:
            return ("result", f"step {k} {do} {a}: {res} {msg}, expected {st['res']}"), []
        got = content(heap, labels, known)
        for i, (want, have) in enumerate(zip(st["heap"], got)):
            if want != have:
                return ("content", f"step {k} {do} {s + 1} {a}: schedule {i + 1} is {have}, expected {want}"), []
        if len(got) != len(st["heap"]):
            return ("content", f"step {k} {do}: {len(got)} schedules"), []
    # what the schedules say when they are compiled
    out, rng, H = [], random.Random(seed), h[-1]["heap"]
    for top in range(len(H)):
        memo = {}

        def node(i):
            if i not in memo:
                its = []
                labs = [x["lab"] for x in H[i]["items"]]
                for x in H[i]["items"]:
                    w = x["what"]
                    nd = nodes[w["i"] - 1] if w["k"] == "op" else node(w["i"] - 1)
                    cons = [ir.con(0 if c["ref"] == "" else labs.index(c["ref"]) + 1 if c["ref"] in labs else -1, c["rp"], c["rpn"], c["rel"])
                            for c in x["cons"]]
                    its.append(ir.item(ir.loop(nd, w["n"]) if w["k"] == "loop" else nd, *cons))
                memo[i] = ir.sched(its, reps=H[i]["reps"])
            return memo[i]

        root = node(top)
        order, _ = ir.flat(root)
        obs = {"res": "ok", "rows": [], "pcs": [], "acqs": [], "clk": [], "dur": 0, "sig": [], "win": []}
        try:
            c = SerialCompiler("c").compile(heap[top], config())
        except Exception as e:  # noqa: BLE001
            obs, err, full = {**obs, "res": "reject"}, repr(e)[:200], False
        else:
            names, acqs = {}, {}
            for i, nd in enumerate(nodes):
                o = make(i + 1)
                names[str(o)] = i + 1
                for r, a in zip([r for r in rows(nd["b"]) if r["acq"]], o["acquisition_info"]):
                    acqs[acq_key(a)] = r["a"]
            obs, err, full = look(c, names, acqs, rng, obs, True)
        js = ir.export(root)
        at = {id(v): k for k, v in memo.items()}
        for nd, x in zip(order, js):
            if nd["k"] == "sched":
                x["res"] = [{"name": r["name"], "freq": r["freq"] * 1000} for r in H[at[id(nd)]]["res"] if r["name"] != "digital"]
            if nd["k"] == "op":
                x.update(id=1 + next(i for i, y in enumerate(nodes) if y is nd), rows=rows(nd["b"]))
        out.append(({"nodes": js, "strat": "asap", "ports": PORTS, "tabs": tabs, "obs": obs, "windows": full}, err))
    got = content(heap, labels, known)
    if got != h[-1]["heap"]:
        return ("content", f"compiling and asking changed the schedules: {got}, expected {h[-1]['heap']}"), out
    return None, out


_CFG = []


def config():
    from quantify_scheduler import BasicTransmonElement, QuantumDevice

    if not _CFG:
        qd = QuantumDevice("qd21")
        _CFG.append(qd.generate_compilation_config())
    return _CFG[0]


def run(ctx):
    import quantify_scheduler  # noqa: F401

    config()
    rng = random.Random(ctx.seed)
    cases, js = [], []
    for _ in range(ctx.n(800, 12000)):
        tabs = ops.Tabs()
        root = tree(rng, 3, tabs, [], top=True)
        if len(ir.flat(root)[0]) <= 60:
            cases.append((root, rng.randrange(10**9)))
            js.append(tabs.t)
    obs = common.pmap(observe, cases)
    out = []
    for (root, _), tabs, (o, err, full) in zip(cases, js, obs):
        order, _ = ir.flat(root)
        ident = idents(order)
        nodes = ir.export(root)
        for nd, x in zip(order, nodes):
            if nd["k"] == "sched":
                x["res"] = FREQS if nd is root else []
            if nd["k"] == "op":
                x.update(id=ident[id(nd)], rows=rows(nd["b"]))
        out.append({"nodes": nodes, "strat": "asap", "ports": PORTS, "tabs": tabs, "obs": o, "windows": full})
    errs = [err for _, err, _ in obs]
    # histories
    common.explore(ctx, "Building", timeout=600)
    tr = common.simulate(ctx, "Building", ctx.n(500, 6000), 24)
    hist = [None] * len(out)
    for h, (bad, more) in zip(tr, common.pmap(build, [(h, rng.randrange(10**9)) for h in tr])):
        if bad:
            ctx.violate(bad[0], bad[1], {"history": h})
        for j, err in more:
            out.append(j)
            errs.append(err)
            hist.append(h)
    ctx.traces += len(tr)
    verd = common.judge(ctx, "Tables", out)
    for j, err, h, vs in zip(out, errs, hist, verd):
        rep = j if h is None else {"history": h}
        if err and j["obs"]["res"] == "ok":
            ctx.violate("query-fails", err, rep)
        for cl, det in vs:
            if cl != "ok":
                ctx.violate(cl, f"{det[:300]} {err}", rep)
    ctx.samples = [out[0], tr[0][:4]]
    ctx.notes["schedules"] = {"random": len(cases), "from histories": len(out) - len(cases),
                              "rejected": sum(j["obs"]["res"] != "ok" for j in out)}
    why = [next((w for w in WHY if w in e), "other") for j, e in zip(out, errs) if j["obs"]["res"] != "ok"]
    ctx.notes["rejections"] = {w: why.count(w) for w in sorted(set(why))}


def replay(ctx, rep):
    if "history" in rep:
        bad, more = build((rep["history"], 1))
        if bad:
            ctx.violate(bad[0], bad[1], rep)
        js = [j for j, _ in more]
    else:
        js = [rep]
    for vs in common.judge(ctx, "Tables", js):
        for cl, det in vs:
            if cl != "ok":
                ctx.violate(cl, str(det)[:300], rep)
