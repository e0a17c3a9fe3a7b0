"""P11: gates compile to the pulses that the device configuration prescribes."""
from __future__ import annotations

import random

from .. import gates as G
from .. import ir


def rand_gate(rng, d):
    dev = d["dev"]
    q = rng.choice(list(dev)) if rng.random() < 0.99 else "zz"
    e = dev.get(q, {"kind": "transmon"})
    kind = e["kind"]
    know = {"transmon": ["rxy"] * 3 + ["rz"] * 2 + ["h", "reset", "measure", "measure", "measure", "cz", "cz"],
            "spin": ["rxy"] * 3 + ["rz"] * 2 + ["h", "reset", "measure", "measure", "measure", "cz", "cz"],
            "nv": ["rxy", "rxy", "reset", "charge_reset", "measure", "measure", "cr_count", "spec"], "sensor": ["measure"]}
    op = rng.choice(know[kind])
    if rng.random() < 0.01:
        op = rng.choice(["rz", "h", "charge_reset", "spec", "cz"])
    ov = []

    def over(k, v, p=0.12):
        if rng.random() < p:
            ov.append([k, v])

    if op in ("rxy", "rz") and rng.random() < 0.35:
        n = rng.choice([x for x, y in G.NAMED.items() if y[0] == op])
        _, th, ph = G.NAMED[n]
        gt = G.g(op, [q], th, ph, cls=n)
    elif op == "rxy":
        gt = G.g(op, [q], rng.choice([0, 360, 180, -180, -360, 540, rng.randrange(-1500, 1500)]),
                 rng.choice([0, 180, 720, -90, rng.randrange(-1500, 1500)]))
    elif op == "rz":
        gt = G.g(op, [q], rng.choice([0, 360, 180, -180, -360, rng.randrange(-1500, 1500)]))
    elif op == "cz":
        others = [x for x in dev if x != q and dev[x]["kind"] == kind] or ["zz"]
        gt = G.g(op, [q, rng.choice(others)])
        if d["edges"] and rng.random() < 0.9:
            e = rng.choice(d["edges"])
            gt = G.g(op, [e["parent"], e["child"]] if rng.random() < 0.6 else [e["child"], e["parent"]])
        elif rng.random() < 0.85:
            gt = G.g("reset" if kind != "sensor" else "measure", [q])
            op = gt["op"]
    elif op in ("measure", "cr_count"):
        same = [x for x in dev if op in ("measure",) or dev[x]["kind"] == "nv"]
        qs = [q] if rng.random() < 0.6 else rng.sample(same, rng.randrange(1, len(same) + 1))
        optical = all(dev.get(x, {}).get("kind") == "nv" for x in qs)
        mixed = any(dev.get(x, {}).get("kind") == "nv" for x in qs) and not optical
        if optical:
            prots = ["", "TriggerCount", "Trace", "Timetag", "TimetagTrace"]
            if op == "cr_count":
                prots = ["", "TriggerCount", "Trace"]
        elif mixed:
            prots = ["", "Trace"]
        else:
            prots = ["", "", "SSBIntegrationComplex", "Trace", "ThresholdedAcquisition", "LongTimeTrace", *sorted(
                ["NumericalSeparatedWeightedIntegration", "NumericalWeightedIntegration", "WeightedThresholdedAcquisition"])]
        prot = rng.choice(prots)
        m = {"protocol": prot, "bin": rng.choice(["", "", "append", "average"]),
             "chan": rng.choice(["", "", "", "5", "s:mine"])}
        if prot == "LongTimeTrace" and rng.random() < 0.9:
            m["bin"] = "append"
        if prot == "Trace" or optical or mixed:
            m["bin"] = rng.choice(["", "append"]) if (optical or mixed) and prot != "Trace" else ("" if not optical else rng.choice(["", "average"]))
        if "Thresholded" in prot:
            m["label"] = rng.choice(["", "lab"])
        if op == "measure" and not optical and not mixed and d["strat"] == "asap" and rng.random() < 0.25:
            m["delayed"] = 0
        gt = G.g(op, qs, m=m, idx=[rng.choice([-1, -1, 0, 3]) for _ in qs])
    elif op == "reset":
        qs = [q] if rng.random() < 0.6 else rng.sample(list(dev), rng.randrange(1, len(dev) + 1))
        if any(dev[x]["kind"] == "sensor" for x in qs if x in dev) and rng.random() < 0.9:
            qs = [q]
        gt = G.g(op, qs)
    else:
        gt = G.g(op, [q])
    if op in ("rxy", "h", "rz"):
        if kind != "nv" or op == "rxy":
            over("amp180", rng.randrange(-900, 900))
            over("duration", G._dur(rng))
            over("port", q + ":other", 0.05)
            if kind == "transmon":
                over("motzoi", rng.randrange(-900, 900))
                over("clock", q + ".12", 0.1)
            if kind == "nv":
                over("skewness", rng.randrange(-900, 900))
                over("pulse_shape", rng.choice(["SkewedHermitePulse", "GaussPulse"]))
    elif op == "measure" and all(dev.get(x, {}).get("kind") not in ("nv", None) for x in gt["q"]):
        over("pulse_amp", rng.randrange(1, 900))
        over("pulse_duration", G._dur(rng))
        over("acq_delay", G.ns(rng.choice([0, 60])))
        over("acq_duration", G._dur(rng))
        over("freq", rng.randrange(1000, 9000000))
        over("reset_clock_phase", rng.choice([0, 1]))
        over("acq_rotation", rng.randrange(0, 360))
        over("acq_threshold", rng.randrange(0, 100))
        over("num_points", rng.choice([1, 3]))
        over("port", "other:res", 0.05)
    elif op == "reset":
        over("duration", G._dur(rng))
    elif op == "cz":
        over("square_amp", rng.randrange(1, 900))
        over("square_duration", G._dur(rng))
        over("virt_z_parent_qubit_phase", rng.randrange(-700, 700))
        over("virt_z_child_qubit_phase", rng.randrange(-700, 700))
    gt["ov"] = ov
    return gt


def tree(rng, d, depth, shared, top=False):
    r = rng.random()
    if not top and (depth == 0 or r < 0.7):
        if shared and rng.random() < 0.15:
            return rng.choice(shared)
        nd = G.node(rand_gate(rng, d) if rng.random() < 0.93 else G.g("raw", dur=G._dur(rng)))
        shared.append(nd)
        return nd
    if not top and r < 0.8:
        return ir.loop(tree(rng, d, depth - 1, shared), rng.choice([1, 2, 3]))
    if not top and r < 0.83:
        return ir.cond(tree(rng, d, depth - 1, shared), "lab", 0)
    n = rng.choice([1, 2, 3, 4, 5, 6] if top else [1, 2, 3])
    items = []
    for j in range(1, n + 1):
        refs = range(1, j) if d["strat"] == "asap" else range(j + 1, n + 1)
        ref = rng.choice(list(refs)) if refs and rng.random() < 0.4 else 0
        pts = ["", "", "start", "end", "center"]
        items.append(ir.item(tree(rng, d, depth - 1, shared),
                             ir.con(ref, rng.choice(pts), rng.choice(pts), G.ns(rng.choice([0, 0, 0, 20, -8])))))
    return ir.sched(items)


def run(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    for _ in range(ctx.n(2200, 30000)):
        d = G.rand_device(rng)
        d["strat"] = rng.choice(["asap", "asap", "asap", "alap"])
        cases.append((d, d["strat"], tree(rng, d, 2, [], top=True)))
    G.judge(ctx, cases)
    ctx.notes["rule"] = "random devices (transmon, spin, charge sensor, NV; edges), random gates with overrides, nested"
    ctx.assumptions = ["at most one acquisition delay policy per multiplexed measurement", "times on a 1/64 ns grid"]
