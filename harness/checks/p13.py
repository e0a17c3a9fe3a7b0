"""P13: merging virtual Z rotations never changes what the schedule does."""
from __future__ import annotations

import random

from .. import gates as G
from .. import ir


def rand_gate(rng, d):
    dev = d["dev"]
    q = rng.choice(list(dev)[:2])
    e = dev[q]
    r = rng.random()
    if r < 0.6:
        if rng.random() < 0.3:
            n = rng.choice([x for x, y in G.NAMED.items() if y[0] == "rz"])
            gt = G.g("rz", [q], G.NAMED[n][1], 0, cls=n)
        else:
            gt = G.g("rz", [q], rng.choice([60, 120, -90, 360, rng.randrange(-900, 900)]))
        if e["kind"] == "transmon" and rng.random() < 0.12:
            gt["ov"] = [["clock", q + ".12"]]
        return gt
    if r < 0.85:
        n = rng.choice(["X", "X90", "Y90"])
        gt = G.g("rxy", [q], G.NAMED[n][1], G.NAMED[n][2], cls=n)
        if rng.random() < 0.2 and e["kind"] == "transmon":
            gt["ov"] = [["clock", q + ".12"]]
        return gt
    if r < 0.88:
        return G.g("h", [q])
    if r < 0.91:
        return G.g("measure", [q])
    if r < 0.94:
        clk = G.CLOCKS[e["kind"]][0]
        return G.g("raw", ev=[G.ev("shift", "", f"{q}.{clk}", (), [rng.randrange(-700, 700)])])
    return G.g("raw", dur=G.ns(rng.choice([0, 4, 20])))


def tree(rng, d, depth, shared, top=False):
    r = rng.random()
    if not top and (depth == 0 or r < 0.8):
        if shared and rng.random() < 0.35:
            return rng.choice(shared)
        nd = G.node(rand_gate(rng, d))
        shared.append(nd)
        return nd
    if not top and r < 0.87:
        return ir.loop(tree(rng, d, depth - 1, shared), rng.choice([1, 2, 3]))
    if not top and r < 0.9:
        subs = [s for s in shared if s["k"] == "sched"]
        if subs:
            return rng.choice(subs)
    n = rng.choice([2, 3, 4, 6, 8] if top else [1, 2, 3, 4])
    items = []
    for j in range(1, n + 1):
        refs = list(range(1, j) if d["strat"] == "asap" else range(j + 1, n + 1))
        ref = rng.choice(refs) if refs and rng.random() < 0.2 else 0
        pt = lambda: rng.choice(["", "", "", "", "start", "end", "center"])
        cons = [ir.con(ref, pt(), pt(), G.ns(rng.choice([0, 0, 0, 0, 0, 20, 40, -20])))]
        if d["strat"] == "asap" and refs and rng.random() < 0.08:
            cons.append(ir.con(rng.choice(refs), pt(), pt(), G.ns(rng.choice([0, 20]))))
        items.append(ir.item(tree(rng, d, depth - 1, shared), *cons))
    nd = ir.sched(items)
    shared.append(nd)
    return nd


def run(ctx):
    rng = random.Random(ctx.seed)
    cases = []
    for _ in range(ctx.n(2500, 40000)):
        d = G.rand_device(rng, rng.choice([["transmon", "transmon"], ["spin", "transmon"], ["transmon"]]))
        d["clocks"] = {k: max(v, 1000) for k, v in d["clocks"].items()}
        for e in d["dev"].values():
            e["rxy_dur"] = G.ns(20)
        d["strat"] = rng.choice(["asap", "asap", "alap"])
        cases.append((d, d["strat"], tree(rng, d, 2, [], top=True)))
    # all short sequences of rotations and pulses on one qubit, with every relative time
    small = G.rand_device(random.Random(5), ["transmon"])
    small["clocks"] = {k: max(v, 1000) for k, v in small["clocks"].items()}
    small["dev"]["q0"]["rxy_dur"] = G.ns(20)
    z, z2, x = (G.g("rz", ["q0"], 60), G.g("rz", ["q0"], 100), G.g("rxy", ["q0"], 360, 0, cls="X"))
    import itertools
    fam = []
    for n in (2, 3, 4):
        for ks in itertools.product((z, z2, x), repeat=n):
            for rels in itertools.product((0, 20, -20), repeat=n - 1):
                for strat in ("asap", "alap"):
                    fam.append((ks, (0, *rels) if strat == "asap" else (*rels, 0), strat))
    rng.shuffle(fam)
    for ks, rels, strat in fam[: ctx.n(1200, len(fam))]:
        nodes = {id(k): G.node(k) for k in (z, z2, x)}
        cases.append((small, strat, ir.sched([ir.item(nodes[id(k)], ir.con(0, "", "", G.ns(r))) for k, r in zip(ks, rels)])))
    G.judge(ctx, cases)
    ctx.notes["rule"] = "short sequences of Rz/X with relative times (exhaustive in the thorough tier), random nested schedules"
    ctx.assumptions = ["the compared observable: every pulse and acquisition with the frame of its clock, and the final frames"]
