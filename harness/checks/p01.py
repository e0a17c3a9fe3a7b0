"""P01: timing constraints resolve to the times they prescribe."""
from __future__ import annotations

import itertools
import random

from .. import common, ir

SCALE = 64          # leaves room for nested halving by centre references
UNIT = 4e-12
PCS = [{"port": "q0:a", "clock": "cl0.baseband", "freq": None}]
REFS = ["", "start", "center", "end"]


def leaf(rng, shared):
    r = rng.random()
    if shared and r < 0.15:
        return rng.choice(shared)
    d = rng.choice([0, 8, 16, 40, 80, 160, 400, 2 * rng.randrange(1, 400)])
    if r < 0.5:
        nd = ir.op({"kind": "idle", "dur": d}, d)
    else:
        t0 = rng.choice([0, 0, 0, 8, 24])
        d = max(d, 2)
        nd = ir.op({"kind": "square", "amp": round(rng.uniform(-1, 1), 3), "dur": d, "t0": t0, "pc": 0}, d + t0)
    shared.append(nd)
    return nd


def tree(rng, depth, shared, strat, top=False):
    r = rng.random()
    if not top and (depth == 0 or r < 0.45):
        return leaf(rng, shared)
    if not top and r < 0.6:
        return ir.loop(tree(rng, depth - 1, shared, strat), rng.choice([1, 2, 3, 5, 17]))
    if not top and r < 0.68:
        return ir.cond(tree(rng, depth - 1, shared, strat), "q0", rng.choice([0, 0, 16]))
    if not top and shared and r < 0.74:
        subs = [s for s in shared if s["k"] != "op"]
        if subs:
            return rng.choice(subs)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    items = []
    for j in range(1, n + 1):
        cons = [rcon(rng, j, n, strat)]
        if strat == "asap" and j > 1:
            while rng.random() < 0.25:
                cons.append(ir.con(rng.randrange(1, j), rng.choice(REFS), rng.choice(REFS), rrel(rng)))
        items.append(ir.item(tree(rng, depth - 1, shared, strat), *cons))
    nd = ir.sched(items, reps=rng.choice([1, 1, 2, 7, 40]) if top else rng.choice([1, 1, 1, 3]))
    shared.append(nd)
    return nd


def rrel(rng):
    return rng.choice([0, 0, 0, 8, 40, -8, -40, 2 * rng.randrange(-500, 500)])


def rcon(rng, j, n, strat):
    if rng.random() < 0.5:
        ref = 0
    elif strat == "asap":
        ref = rng.randrange(1, j) if j > 1 else 0
    else:
        ref = rng.randrange(j + 1, n + 1) if j < n else 0
    if rng.random() < 0.02:
        ref = rng.choice([-1, rng.randrange(1, n + 1)])   # unknown, forward or circular
    return ir.con(ref, rng.choice(REFS) if rng.random() < 0.6 else "",
                  rng.choice(REFS) if rng.random() < 0.5 else "", rrel(rng))


def bound(nd):
    """Upper bound of all times in a node (keeps TLC's 32-bit integers safe)."""
    if nd["k"] == "op":
        return nd["dur"]
    if nd["k"] == "loop":
        return nd["reps"] * bound(nd["body"])
    if nd["k"] == "cond":
        return nd["buf"] + bound(nd["body"])
    return nd["reps"] * sum(bound(it["n"]) + sum(abs(c["rel"]) for c in it["cons"]) for it in nd["items"])


def scale(root):
    for nd in ir.flat(root)[0]:
        if nd["k"] == "op":
            nd["dur"] *= SCALE
            for f in ("dur", "t0"):
                if f in nd["b"]:
                    nd["b"][f] *= SCALE
        elif nd["k"] == "cond":
            nd["buf"] *= SCALE
        elif nd["k"] == "sched":
            for it in nd["items"]:
                for c in it["cons"]:
                    c["rel"] *= SCALE


def small_family(rng, limit):
    """Every schedule of two operations with one constraint each, and three with a sample."""
    out = []
    mk = lambda d: ir.op({"kind": "idle", "dur": d}, d)
    for strat in ("asap", "alap"):
        for ref1, ref2 in itertools.product([0, 1, 2], repeat=2):
            for rp, rpn in itertools.product(REFS, repeat=2):
                for rel in (0, -24, 10):
                    for d1, d2 in ((16, 40), (40, 16)):
                        c = ir.con
                        first, second = (c(ref1, "", "", 0), c(ref2, rp, rpn, rel))
                        if strat == "alap":
                            first, second = c(ref2, rp, rpn, rel), c(ref1, "", "", 0)
                        out.append((strat, ir.sched([ir.item(mk(d1), first), ir.item(mk(d2), second)])))
    for _ in range(limit):
        strat = rng.choice(["asap", "alap"])
        cons = [ir.con(rng.choice([0, 0, 1, 2, 3]), rng.choice(REFS), rng.choice(REFS), rng.choice([0, -24, 8]))
                for _ in range(3)]
        out.append((strat, ir.sched([ir.item(mk(rng.choice([16, 24, 40])), k) for k in cons])))
    # the empty schedule
    out.append(("asap", ir.sched([])))
    out.append(("asap", ir.sched([ir.item(ir.sched([]))])))
    return out


_CFG = {}


def configs():
    from quantify_scheduler import BasicTransmonElement, QuantumDevice

    if not _CFG:
        for s in ("asap", "alap"):
            qd = QuantumDevice("qd_" + s)
            qd.scheduling_strategy(s)
            _CFG[s] = qd.generate_compilation_config()
    return _CFG


def units(x):
    u = x / UNIT
    r = round(u)
    return r if abs(u - r) < 2e-3 else 2 * 10**9  # off-grid: cannot equal any expected value


def observe(case):
    strat, root, keep = case
    from quantify_scheduler import SerialCompiler

    order, num = ir.flat(root)
    obs = {"res": "ok", "st": [[] for _ in order], "dur": [-1] * len(order)}
    try:
        s = ir.Builder(PCS, UNIT).top(root)
        c = SerialCompiler("c").compile(s, configs()[strat])
    except Exception as e:  # noqa: BLE001
        obs["res"] = "reject"
        return obs, repr(e)[:200]

    def go(nd, o):
        i = num[id(nd)] - 1
        if nd["k"] == "sched":
            st = []
            for it, sc in zip(nd["items"], o.schedulables.values()):
                st.append(units(sc["abs_time"]))
                go(it["n"], o.operations[sc["operation_id"]])
            # two occurrences of a shared sub-schedule must agree
            if obs["st"][i] not in ([], st):
                st = [2 * 10**9]
            obs["st"][i] = st
        elif nd["k"] in ("loop", "cond"):
            go(nd["body"], o.body)
        d = units(o.duration)
        if obs["dur"][i] not in (-1, d):
            d = 2 * 10**9
        obs["dur"][i] = d

    go(root, c)
    return obs, ""


def run(ctx):
    import quantify_scheduler  # noqa: F401

    configs()
    rng = random.Random(ctx.seed)
    cases = [(s, r, True) for s, r in small_family(rng, ctx.n(1500, 20000))]
    for _ in range(ctx.n(3000, 60000)):
        strat = rng.choice(["asap", "asap", "alap"])
        cases.append((strat, tree(rng, 3, [], strat, top=True), True))
    cases = [c for c in cases if len(ir.flat(c[1])[0]) <= 60 and bound(c[1]) * SCALE < 2**30]
    for _, r, _ in cases:
        scale(r)
    obs = common.pmap(observe, cases)
    js = [{"nodes": ir.export(r), "strat": s, "obs": o} for (s, r, _), (o, _) in zip(cases, obs)]
    for j in js:   # keep TLC's integers small
        for nd in j["nodes"]:
            nd.pop("ev", None)
    js_ok = [j for j in js]
    verd = common.judge(ctx, "TimingTrace", js_ok)
    stats = {"ok": 0, "reject": 0}
    for j, (o, err), vs in zip(js, obs, verd):
        stats[o["res"]] += 1
        for cl, det in vs:
            if cl != "ok":
                ctx.violate(cl, f"strategy={j['strat']} expected={det} observed={o['st']} dur={o['dur']} {err}", j)
    common.explore(ctx, "TimingModel", cfg="TimingModel" if ctx.quick else "TimingModelBig", timeout=800)
    ctx.samples = [js[len(js) // 2], js[-1]]
    ctx.notes["outcomes"] = stats
    ctx.notes["rule"] = "all two-operation schedules, sampled three-operation schedules, random trees (depth 3)"
    ctx.assumptions = ["times are compared on a 4 ps grid", "physical durations"]
