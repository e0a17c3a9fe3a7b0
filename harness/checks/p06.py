"""P06: conditional operations play exactly when their measurement says so."""
from .. import gen, ir, q1run


def many(rng):
    """More labels than fit in a byte, each measured and used once."""
    n = rng.choice([9, 12, 15])
    pcs = [gen.baseband(rng, f"r{i}:ro", i + 1, "QRM", "complex_output_0", freq=60e6, clock=f"r{i}.bro") for i in range(n)]
    labels = [{"name": f"r{i}", "pc": i, "kind": "thr", "d": 100, "count": 1, "less": False} for i in range(n)]
    pcs.append(gen.baseband(rng, "q0:fl", n + 1, ch="complex_output_0"))
    root, T = gen.make(rng, pcs, depth=0, limit=1000, labels=labels, density=1, reps=1, shared=0, series=True)
    used = {e["label"] for nd in ir.flat(root)[0] if nd["k"] == "op" for e in nd["ev"] if e["e"] == "a"}
    if len(used) < n:
        return many(rng)
    return {"root": root, "pcs": pcs, "T": T, "case": {"labels": labels, "maxout": 2, "expect": "any" if root["uncertain"] else "ok"}}


def make(rng):
    if rng.random() < 0.02:
        return many(rng)
    n = rng.choice([1, 1, 2])
    pcs, labels = [], []
    for i in range(n):
        k = rng.choice(["thr", "thr", "thr", "wthr", "ttc"])
        if k != "ttc" and rng.random() < 0.5:
            p = gen.rf(rng, f"r{i}:res", f"r{i}.ro", len(pcs) + 1, "QRM_RF", lat=rng.choice([0, 0, 20]))
        else:
            p = gen.baseband(rng, f"r{i}:ro", len(pcs) + 1, "QRM", "complex_output_0", freq=60e6, lat=rng.choice([0, 0, 20]),
                             clock=f"r{i}.bro")
        if k == "ttc":
            p = gen.baseband(rng, f"r{i}:ro", len(pcs) + 1, "QRM", "real_input_0", lat=rng.choice([0, 0, 20]))
        pcs.append(p)
        labels.append({"name": f"r{i}", "pc": i, "kind": k, "d": rng.choice([100, 300, 1000]) if k != "wthr" else rng.choice([20, 40]),
                       "count": rng.choice([1, 2, 3]), "less": rng.random() < 0.4})
    for p in gen.layout(rng, rng.choice([1, 2]), kinds=("qcm", "qcmr", "qcmn", "rf", "rf", "two", "same")):
        p = dict(p)
        p["slot"] += n
        pcs.append(p)
    root, T = gen.make(rng, pcs, depth=rng.choice([0, 1]), limit=40, loops=0.25, subs=0.1, conds=0.7, labels=labels,
                       condloops=rng.choice([0, 0, 0.4]), clockops=rng.choice([0, 0.3]), offsets=rng.choice([0, 0.2]),
                       waits=rng.choice([0, 0, 0.1]), edge=rng.choice([0, 0.2]),
                       density=rng.choice([1, 2, 3]), max_reps=2, reps=rng.choice([1, 1, 2]), shared=0)
    used = {e["label"] for nd in ir.flat(root)[0] if nd["k"] == "op" for e in nd["ev"] if e["e"] == "a"}
    if not used:
        return None
    if len(used) < len(labels):   # renumber the labels that occur
        for nd in ir.flat(root)[0]:
            for e in nd.get("ev", ()):
                if e["e"] == "a" and e["label"]:
                    e["label"] = 1
        labels = [labels[min(used) - 1]]
    return {"root": root, "pcs": pcs, "T": T, "case": {"labels": labels, "maxout": 3, "expect": "any" if root["uncertain"] else "ok"}}


def run(ctx):
    q1run.run(ctx, make, ctx.n(250, 5000))
