"""P07: each acquisition fires once, on time, into a bin of its own."""
from .. import gen, q1run


def make(rng):
    n = rng.choice([1, 1, 2])
    pcs = []
    for i in range(n):
        k = rng.choice(["qrm", "qrm", "qrmrf", "ttl"])
        lat = rng.choice([0, 0, 20, 7])
        if k == "qrmrf":
            pcs.append(gen.rf(rng, f"r{i}:res", f"r{i}.ro", i + 1, "QRM_RF", lat=lat))
        else:
            f = rng.choice([None, 60e6]) if k != "ttl" else None
            pcs.append(gen.baseband(rng, f"r{i}:ro", i + 1, "QRM", rng.choice(["real_input_0", "real_input_1"]) if k == "ttl" else "complex_output_0",
                                    freq=f, lat=lat, clock=f and f"r{i}.bro"))
    if rng.random() < 0.3:
        for p in gen.layout(rng, 1, kinds=("qcm", "rf")):
            pcs.append(dict(p, slot=p["slot"] + n))
    root, T = gen.make(rng, pcs, depth=rng.choice([0, 1, 2]), limit=70, loops=0.35, subs=0.15, acqs=0.6, acq_pool=True,
                       clockops=rng.choice([0, 0.2]), density=1, simple=True, max_reps=rng.choice([3, 4]),
                       reps=rng.choice([1, 2, 2, 3]), shared=0)
    if not gen.has_acq(root):
        return None
    return {"root": root, "pcs": pcs, "T": T}


def run(ctx):
    q1run.run(ctx, make, ctx.n(250, 5000))
