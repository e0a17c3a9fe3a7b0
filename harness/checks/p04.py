"""P04: clock phase and frequency changes act on every later pulse of that clock."""
from .. import gen, q1run


def make(rng):
    pcs = gen.layout(rng, rng.choice([1, 2, 3]), kinds=("qcmn", "rf", "qrm", "qrmrf", "qrc", "two", "same", "same"))
    root, T = gen.make(rng, pcs, depth=rng.choice([0, 1, 2]), loops=0.25, subs=0.15, clockops=rng.choice([0.3, 0.6]),
                       acqs=rng.choice([0, 0, 0.3]), density=rng.choice([3, 6]), max_reps=4)
    return {"root": root, "pcs": pcs, "T": T}


def run(ctx):
    q1run.run(ctx, make, ctx.n(300, 6000))
