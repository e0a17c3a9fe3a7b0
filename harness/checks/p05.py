"""P05: a loop behaves as its body written out the stated number of times."""
from .. import gen, q1run


def make(rng):
    pcs = gen.layout(rng, rng.choice([1, 2, 3]))
    root, T = gen.make(rng, pcs, depth=rng.choice([1, 2, 3]), loops=rng.choice([0.5, 0.8]), subs=0.15,
                       clockops=rng.choice([0, 0.2, 0.7]), again=rng.choice([0, 0.3]), acqs=rng.choice([0, 0, 0.3]), offsets=rng.choice([0, 0.2]),
                       overlap=rng.choice([0, 0, 0.4]),
                       stitched=rng.choice([0, 0, 0.2]), density=rng.choice([1, 2, 3]), max_reps=rng.choice([4, 6, 9]), snug=rng.choice([0, 0.5, 0.9]),
                       reps=rng.choice([1, 1, 2, 3]))
    return {"root": root, "pcs": pcs, "T": T}


def run(ctx):
    q1run.run(ctx, make, ctx.n(250, 5000))
