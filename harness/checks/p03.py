"""P03: all Qblox sequencers stay in step with the schedule in every repetition."""
from .. import gen, q1run


def make(rng):
    pcs = gen.layout(rng, rng.choice([2, 3, 4]), lats=True)
    root, T = gen.make(rng, pcs, depth=rng.choice([0, 1, 2]), loops=0.2, subs=0.15, clockops=rng.choice([0, 0.2]),
                       offsets=rng.choice([0, 0.2]), acqs=rng.choice([0, 0.2]), waits=rng.choice([0, 0.1, 0.4]),
                       stitched=rng.choice([0, 0, 0.2]), density=rng.choice([1, 2, 4]), max_reps=4, simple=rng.random() < 0.5,
                       reps=rng.choice([1, 2, 3, 7]))
    return {"root": root, "pcs": pcs, "T": T}


def run(ctx):
    q1run.run(ctx, make, ctx.n(300, 6000))
