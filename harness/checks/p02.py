"""P02: Qblox analog outputs play exactly the pulses of the schedule."""
from .. import gen, q1run


def make(rng):
    pcs = gen.layout(rng, rng.choice([1, 2, 3]), kinds=("qcm", "qcmr", "qcmn", "rf", "qrm", "qrmrf", "qrc", "two"))
    root, T = gen.make(rng, pcs, depth=rng.choice([0, 1]), offsets=rng.choice([0, 0.2]), overlap=rng.choice([0, 0, 0.5]),
                       loops=0.1, subs=0.2, stitched=rng.choice([0, 0, 0.3]), density=rng.choice([2, 4]))
    return {"root": root, "pcs": pcs, "T": T}


def run(ctx):
    q1run.run(ctx, make, ctx.n(300, 6000))
