"""P17: every program the compiler hands out is legal, and right; what does not fit is rejected.

Schedules at and beyond the limits of the hardware. Rejecting is fine unless the schedule
clearly fits; what is accepted has to be legal and play the schedule."""
from .. import gen, ir, ops, q1run, qblox


def timed(evs, end):
    """A schedule of (node, start) with a first idle, lasting until end."""
    out = [(ops.idle(4), 0, 4)] + [(nd, t, gen.dur(nd)) for nd, t in evs] + [(ops.idle(4), end - 4, 4)]
    items = []
    for j, (nd, t, d) in enumerate(out):
        items.append(ir.item(nd, ir.con(1, "start", "start", t) if j else ir.con()))
    nd = ir.sched(items)
    nd["D"] = max(t + d for _, t, d in out)
    return nd


def res(root, pcs, T, expect, reps=1, **kw):
    root["reps"] = reps
    return {"root": root, "pcs": pcs, "T": T, "case": {"expect": expect, **kw}}


def nested(rng):
    """Loops in loops, with an acquisition or a long wait inside: one register each."""
    T = ops.Tabs()
    pcs = [gen.baseband(rng, "q:ro", 1, "QRM", "complex_output_0", freq=50e6, clock="q.ro")]
    n = rng.choice([1, 5, 30, 55, 58, 59, 60, 61, 62, 63, 64, 65, 70])
    evs = [(ops.square(0, 0.3, 20), 8)]
    for i in range(rng.choice([0, 1, 2, 4])):
        evs.append((ops.acq("ssb", 0, 300, i, mode=rng.choice(["append", "average"])), 40 + 400 * i))
    b = timed(evs, 2000 + rng.choice([0, 400000, 70000]))
    reps = [1] * n
    for _ in range(rng.choice([0, 1, 2])):
        reps[rng.randrange(n)] = 2
    for r in reps:
        b = ir.loop(b, r)
    root = timed([(b, 4)], 4 + gen.dur(b) + 8)
    return res(root, pcs, T, "ok" if n <= 40 else "any", rng.choice([1, 2]))


def channels(rng):
    """Many acquisition channels on one sequencer."""
    T = ops.Tabs()
    pcs = [gen.baseband(rng, "q:ro", 1, "QRM", "complex_output_0", freq=50e6, clock="q.ro")]
    n = rng.choice([1, 10, 30, 31, 32, 33, 34, 40, 60, 64, 70])
    mode = rng.choice(["append", "average", "mix"])
    evs, t = [], 8
    for i in range(n):
        m = rng.choice(["append", "average"]) if mode == "mix" else mode
        for _ in range(rng.choice([1, 1, 2])):
            evs.append((ops.acq("ssb", 0, 300, i, mode=m), t))
            t += 304
    b = timed(evs, t + 8)
    if rng.random() < 0.4:
        b = timed([(ir.loop(b, 2), 4)], 4 + 2 * b["D"] + 8)
    return res(b, pcs, T, "ok" if n <= 25 else "any", rng.choice([1, 2, 3]))


def waveforms(rng):
    """Waveform memory: many samples, many waveforms."""
    T = ops.Tabs()
    pcs = [gen.baseband(rng, "q:fl", 1, "QCM", rng.choice(["complex_output_0", "real_output_0"]))]
    n, d = rng.choice([(10, 1000), (16, 1000), (17, 1000), (8, 2040), (4, 4090), (4, 4095), (8, 2050), (20, 1000), (40, 20), (9, 900),
                       (1, 16383), (1, 16384), (1, 16386)])
    evs, t = [], 8
    for i in range(n):
        # DRAG-like pulses on both paths have two waveforms, others one
        x = ops.wave(T, "soft", 0, d, amp=0.1 + 0.0007 * i) if rng.random() < 0.5 else ops.wave(
            T, "gauss", 0, d, g=0.5, phase=0.0, sigma=d / (4 + 0.05 * i))
        evs.append((x, t))
        t += d + 4
    r = res(timed(evs, t + 8), pcs, T, "any")
    return r


def weights(rng):
    """Weight memory."""
    T = ops.Tabs()
    pcs = [gen.baseband(rng, "q:ro", 1, "QRM", "complex_output_0", freq=50e6, clock="q.ro")]
    n, d = rng.choice([(2, 1000), (5, 1000), (8, 1000), (9, 1000), (10, 900), (2, 4000), (2, 4096), (3, 4000), (1, 8192), (1, 8200), (16, 600), (1, 16000)])
    evs, t = [], 8
    for i in range(n):
        w = [[round(rng.uniform(-1, 1), 3) for _ in range(d)] for _ in range(2)]
        evs.append((ops.acq("wsep", 0, d, i, mode=rng.choice(["append", "average"]), wa=w[0], wb=w[1], tabs=T), t))
        t += max(d, 300) + 4
    return res(timed(evs, t + 8), pcs, T, "any")


def amplitudes(rng):
    """Amplitudes and offsets at and over the full range."""
    T = ops.Tabs()
    cx = rng.random() < 0.5
    pcs = [gen.baseband(rng, "q:fl", 1, "QCM", "complex_output_0" if cx else "real_output_1")]
    a = rng.choice([1.0, -1.0, 0.99999, -0.99999, 1 - 2**-15, 1.0001, -1.0001, 1.5, 2.0, 3e-5, 1e-6])
    k = rng.choice(["square", "long", "offset", "soft", "ramp", "longsquare"])
    if k == "square":
        x = ops.square(0, a if not cx else complex(rng.choice([0.3, a]), a), 20)
    elif k == "long":
        x = ops.square(0, a, 200)
    elif k == "offset":
        x = ops.offset(0, a, a if cx else 0.0)
    elif k == "soft":
        x = ops.wave(T, "soft", 0, 40, amp=a)
    elif k == "ramp":
        x = ops.wave(T, "ramp", 0, 40, amp=a)
    else:
        x = ops.wave(T, "longsquare", 0, 400, amp=a)
    evs = [(x, 8)]
    if k == "offset":
        evs.append((ops.offset(0, 0.0, 0.0), 40))
    return res(timed(evs, 600), pcs, T, "reject" if abs(a) > 1.00005 and k != "ramp" else "any" if abs(a) > 1.00005 else "ok", tol=6)


def longwait(rng):
    """Long times and many repetitions."""
    T = ops.Tabs()
    pcs = [gen.baseband(rng, "q:fl", 1, "QCM", "complex_output_0")]
    t = rng.choice([65532 * rng.randrange(5, 9) + rng.randrange(4, 100)] * 6 + [65532 * 4, 65532 * 5 + 1, 65532 * 5, 10**7, 10**8 + 3, 65532 * 300 + 65531, 65535, 65536, 65537, 131067, 65533, 65534])
    x = ops.square(0, 0.3, 20)
    n = rng.choice([1, 1, 2, 3]) if t < 10**6 else 1
    evs = [(x, 8 + i * (4 + t)) for i in range(n + 1)]
    if rng.random() < 0.3:  # the wait in a loop
        evs = [(ir.loop(timed(evs[:2], 12 + 24 + t), 2), 8)]
        n = 2
    return res(timed(evs, 100 + n * (40 + t) + rng.choice([0, 65532 * 4, 65533, 65532 * 6 + 2])), pcs, T, "ok", rng.choice([1, 2, 3]) if t < 10**7 else 1)


def many(rng):
    T = ops.Tabs()
    pcs = [gen.baseband(rng, "q:ro", 1, "QRM", "complex_output_0", freq=50e6, clock="q.ro")]
    evs = [(ops.square(0, 0.3, 20), 8)]
    if rng.random() < 0.5:
        evs.append((ops.acq("ssb", 0, 300, 0, mode=rng.choice(["append", "average"])), 40))
    return res(timed(evs, 400), pcs, T, "ok", rng.choice([20, 50, 100]))


def sequencers(rng):
    """More port-clocks than a module has sequencers."""
    T = ops.Tabs()
    n = rng.choice([2, 5, 6, 7, 8])
    pcs = []
    for i in range(n):
        f = 5e9 + 10e6 * i
        pcs.append(qblox.pc("q:mw", f"q.c{i}", 1, "QCM_RF", "complex_output_0", freq=f, iff=f - 4.9e9, lo=4.9e9))
    evs = [(ops.square(i, 0.1, 20), 8 + 40 * i) for i in range(n)]
    return res(timed(evs, 600), pcs, T, "ok" if n <= 6 else "reject")


def frequency(rng):
    """Clock changes to intermediate frequencies at and beyond the limit of the mixer. (The first
    intermediate frequency is a setting, which the instrument itself checks.)"""
    T = ops.Tabs()
    iff = rng.choice([100e6, 490e6, 500e6, -500e6, -120e6])
    pcs = [gen.rf(rng, "q:mw", "q.01", 1, iff=iff, freq=6e9)]
    evs = [(ops.square(0, 0.1, 20), 8)]
    bad = False
    if rng.random() < 0.5:
        df = rng.choice([10_000_000, 400_000_000, 401_000_000, -390_000_000, 500_000_000, -500_000_000, 1_000_000, -100_000_000])
        evs += [(ops.setfreq(1, "q.01", 6e9 + df, df), 60), (ops.square(0, 0.1, 20), 100)]
        bad = abs(iff + df) > 500e6
    return res(timed(evs, 200), pcs, T, "reject" if bad else "ok")


def tight(rng):
    """Operations with little or no time between them; parameter changes anywhere."""
    pcs = gen.layout(rng, rng.choice([1, 2, 3]), kinds=("qcm", "qcmr", "qcmn", "rf", "qrm", "qrmrf", "two", "qrc", "same"))
    root, T = gen.make(rng, pcs, depth=rng.choice([0, 1, 2]), loops=0.35, subs=0.1, clockops=rng.choice([0, 0.3]), acqs=0.3,
                       offsets=rng.choice([0, 0.3]), density=3, simple=rng.random() < 0.5, maxd=40, tight=True, limit=60)
    if not gen.ir_events(root):
        return None
    return res(root, pcs, T, "any", rng.choice([1, 2]))


def fraction(rng):
    """Times that are not whole nanoseconds cannot be played."""
    T = ops.Tabs()
    pcs = [gen.baseband(rng, "q:fl", 1, "QCM", "complex_output_0")]
    w = rng.choice(["start", "dur", "end"])
    x = ops.square(0, 0.3, 41 if w == "dur" else 40)
    y = ops.square(0, 0.2, 80)
    # times below are in half nanoseconds
    root = ir.sched([ir.item(ops.idle(8), ir.con()), ir.item(x, ir.con(1, "start", "start", 17 if w == "start" else 16)),
                     ir.item(y, ir.con(1, "start", "start", 400)), ir.item(ops.idle(101 if w == "end" else 100), ir.con())])
    r = res(root, pcs, T, "any" if w == "end" else "reject")
    r["unit"] = 0.5e-9
    if w == "end":
        return None
    return r


def long(rng):
    """Programs around the number of instructions a sequencer has room for."""
    T = ops.Tabs()
    typ, ch = rng.choice([("QCM", "real_output_0"), ("QRM", "real_output_0"), ("QRM_RF", "complex_output_0"), ("QCM_RF", "complex_output_1"),
                          ("QRC", "complex_output_2")])
    if "RF" in typ or typ == "QRC":
        pc = gen.rf(rng, "q:mw", "q.01", 1, typ, ch, iff=100e6, freq=5e9)
    else:
        pc = gen.baseband(rng, "q:fl", 1, typ, ch)
    n = qblox.MAXINSTR[typ] // 7 + rng.choice([-5, -3, 2, 4, 60])
    x = ops.square(0, 0.3, 20)
    step = 65532 * 4 + 104
    evs = [(x, 8 + i * step) for i in range(n)]
    return res(timed(evs, 8 + n * step), [pc], T, "any", play=False)


FAMILIES = [(nested, 3), (channels, 3), (waveforms, 2), (weights, 2), (amplitudes, 3), (longwait, 4), (many, 1), (sequencers, 1),
            (frequency, 3), (tight, 12), (fraction, 1), (long, 0.4)]


def make(rng):
    f = rng.choices([f for f, _ in FAMILIES], [w for _, w in FAMILIES])[0]
    r = f(rng)
    if r is not None:
        r["meta"] = {"family": f.__name__}
    return r


def run(ctx):
    q1run.run(ctx, make, ctx.n(260, 4000))
