"""P08: the retrieved data holds each acquisition's own result at its own coordinates."""
import hashlib
import json
import random
import warnings

from .. import cluster, common, gen, ir, q1run, qblox
from . import p07


def digest(seq):
    return hashlib.md5(json.dumps(seq, sort_keys=True, default=str).encode()).hexdigest()[:12]


def program(rng, pcs):
    """A schedule with acquisitions on these channels."""
    for _ in range(20):
        root, T = gen.make(rng, pcs, depth=rng.choice([0, 1, 2]), limit=60, loops=0.35, subs=0.15, acqs=0.7, acq_pool=True,
                           density=1, simple=True, max_reps=rng.choice([3, 4]), reps=rng.choice([1, 2, 2, 3]), shared=0)
        if gen.has_acq(root):
            return root, T
    return None


def one(seed):
    """A history: prepare and run one or two schedules, reading the data after each run."""
    from quantify_scheduler.instrument_coordinator.instrument_coordinator import InstrumentCoordinator

    rng = random.Random(seed)
    spec = p07.make(rng)
    if spec is None:
        return []
    pcs = spec["pcs"]
    progs = [(spec["root"], spec["T"])]
    if rng.random() < 0.5:
        p = program(rng, pcs)
        if p:
            progs.append(p)
    comp, st, cl = cluster.cluster(cluster.types_of(pcs))
    comp.force_set_parameters(rng.random() < 0.5)
    ic = InstrumentCoordinator(f"ic{seed}", add_default_generic_icc=False)
    out = []
    try:
        ic.add_component(comp)
        for n, (root, T) in enumerate(progs):
            chans = qblox.channels(root)
            st.raw = rng.choice(["code", "code", "code", "small"])
            tc = {e["md"] for nd in ir.flat(root)[0] if nd["k"] == "op" for e in nd["ev"] if e.get("pn") == "TriggerCount"}
            if tc == {"distribution"} and rng.random() < 0.9:
                st.raw = "cum"
            again = rng.random() < 0.25
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    s = ir.Builder(pcs).top(root)
                    c = qblox.compile_schedule(s, qblox.hw_config(pcs))
            except Exception as e:  # noqa: BLE001
                o = None, f"{type(e).__name__}: {e}", []
                out.append(dict(qblox.case(root, pcs, T.t, o), meta={"seed": seed, "n": n}))
                break
            seqs = qblox.export(c, pcs, chans)
            for q in seqs:
                q["warned"] = False
            hw = {}
            used = set()
            for slot, i, sv in cluster.sequencers(c):
                p = qblox.find_pc(pcs, slot, sv, used)
                used.add(p)
                hw[(slot, i)] = (p, any(e.get("e") == "a" and e["pc"] == p + 1 for nd in ir.flat(root)[0] if nd["k"] == "op" for e in nd["ev"]))
                q = next(x for x in seqs if x["pc"] == p + 1)
                q["hid"], q["dig"] = cluster.hid(slot, i), digest(sv.sequence)
            if any(b > 500 for q in seqs for b in q["acqs"]) and st.raw == "code":
                st.raw = "small"
            err = ""
            try:
                ic.prepare(c)
                for _ in range(2 if again else 1):
                    ic.start()
                    synced = [cluster.hid(sl, i) for sl in cluster.types_of(pcs) for i, sq in enumerate(cl.modules[sl - 1].sequencers) if sq.parameters["sync_en"].cache()]
                    ran = list(st.ran)
                    up = [{"hid": cluster.hid(*k), "dig": digest(v)} for k, v in st.seq.items() if v]
                    sett = cluster.settings(c, pcs, cl, hw)
                    ds = ic.retrieve_acquisition()
                ic.stop()
                data = cluster.export_data(ds, chans, root.get("reps", 1))
            except Exception as e:  # noqa: BLE001
                err, data, ran, up, synced, sett = f"{type(e).__name__}: {e}"[:300], [], [], [], [], []
            for d in data:
                if d["counts"] and st.raw != "cum":
                    d.update(re=[], im=[], counts=[], ix=[], coords=[])
            k = qblox.case(root, pcs, T.t, (seqs, "", qblox.export_channels(c, chans)))
            k.update(held=True, raw=st.raw, data=data, ran=[cluster.hid(*x) for x in ran], up=up, synced=synced,
                     settings=sett, failed=err)
            k["meta"] = {"seed": seed, "n": n, "again": again}
            out.append(k)
    finally:
        ic.close()
    return out


def run(ctx):
    import quantify_scheduler  # noqa: F401

    qblox.device()
    seeds = [ctx.seed * 1_000_003 + i for i in range(ctx.n(200, 3000))]
    cases = [c for r in common.pmap(one, seeds) for c in r]
    ctx.notes["protocols"] = sorted({d["proto"] for c in cases if c["held"] for d in c["data"]})
    ctx.notes["values"] = sum(len(r) for c in cases if c["held"] for d in c["data"] for r in d["re"])
    q1run.judge(ctx, cases)
