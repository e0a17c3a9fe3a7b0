"""Shared driver: generate cases, run the real compiler, let Q1Trace judge."""
from __future__ import annotations

import random

from . import common, gen, ir, qblox


def _one(args):
    make, seed = args
    rng = random.Random(seed)
    spec = make(rng)
    if spec is None:
        return None
    root, pcs, T = spec["root"], spec["pcs"], spec["T"]
    o = qblox.run_case(root, pcs, spec.get("hw"), unit=spec.get("unit", 1e-9))
    c = qblox.case(root, pcs, T.t, o, **spec.get("case", {}))
    c["meta"] = {"seed": seed, **spec.get("meta", {})}
    return c


def run(ctx, make, n, module="Q1Trace", keep=None, expect_min=0.9):
    """make(rng) -> {root, pcs, T, hw?, case?}. Returns cases and verdicts."""
    import quantify_scheduler  # noqa: F401

    qblox.device()
    seeds = [ctx.seed * 1_000_003 + i for i in range(n)]
    cases = [c for c in common.pmap(_one, [(make, s) for s in seeds]) if c is not None]
    return judge(ctx, cases, module)


def judge(ctx, cases, module="Q1Trace"):
    metas = [c.pop("meta", {}) for c in cases]
    verd = common.judge(ctx, module, cases)
    st = {"ok": 0, "reject": 0, "programs": 0, "instructions": 0}
    for c, v, mt in zip(cases, verd, metas):
        st[c["obs"]] += 1
        st["programs"] += len(c["seqs"])
        st["instructions"] += sum(len(s["prog"]) for s in c["seqs"])
        # every program of the case must have been run to its end
        want = 1 + (len(c["seqs"]) if c["obs"] == "ok" and c["expect"] != "reject" and c["run"] else 0)
        if len(v) < want and all(x[0] == "ok" for x in v):
            raise common.MachineryError(f"only {len(v)} of {want} verdicts for seed {mt}")
        for cl, det in v:
            if cl != "ok":
                ctx.violate(cl, f"{mt} {det} {c['msg']}", {"case": c, "meta": mt}, key=mt.get("key"))
    ctx.notes.setdefault("outcomes", {})
    for k, x in st.items():
        ctx.notes["outcomes"][k] = ctx.notes["outcomes"].get(k, 0) + x
    ctx.samples += [{"meta": mt, "nodes": c["nodes"][:6], "programs": [len(s["prog"]) for s in c["seqs"]]}
                    for c, mt in list(zip(cases, metas))[:2]]
    return cases, verd
