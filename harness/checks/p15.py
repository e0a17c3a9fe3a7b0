"""P15: marker, digital and RF-switch outputs are on exactly when the schedule says."""
from .. import gen, ir, q1run, qblox


def layout(rng):
    pcs = []
    for i in range(rng.choice([1, 2, 3])):
        k = rng.choice(["qcm", "qrm", "qcmrf", "qrmrf", "qrc", "auto", "auto", "manual"])
        slot = i + 1
        lat = rng.choice([0, 0, 0, 20, 7])
        if k in ("auto", "manual"):
            typ = rng.choice(["QCM_RF", "QCM_RF", "QRM_RF"])
            port = f"q{i}:mw" if k == "auto" else f"q{i}:drv"
            for j in range(rng.choice([1, 2]) if typ == "QCM_RF" else 1):
                p = gen.rf(rng, port + (f"{j}:mw" if k == "auto" else str(j)), f"q{i}{j}.01", slot, typ,
                           f"complex_output_{j}", lat=lat, rfon=False)
                p["switch"] = k
                pcs.append(p)
            continue
        typ = {"qcm": "QCM", "qrm": "QRM", "qcmrf": "QCM_RF", "qrmrf": "QRM_RF", "qrc": "QRC"}[k]
        rfon = rng.random() < 0.6
        digital = sorted(qblox.MARKBIT[typ])
        for ch in rng.sample(digital, rng.randrange(1, len(digital) + 1)):
            pcs.append(qblox.pc(f"q{i}:{ch}", "digital", slot, typ, ch, kind="marker", rfon=rfon, lat=lat))
        if rng.random() < 0.5 and typ in ("QCM_RF", "QRM_RF"):
            pcs.append(gen.rf(rng, f"q{i}:x", f"q{i}.x", slot, typ, "complex_output_0", lat=lat, rfon=rfon))
    return pcs


def make(rng):
    pcs = layout(rng)
    buf = rng.choice([20, 20, 8, 100])
    auto = any(p.get("switch") == "auto" for p in pcs)
    if auto:
        for p in pcs:
            if p.get("switch") == "auto":
                p["auto"] = buf
    reps = rng.choice([1, 2, 3])
    root, T = gen.make(rng, pcs, depth=rng.choice([0, 1, 2]), limit=80, loops=0.3, subs=0.2, odd=0 if auto else 0.5,
                       offsets=0.2 if auto else 0, grid=auto, density=3, simple=rng.random() < 0.7, tail=buf + 4 if auto else 0, shared=0.1, reps=reps)
    if not gen.ir_events(root):
        return None
    hw = qblox.hw_config(pcs)
    if auto:
        hw["compiler_options"] = {"auto_rf_switch": True, "auto_rf_switch_ramp_buffer": buf * 1e-9}
    loops = any(nd["k"] == "loop" for nd in ir.flat(root)[0])
    return {"root": root, "pcs": pcs, "T": T, "hw": hw, "case": {"expect": "any" if auto and loops else "ok"}, "meta": {"auto": auto, "loops": loops}}


def run(ctx):
    q1run.run(ctx, make, ctx.n(300, 6000))
