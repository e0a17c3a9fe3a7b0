"""P24: time-tag modules capture and emit digital signals exactly as scheduled."""
import random

from .. import gen, ir, ops, q1run, qblox

NOTE = ("Bounded: seeded generated schedules on time-tag modules. Windows close with an instruction 4 ns before the end of the acquisition, "
        "as the instruction set prescribes. Retrieval of time-tag data is not covered.")


def layout(rng, analog=0.3):
    """Channels of one or two time-tag modules, sometimes with another module beside them."""
    pcs = []
    for slot in range(1, rng.choice([2, 2, 3])):
        for j in sorted(rng.sample(range(8), rng.choice([1, 2, 3]))):
            d = rng.choice(["input", "input", "output"])
            pcs.append(qblox.pc(f"q{slot}{j}:{d[0]}", "digital", slot, "QTM", f"digital_{d}_{j}", kind="din" if d == "input" else "dout",
                                lat=rng.choice([0, 0, 0, 20, 7]), j=j))
            if d == "input" and rng.random() < 0.5:
                pcs[-1]["ath"] = rng.choice([500, 0, -300, 1000])
    if rng.random() < analog:
        for p in gen.layout(rng, 1, kinds=("qcm", "rf")):
            pcs.append(dict(p, slot=4))
    return pcs


class Gen(gen.Gen):
    def fine(self):
        """Start and end delay of an event."""
        rng, m = self.rng, self.f["fine"]
        r = lambda: rng.choice([0, 0, 125, 500, 875, 1000, 3250, 3254, 333, 6000, 15875, 15992])
        if rng.random() < 0.01:
            return rng.choice([16000, -125, -1000, 20000]), 0
        if m == "none" or m == "tight" and rng.random() < 0.5:
            return 0, 0
        if m == "same":
            x = self.f["same"]
            return x + 1000 * rng.randrange(2), x
        return r(), r()

    def lane(self, i, start, n, out):
        rng, p = self.rng, self.pcs[i]
        if p["kind"] != "dout":
            return super().lane(i, start, n, out)
        t = start + self.f["space"]
        for _ in range(n):
            fs, fe = self.fine()
            d = rng.choice([4, 5, 8, 20, 33, 100, 1000, 70000, 400000])
            if self.f["fine"] == "tight":
                d = max(d, 20)
            x = ops.marker(i, 0, d)
            x["b"].update(fs=fs, fe=fe)
            x["ev"][0].update(fs=fs, fe=fe)
            out.append((x, t, d))
            t += d + max(self.f["space"], rng.choice([4, 5, 7, 8, 11, 25, 60]))
        return t

    def region(self, start, out, lanes=None):
        lanes = [i for i in lanes if self.pcs[i]["kind"] == "analog"] if lanes is not None else [i for i, p in enumerate(self.pcs) if p["kind"] in ("dout", "analog")]
        return super().region(start, out, lanes)

    def bare(self):
        return self.body(0)

    def tag(self, c):
        """One acquisition into channel c."""
        rng, i = self.rng, c["pc"]
        fs, fe = self.fine()
        index = None
        if c["explicit"] == 1 or c["explicit"] == 2 and rng.random() < 0.5:
            index = c["next"]
            c["next"] += 1 if c["mode"] != "append" else rng.choice([1, 1, 3])
        if c["kind"] == "trace":
            index = rng.choice([0, None])
        user = c["num"] * 10 + rng.randrange(5) if c["user"] and c["kind"] != "trace" else None
        kw = dict(qtm=True, fs=fs, fe=fe) if c["kind"] in ("ttl", "tag", "ttr") else {}
        st = dict(self.acq_used[(i, "st")])
        if rng.random() < 0.01:
            st["time_ref"] = "end"
        if c["kind"] == "tag":
            kw.update(time_source=st["time_source"])
        if c["kind"] in ("ttc", "dual"):
            th = st["th"] if rng.random() < 0.97 else st["th"] + 1
            kw.update(count=th, less=st["less"]) if c["kind"] == "ttc" else kw.update(low=th, high=th + 2, slot="", label=None)
        if c["kind"] in ("tag", "ttr"):
            kw.update(time_ref=st["time_ref"], time_ref_port=st["time_ref_port"])
        a = ops.acq(c["kind"], i, c["d"] if c["kind"] == "trace" else rng.choice([8, 9, 20, 100, 333, 1000, 70000, 400000] if self.f["fine"] != "tight" else [300, 333, 1000]), c["name"], index=index,
                    mode=c["mode"], chnum=c["num"], user=user, **kw)
        return self.count(a, src="first" if c["kind"] == "ttr" else kw.get("time_source", ""), ref=kw.get("time_ref", ""),
                          refch=st["refch"] if kw.get("time_ref") == "port" else -1)

    def count(self, a, **kw):
        """What a time-tag module does with this acquisition."""
        b = a["b"]
        ttc = b["proto"] == "ttc"
        a["ev"][0].update({**dict(proto="tags", fs=b.get("fs", 0), fe=b.get("fe", 0), sc=int(b["proto"] in ("trace", "ttr")), src="", ref="",
                                  refch=-1, thrn=0, cnd=0, slot="", tl=0, th=0),
                           **({"slot": "low" if b["less"] else "high", "tl": b["count"], "th": b["count"]} if ttc else {}),
                           **({"slot": b["slot"], "tl": b["low"], "th": b["high"]} if b["proto"] == "dual" else {}), **kw})
        return a

    def conditional(self, t, out, lab=None):
        lab = self.rng.randrange(len(self.labels)) if lab is None else lab
        l, n = self.labels[lab], len(out)
        end = super().conditional(t, out, lab)
        for x, _, _ in out[n:]:
            if x["k"] == "op" and x["b"]["kind"] == "acq":
                if l["dual"]:
                    x["b"].update(proto="dual", low=l["count"], high=l["high"], slot=l["slot"])
                    x["ev"][0]["pn"] = "DualThresholdedTriggerCount"
                self.count(x)
        return end

    def acquire(self, t, out):
        rng, end = self.rng, t
        for i in [i for i, p in enumerate(self.pcs) if p["kind"] == "din"]:
            if rng.random() < 0.2:
                continue
            if (i, "st") not in self.acq_used:
                peers = [p for p in self.pcs if p["slot"] == self.pcs[i]["slot"] and p["kind"] == "din"]
                ref = rng.choice(["start", "end", "first", "timestamp", "port"])
                q = rng.choice(peers)
                fam = rng.choice(["count", "stamps", "stamps", "trace", "ttr", "ttc", "dual"])
                if self.f["fine"] == "same":
                    # every edge of the channel has the same fraction
                    fam = rng.choice(["count", "stamps", "ttr"])
                if i in [l["pc"] for l in self.labels]:
                    fam = "labelled"
                self.acq_used[(i, "st")] = {"time_source": rng.choice(["first", "second", "last"]) if fam != "ttr" else "first", "time_ref": ref,
                                            "time_ref_port": q["port"] if ref == "port" else None, "refch": q["j"], "fam": fam,
                                            "th": rng.choice([1, 2, 5, 1000]), "less": rng.random() < 0.5,
                                            "port": q["port"]}
            st = self.acq_used[(i, "st")]
            s = t + self.f["space"]
            if st["time_ref"] == "timestamp" and st["fam"] in ("stamps", "ttr", "labelled"):
                out.append((ir.op({"kind": "stamp", "pc": i, "t0": 0}, 0, [{"e": "ts", "pc": i + 1, "t0": 0}]), s, 0))
                s += 4
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = self.channel(i)
                if c is None:
                    break
                a = self.tag(c)
                out.append((a, s, a["dur"]))
                s += max(300, a["dur"] + max(self.f["space"], rng.choice([4, 5, 7, 11, 40, 333] if self.f["fine"] != "tight" else [4, 5, 6, 7, 8, 9, 12])))
            end = max(end, s)
        return end + 4

    def channel(self, i, depth_ok=True):
        rng, st = self.rng, self.acq_used[(i, "st")]
        pool = self.pool.setdefault(("ch", i), [])
        use = [c for c in pool if c["kind"] != "trace"]
        if use and (rng.random() < 0.6 or len(pool) >= 4):
            return rng.choice(use)
        kind = {"count": ["ttl"], "stamps": ["tag", "tag", "ttl"], "trace": ["trace"] if not pool else ["ttl", "tag"], "ttr": ["tag", "ttl"] if any(c["kind"] == "ttr" for c in pool) and rng.random() < 0.95 else ["ttr", "ttr", "tag", "ttl"],
                "labelled": ["tag"], "ttc": ["ttc", "ttc", "tag"], "dual": ["dual"]}[st["fam"]]
        if st["fam"] == "trace" and pool and not self.f["mixed"]:
            return None
        kind = rng.choice(kind) if self.f["mixed"] else kind[0]
        if kind in ("ttc", "dual") and rng.random() < 0.02:
            kind = "ttl"
        mode = {"ttc": ["append"], "dual": ["append"], "ttl": ["append", "sum"], "tag": ["append", "average"], "trace": ["first"], "ttr": ["append"]}[kind]
        self.ch += 1   # a conditional takes the number before it adds one
        num = self.ch - 1
        name = rng.choice([num, 100 - num, f"ch_{num}", f"{num}x"])
        c = {"pc": i, "name": name, "num": num, "kind": kind, "mode": rng.choice(mode), "d": rng.choice([100, 1000, 20]),
             "explicit": rng.choice([0, 0, 1, 2]), "next": 0, "last": None, "user": rng.random() < 0.2}
        pool.append(c)
        return c


def relabel(root, labels):
    """The labels that occur, numbered from one."""
    evs = [e for nd in ir.flat(root)[0] if nd["k"] == "op" for e in nd["ev"] if e["e"] == "a" and e["label"]]
    used = sorted({e["label"] for e in evs})
    for e in evs:
        e["label"] = used.index(e["label"]) + 1
    return [labels[x - 1] for x in used]


def make(rng):
    feedback = rng.random() < 0.3
    pcs = layout(rng, 1 if feedback else 0.3)
    T = ops.Tabs()
    flat = rng.random() < 0.5
    fine = rng.choice(["none", "same", "any", "any", "tight", "tight"]) if not feedback else "none"
    flat = flat or fine == "tight"
    labels = []
    din = [i for i, p in enumerate(pcs) if p["kind"] == "din"]
    if feedback:
        for i in rng.sample(din, min(len(din), rng.choice([1, 1, 2]))):
            dual = rng.random() < 0.5
            n = rng.choice([1, 2, 5, 1000])
            labels.append({"name": f"r{i}", "pc": i, "kind": "ttc", "d": rng.choice([100, 300, 1000]), "count": n, "less": rng.random() < 0.5,
                           "dual": dual, "slot": rng.choice(["low", "mid", "high"]), "high": n + rng.randrange(3)})
    for depth in (0 if flat else rng.choice([1, 2]), 0, 0, 0):
        g = Gen(rng, pcs, T, loops=0 if flat else 0.35, subs=0.15, acqs=0.5, conds=0.6, density=2, simple=True, max_reps=3, shared=0,
                fine=fine, same=rng.choice([0, 125, 333, 500, 7250]), space=0 if flat or fine != "any" else 24, mixed=True)
        g.labels = labels
        root = g.body(depth, top=True)
        if gen.occurrences(root) <= 70:
            break
    else:
        return None
    if not gen.ir_events(root):
        return None
    root["reps"] = rng.choice([1, 2, 2, 3])
    hw = qblox.hw_config(pcs)
    used = qblox.used_pcs(root)
    th = {f"{p['port']}-{p['clock']}": {"analog_threshold": p["ath"] / 1000} for i, p in enumerate(pcs) if "ath" in p}
    if th:
        hw["hardware_options"]["digitization_thresholds"] = th
    # a reference to a port that is not used on the module cannot be resolved
    for i in used:
        st = g.acq_used.get((i, "st"))
        if st and st["time_ref"] == "port" and not any(pcs[k]["port"] == st["port"] for k in used):
            return None
    labels = relabel(root, labels)
    return {"root": root, "pcs": pcs, "T": T, "hw": hw, "case": {"expect": "any" if g.uncertain else "tags", "labels": labels, "maxout": 3},
            "meta": {"fine": fine, "flat": flat, "labels": len(labels)}}


def known():
    """Edges 4.125 ns apart, in consecutive iterations of a loop."""
    pcs = [qblox.pc("q10:o", "digital", 1, "QTM", "digital_output_0", kind="dout", lat=0, j=0)]
    x = ops.marker(0, 0, 20)
    x["b"].update(fs=125, fe=0)
    x["ev"][0].update(fs=125, fe=0)
    body = gen.place(random.Random(0), [(x, 0, 20), (ops.idle(4), 20, 4)])
    body["D"] = 24
    root = gen.place(random.Random(0), [(ops.idle(4), 0, 4), (ir.loop(body, 2), 4, 48)])
    root.update(D=52, reps=1)
    o = qblox.run_case(root, pcs, qblox.hw_config(pcs))
    c = qblox.case(root, pcs, [], o, expect="tags")
    c["meta"] = {"key": "fine-spacing-loop"}
    return c


def run(ctx):
    q1run.run(ctx, make, ctx.n(300, 6000))
    q1run.judge(ctx, [known()])
