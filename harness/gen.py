"""Random valid Qblox schedules (IR) over a hardware layout. All times in ns."""
from __future__ import annotations

import random

from . import ir, ops, qblox


# ------------------------------------------------------------------ layouts
def baseband(rng, port, slot, typ="QCM", ch=None, freq=None, lat=0, clock=None):
    ch = ch or rng.choice(["complex_output_0", "real_output_0", "real_output_1"])
    if freq is None:
        return qblox.pc(port, clock or "cl0.baseband", slot, typ, ch, lat=lat)
    return qblox.pc(port, clock or f"{port}.ck", slot, typ, ch, freq=freq, iff=freq, lat=lat)


def rf(rng, port, clock, slot, typ="QCM_RF", ch="complex_output_0", lat=0, rfon=True, iff=None, freq=None):
    freq = freq or rng.choice([5.1e9, 6.25e9, 4.995e9])
    iff = iff if iff is not None else rng.choice([100e6, -50e6, 250e6, 12.5e6])
    return qblox.pc(port, clock, slot, typ, ch, freq=freq, iff=iff, lo=freq - iff, lat=lat, rfon=rfon,
                    cfg_if=rng.random() < 0.5)


def latency(rng):
    return rng.choice([0, 0, 20, 4, 100, -20, -4, 7, 1, rng.randrange(-150, 151), rng.randrange(0, 600)])


def layout(rng, n=3, lats=False, rfon=True, kinds=("qcm", "qcmr", "qcmn", "rf", "qrm", "qrmrf", "two", "qrc")):
    """n analog port-clocks on distinct modules (sometimes two clocks on one channel)."""
    pcs, slot = [], 1
    while len(pcs) < n:
        k = rng.choice(kinds)
        i = len(pcs)
        lat = latency(rng) if lats else 0
        if k == "qcm":
            pcs.append(baseband(rng, f"q{i}:fl", slot, ch="complex_output_0", lat=lat))
        elif k == "qcmr":
            pcs.append(baseband(rng, f"q{i}:fl", slot, ch=rng.choice(["real_output_0", "real_output_3"]), lat=lat))
        elif k == "qcmn":
            pcs.append(baseband(rng, f"q{i}:bb", slot, ch=f"complex_output_{rng.randrange(2)}",
                                freq=rng.choice([80e6, 200e6, 33.25e6]), lat=lat, clock=f"q{i}.bb"))
        elif k == "rf":
            pcs.append(rf(rng, f"q{i}:mw", f"q{i}.01", slot, ch=f"complex_output_{rng.randrange(2)}", lat=lat, rfon=rfon))
        elif k == "qrm":
            pcs.append(baseband(rng, f"q{i}:ro", slot, "QRM", "complex_output_0", freq=rng.choice([40e6, 120e6]),
                                lat=lat, clock=f"q{i}.bro"))
        elif k == "qrmrf":
            pcs.append(rf(rng, f"q{i}:res", f"q{i}.ro", slot, "QRM_RF", lat=lat, rfon=rfon))
        elif k == "qrc":
            pcs.append(rf(rng, f"q{i}:qrc", f"q{i}.qrc", slot, "QRC", f"complex_output_{rng.randrange(2, 6)}", lat=lat))
        elif k == "same" and n - len(pcs) >= 2:
            # one clock on two ports
            a = rf(rng, f"q{i}:mw", f"q{i}.01", slot, rfon=rfon, lat=lat)
            b = rf(rng, f"q{i}:x", f"q{i}.01", slot + 1, rfon=rfon, freq=a["freq"], lat=lat)
            slot += 1
            pcs += [a, b]
        elif k == "two" and n - len(pcs) >= 2:
            a = rf(rng, f"q{i}:mw", f"q{i}.01", slot, lat=lat, iff=100e6, rfon=rfon)
            b = dict(a)
            b.update({"clock": f"q{i}.12", "if": -80e6, "freq": a["lo"] - 80e6, "cfg_if": a["cfg_if"],
                      "lat": latency(rng) if lats else 0})
            pcs += [a, b]
        else:
            continue
        slot += 1
    return pcs


def usable_acq(p):
    return p["typ"] in ("QRM", "QRM_RF") and p["kind"] == "analog"


# ------------------------------------------------------------------ operations
def amp(rng, p, m=0.9):
    a = rng.choice([m, -m, 0.55 * m, 0.1, -0.25, 0.001, rng.uniform(-m, m)])
    if p["ch"].startswith("complex") and rng.random() < 0.5:
        return complex(a, rng.uniform(-m, m))
    return a


def pulse(rng, T, i, p, m=0.9, maxd=400, kinds=None, simple=False):
    """One pulse of at least 4 ns on port-clock i."""
    cx = p["ch"].startswith("complex")
    ks = kinds or (["square", "square", "ramp", "staircase", "soft", "gauss0", "numerical"]
                   + (["drag", "gauss", "hermite", "chirp", "numericalc"] if cx else []) + (["snz"] if not cx else []))
    k = "square" if simple else rng.choice(ks)
    d = rng.choice([4, 5, 8, 20, 20, 21, 32, 40, 60, 99, 100, 101, 120, 200, 400])
    d = min(d, maxd)
    A = lambda mm=m: rng.choice([mm, -mm, rng.uniform(-mm, mm), rng.uniform(-mm, mm)])
    if k == "square":
        return ops.square(i, amp(rng, p, m), d)
    if k == "ramp":
        a = A()
        return ops.wave(T, "ramp", i, d, amp=a, offset=rng.choice([0.0, 0.0, -a / 2, 0.05]))
    if k == "staircase":
        n = rng.choice([2, 3, 5])
        a, b = A(), A()
        d = max(8, d - d % n if d >= n * 4 else n * 4)
        while not steps_exact(d, n):
            d += n
        return ops.wave(T, "staircase", i, d, start=a, final=b, steps=n)
    if k == "soft":
        return ops.wave(T, "soft", i, max(8, d), amp=A())
    if k == "gauss0":
        return ops.wave(T, "gauss", i, max(12, d), g=A(), phase=0.0)
    if k == "gauss":
        return ops.wave(T, "gauss", i, max(12, d), g=A(), phase=rng.choice([0.0, 90.0, 45.0, rng.uniform(-180, 180)]),
                        sigma=rng.choice([None, None, d / 5]))
    if k == "drag":
        return ops.wave(T, "drag", i, max(12, d), g=A(0.7 * m), dd=A(0.3 * m), phase=rng.choice([0.0, 90.0, 180.0, rng.uniform(-180, 180)]),
                        sigma=rng.choice([None, None, d / 6]))
    if k == "hermite":
        return ops.wave(T, "hermite", i, max(12, d), amp=A(0.8 * m), skew=0.0, phase=rng.choice([0.0, 90.0, rng.uniform(-90, 90)]))
    if k == "chirp":
        return ops.wave(T, "chirp", i, max(8, d), amp=A(), f0=rng.choice([5e6, 50e6]), f1=rng.choice([10e6, 100e6]))
    if k == "snz":
        tp, tphi, tc = rng.choice([8, 20, 40]), rng.choice([2, 4, 6]), rng.choice([4, 10, 20])
        return ops.wave(T, "snz", i, tp + tphi + tc, a=A(0.8 * m), bb=rng.choice([0.5, 1.0, 0.3]), scale=rng.choice([1.0, 0.8]),
                        tp=tp, tphi=tphi, tc=tc)
    if k in ("numerical", "numericalc"):
        st = rng.choice([1, 1, 2, 4])
        n = max(6, min(d, 60) // st + 1)
        sm = [round(rng.uniform(-m, m), 4) for _ in range(n)]
        if k == "numericalc":
            sm = [complex(x * 0.7, round(rng.uniform(-m, m), 4) * 0.7) for x in sm]
        return ops.wave(T, "numerical", i, (n - 1) * st, samples=sm, step=st)
    if k == "longsquare":
        return ops.wave(T, "longsquare", i, rng.choice([100, 200, 204, 1000]), amp=amp(rng, p, m))
    if k == "longramp":
        a = A(0.8 * m)
        part = rng.choice([None, 100, 40])
        d = rng.choice([4000, 2100, 1000] if part is None else [200, 240, 100, 130])
        return ops.wave(T, "longramp", i, d, amp=a, offset=rng.choice([0.0, 0.0, -a / 2]), part=part)
    if k == "longstair":
        n = rng.choice([2, 3, 5])
        a, b = A(), A()
        return ops.wave(T, "longstair", i, n * rng.choice([20, 40, 100]), start=a, final=b, steps=n)
    raise KeyError(k)


def steps_exact(d, n):
    """Plateau boundaries that floating point does not move by one sample."""
    return all(int((i / 1e9) * (n / (d * 1e-9))) == i * n // d for i in range(d))


# -------------------------------------------------------------------- assembly
def place(rng, timed, fancy=True):
    """A schedule node with the given (node, start, dur) in the given order; first must start at 0."""
    items = []
    for j, (nd, t, d) in enumerate(timed):
        if j == 0:
            assert t == 0, t
            items.append(ir.item(nd, ir.con()))
            continue
        if fancy and rng.random() < 0.4:
            r = rng.randrange(j)
        else:
            r = j - 1
        t2, d2 = timed[r][1], timed[r][2]
        opts = ["start", "end"]
        rp = rng.choice(opts + (["center"] if d2 % 2 == 0 else [])) if fancy and rng.random() < 0.5 else ""
        rpn = rng.choice(opts + (["center"] if d % 2 == 0 else [])) if fancy and rng.random() < 0.3 else ""
        pt = {"": d2, "end": d2, "start": 0, "center": d2 // 2}[rp]
        ptn = {"": 0, "end": d, "start": 0, "center": d // 2}[rpn]
        items.append(ir.item(nd, ir.con(0 if r == j - 1 and rng.random() < 0.7 else r + 1, rp, rpn, t - t2 - pt + ptn)))
    return ir.sched(items)


def dur(nd):
    """Duration of a node built by this module (starts known by construction)."""
    if nd["k"] == "op":
        return nd["dur"]
    if nd["k"] == "loop":
        return nd["reps"] * dur(nd["body"])
    if nd["k"] == "cond":
        return dur(nd["body"]) + nd.get("buf", 0)
    return nd["D"]


class Gen:
    """Feature switches: pulses, offsets, overlap, clockops, loops, subs, acqs, markers, waits."""

    def __init__(self, rng, pcs, T, **kw):
        self.rng, self.pcs, self.T = rng, pcs, T
        f = dict(offsets=0.0, overlap=0.0, clockops=0.0, loops=0.0, subs=0.0, acqs=0.0, markers=0.0, waits=0.0, density=3,
                 pulse_kinds=None, simple=False, maxd=400, shared=0.15, acq_kinds=("ssb",), acq_mode="average", acq_pool=False,
                 stitched=0.0, odd=0.5, conds=0.0, shuffle=0.15, condloops=0.0, edge=0.0, series=False, bare=0.1, again=0.0, grid=False, tight=False, snug=0.3, max_reps=5, t0=0.1, m=0.9)
        if kw.get("overlap"):
            f["m"] = 0.55
        f.update(kw)
        self.f = f
        self.pool = {}
        self.uncertain = False
        self.ch = 0
        self.cks = qblox.clocks(pcs)
        self.acq_used = {}
        self.labels = []
        self.no_freq = False

    def p(self, k):
        return self.rng.random() < self.f[k]

    def pulse(self, i):
        rng = self.rng
        pool = self.pool.setdefault(i, [])
        if pool and self.p("shared"):
            return rng.choice(pool)
        if self.p("stitched"):
            cx = self.pcs[i]["ch"].startswith("complex")
            x = pulse(rng, self.T, i, self.pcs[i], 0.8, kinds=["longsquare", "longramp", "longstair"] if not cx or True else [])
        else:
            x = pulse(rng, self.T, i, self.pcs[i], self.f["m"], self.f["maxd"], self.f["pulse_kinds"], self.f["simple"])
        pool.append(x)
        return x

    def gap(self):
        rng = self.rng
        if self.f["tight"]:
            return rng.choice([0, 0, 1, 2, 3, 4, 4, 5, 8])
        if self.p("waits"):
            return rng.choice([65532, 65535, 65536, 65528, 65540, 131064, 262128, 262132, 4 * 65532 + 65532, 1000000, 5 * 65532 + 4, 327660 + 7])
        g = rng.choice([0, 0, 4, 8, 20, 100])
        if self.p("odd"):
            g += rng.choice([0, 1, 2, 3])
        return g

    def lane(self, i, start, n, out):
        """n events one after the other on analog port-clock i, from time start; returns its end."""
        rng, p, t = self.rng, self.pcs[i], start
        if p["kind"] == "marker":
            for _ in range(n):
                x = ops.marker(i, qblox.markbit(p), rng.choice([4, 5, 8, 20, 33, 100, 1000, 70000]))
                t += rng.choice([0, 0, 4, 5, 8, 60])
                out.append((x, t, x["dur"]))
                t += x["dur"]
            return t
        if p.get("switch") == "manual":
            return self.switched(i, start, n, out)
        own = [q["clock"] for q in self.pcs].count(p["clock"]) == 1
        busy = None                    # time of a change that takes up to 4 ns to take effect
        for _ in range(n):
            t2 = t + self.gap()
            if self.f["grid"]:
                t2 += -t2 % 4
            if busy is not None and busy < t2 < busy + 4 and not self.f["tight"]:
                t2 = busy + 4
            t = t2
            if p["kind"] == "analog" and qblox.nco(p) and own and self.p("clockops"):
                if busy == t:
                    t += 4
                if self.clockop(self.cks.index(p["clock"]) + 1, t, out):
                    busy = t
                continue
            if self.p("offsets") and not self.f["overlap"]:
                a = rng.uniform(-0.4, 0.4)
                b = rng.uniform(-0.4, 0.4) if p["ch"].startswith("complex") else 0.0
                out.append((ops.offset(i, a, b), t, 0))
                t += rng.choice([4, 8, 40, 100, 1000])
                if rng.random() < 0.4:
                    x = ops.square(i, rng.uniform(-0.4, 0.4), rng.choice([8, 20, 60]))
                    out.append((x, t, x["dur"]))
                    t += x["dur"] + 4
                out.append((ops.offset(i, 0.0, 0.0), t, 0))
                t += 4
                continue
            x = self.pulse(i)
            out.append((x, t, x["dur"]))
            if self.p("overlap") and x["dur"] >= 24 and not self.f["stitched"]:
                y = pulse(rng, self.T, i, p, 0.3, 200, self.f["pulse_kinds"], self.f["simple"])
                s = t + 4 * rng.randrange(1, max(2, x["dur"] // 4 - 1))
                if abs(s + y["dur"] - t - x["dur"]) >= 4 or s + y["dur"] == t + x["dur"]:
                    if t + x["dur"] - s >= 4:
                        out.append((y, s, y["dur"]))
                        t = max(t, s + y["dur"] - x["dur"])
            t += x["dur"]
        return t

    def switched(self, i, start, n, out):
        """Windows of the output switch, with pulses inside."""
        rng, p, t = self.rng, self.pcs[i], start
        for _ in range(n):
            t += rng.choice([0, 4, 5, 20])
            s, w = t, []
            for _ in range(rng.choice([0, 1, 1, 2])):
                x = self.pulse(i)
                t += rng.choice([0, 4, 6, 20])
                w.append((x, t, x["dur"]))
                t += x["dur"]
            t += rng.choice([4, 5, 100])
            x = ops.switch(i, qblox.RFSWITCH[(p["typ"], p["ch"])], t - s)
            out.append((x, s, t - s))
            out.extend(w)
        return t

    def clockop(self, ck, t, out):
        """At most one phase and one frequency change of a clock at time t."""
        rng = self.rng
        name = self.cks[ck - 1]
        ps = [p for p in self.pcs if p["clock"] == name]
        r = rng.random()
        evs = []
        if r < 0.75:
            if rng.random() < 0.75:
                deg = rng.choice([0.0, 0.0042, -0.0001, 359.9975, 90.0, -90.0, 180.0, 360.0, 30.0, 720.5, -45.25, 350.0, 400.0, rng.uniform(-720, 720)])
                evs.append(ops.phase(ck, deg, name))
            else:
                evs.append(ops.reset(ck, name))
        if r > 0.6 and not self.no_freq:
            df = rng.choice([10_000_000, -25_000_000, 1_000_000, 0, rng.randrange(-40, 40) * 250_000])
            used = self.pool.setdefault(("df", ck), [])
            if used and rng.random() < 0.6:   # again a frequency that occurs elsewhere
                df = rng.choice(used[-2:])
            used.append(df)
            if all(abs(p["if"] + df) < 480e6 for p in ps):
                evs.append(ops.setfreq(ck, name, ps[0]["freq"] + df, df))
        rng.shuffle(evs)
        out.extend((x, t, 0) for x in evs)
        return bool(evs)

    def clocks(self, t, out):
        """Simultaneous changes of several clocks while nothing plays."""
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            for ck, name in enumerate(self.cks, 1):
                if self.rng.random() < 0.5 and any(qblox.nco(p) for p in self.pcs if p["clock"] == name):
                    self.clockop(ck, t, out)
            t += self.rng.choice([4, 4, 5, 8, 20])
        return t

    def region(self, start, out, lanes=None):
        """Concurrent lanes; returns the time by which everything has ended (clear of instructions)."""
        rng, end = self.rng, start
        lanes = lanes if lanes is not None else [i for i, p in enumerate(self.pcs) if p["kind"] == "marker" or (
            p["kind"] == "analog" and "input" not in p["ch"])]
        for i in lanes:
            if rng.random() < 0.25:
                continue
            end = max(end, self.lane(i, start, rng.randrange(1, self.f["density"] + 1), out))
        return end + (rng.choice([0, 0, 1, 4]) if self.f["tight"] else 4)

    def channel(self, i, depth_ok=True):
        """An acquisition channel of port-clock i: from the pool or a new one."""
        rng = self.rng
        pool = self.pool.setdefault(("ch", i), [])
        use = [c for c in pool if c["kind"] != "trace"]
        if use and (rng.random() < 0.6 or len(pool) >= 4):
            return rng.choice(use)
        inp = "input" in self.pcs[i]["ch"]
        if inp:
            kind = "ttl"
            own = [c["mode"] for c in pool]
            mode = "distribution" if "distribution" in own else rng.choice(["append", "sum"] + ([] if own else ["distribution"]))
            if mode != "distribution" and rng.random() < 0.3:
                kind, mode = "ttc", "append"
        else:
            own = {c["kind"] for c in pool}
            kind = rng.choice([k for k in ("ssb", "ssb", "thr", "wsep", "wnum", "wthr", "trace")
                               if not (k == "trace" and k in own)
                               and not (k == "thr" and "wthr" in own) and not (k == "wthr" and "thr" in own)])
            mode = "average" if kind == "trace" else rng.choice(["append", "average"])
        self.ch += 1
        # channel names need not be numbers nor follow their order
        name = rng.choice([self.ch, 100 - self.ch, f"ch_{self.ch}", f"{self.ch}x"])
        c = {"pc": i, "name": name, "num": self.ch, "kind": kind, "mode": mode, "d": self.acq_used[(i, "d")],
             "explicit": rng.choice([0, 0, 1, 2]), "next": 0, "last": None, "user": rng.random() < 0.2}
        pool.append(c)
        return c

    def acq_in(self, c):
        """One acquisition into channel c."""
        rng, d, kw = self.rng, c["d"], {}
        if c["last"] is not None and not c["explicit"] and rng.random() < 0.3:
            return c["last"]                      # the same operation object again
        if c["kind"] in ("wsep", "wnum", "wthr"):
            if "w" not in c or rng.random() < 0.5:
                c["w"] = [[round(rng.uniform(-1, 1), 3) for _ in range(d)] for _ in range(2)]
            kw = dict(wa=c["w"][0], wb=c["w"][1], tabs=self.T)
        if c["kind"] == "ttc":
            kw.update(c.setdefault("thr", {"count": rng.choice([1, 2, 5, 9]), "less": rng.random() < 0.4}))
        if c["kind"] in ("thr", "wthr"):
            kw.update(self.acq_used.setdefault((c["pc"], "thr"), {"rot": rng.choice([0, 45, 300.5]), "thr": rng.choice([0, 0.25, -0.5])}))
            if c["kind"] == "wthr":
                kw["rot"] = None
        index = None
        if c["explicit"] == 1 or c["explicit"] == 2 and rng.random() < 0.5:
            index = c["next"]
            c["next"] += 1 if c["mode"] != "append" else rng.choice([1, 1, 3])
        if c["mode"] == "distribution" or c["kind"] == "trace":
            index = rng.choice([0, None])
        user = c["num"] * 10 + rng.randrange(5) if c["user"] and c["kind"] != "trace" and c["mode"] != "distribution" else None
        a = ops.acq(c["kind"], c["pc"], d, c["name"], index=index, mode=c["mode"], chnum=c["num"], user=user, **kw)
        c["last"] = a
        return a

    def acquire_pool(self, t, out):
        """Acquisitions into a pool of channels, several channels and kinds on one sequencer."""
        rng, end = self.rng, t
        for i in [i for i, p in enumerate(self.pcs) if usable_acq(p)]:
            if rng.random() < 0.2:
                continue
            self.acq_used.setdefault((i, "d"), rng.choice([300, 400, 1000, 640, 100, 20, 60, 63, 11] + ([] if "input" in self.pcs[i]["ch"] else [4])))
            s = t
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = self.acq_in(self.channel(i))
                out.append((a, s, a["dur"]))
                s += max(a["dur"] + 4, 300) + rng.choice([0, 4, 40, 333])
            end = max(end, s)
        return end + 4

    def acquire(self, t, out):
        rng = self.rng
        if self.f["acq_pool"]:
            return self.acquire_pool(t, out)
        c = [i for i, p in enumerate(self.pcs) if usable_acq(p)]
        if not c:
            return t
        end = t
        for i in c:
            if rng.random() < 0.3:
                continue
            k = rng.choice(self.f["acq_kinds"])
            d = self.acq_used.setdefault((i, "d"), rng.choice([300, 400, 1000, 640]))
            kw = {}
            if k in ("wsep", "wnum"):
                d = rng.choice([20, 100])
                w = [round(rng.uniform(-1, 1), 3) for _ in range(d)]
                kw = dict(wa=w, wb=[round(rng.uniform(-1, 1), 3) for _ in range(d)], tabs=self.T)
            ch = self.ch
            self.ch += 1
            a = ops.acq(k, i, d, ch, mode=self.f["acq_mode"], **kw)
            out.append((a, t, d))
            end = max(end, t + max(d, 300) + 4)
        return end

    def conditional(self, t, out, lab=None):
        """A labelled measurement and an operation that depends on it."""
        rng, f = self.rng, self.f
        lab = rng.randrange(len(self.labels)) if lab is None else lab
        l = self.labels[lab]
        d = l["d"]
        ch = self.ch
        self.ch += 1
        kw = dict(count=l["count"], less=l["less"]) if l["kind"] == "ttc" else {}
        if l["kind"] == "wthr":
            kw.update(wa=[0.5] * d, wb=[0.25] * d, tabs=self.T)
        a = ops.acq(l["kind"], l["pc"], d, ch, mode="append" if l["kind"] == "ttc" else "average", label=l["name"],
                    labnum=lab + 1, **kw)
        t0 = t
        t += d + 364 + max(0, self.pcs[l['pc']]['lat'] - min(p['lat'] for p in self.pcs)) + rng.choice([0, 0, 4, 36, 100, 1001])
        body, b = [(ops.idle(4), 0, 4)], 4
        lanes = [i for i, p in enumerate(self.pcs) if p["kind"] == "analog" and i not in [x["pc"] for x in self.labels]
                 or rng.random() < 0.1]
        lanes = [i for i in lanes if "input" not in self.pcs[i]["ch"]]
        rng.shuffle(lanes)
        lanes = lanes[:rng.choice([1, 1, 2])]
        sv = dict(f)
        f["clockops"], f["offsets"] = rng.choice([0, f["clockops"]]), rng.choice([0, f["offsets"]])
        self.no_freq = True
        end = self.region(b, body, lanes)
        if f["condloops"] and rng.random() < f["condloops"]:
            x = ir.loop(self.close(*self.small(lanes)), rng.choice([1, 2, 3]))
            body.append((x, end, dur(x)))
            end += dur(x) + 4
        f.update(sv)
        self.no_freq = False
        # room for the instructions of the branch that is not taken
        slack = rng.choice([0, 24, 40, 40, 100, 70000 if f["waits"] else 24])
        end += slack
        nd = self.close(body, end)
        if not ir_events(nd):
            return t0
        out.append((a, t0, d))
        buf = rng.choice([4, 4, 4, 8, 100, 0])
        if buf < 4 or slack == 0 or end > 60000:
            # the instructions that are skipped may not fit in the time there is
            self.uncertain = True
        x = ir.cond(nd, l["name"], buf)
        after = t + dur(x) + (8 if buf < 4 else 0)
        if f["edge"] and lanes and rng.random() < f["edge"]:
            # a parameter change at the very moment the conditional starts: there may be no time for it
            i = rng.choice(lanes)
            self.uncertain = True
            if rng.random() < 0.6:
                a = rng.uniform(0.1, 0.4)
                out.append((ops.offset(i, a, 0.0), t, 0))
                out.append((ops.offset(i, 0.0, 0.0), after + 4, 0))
                t += 12
            elif qblox.nco(self.pcs[i]):
                ck = self.cks.index(self.pcs[i]["clock"]) + 1
                out.append((ops.phase(ck, 90.0, self.pcs[i]["clock"]), t, 0))
            out.append((x, after - dur(x) - (8 if buf < 4 else 0), dur(x)))
        else:
            out.append((x, t, dur(x)))
        return t + dur(x) + (4 if buf == 0 else 0) + rng.choice([0, 4, 20])

    def again(self, t, out):
        """A loop that begins with what is in force before it, and ends with something else."""
        rng = self.rng
        c = [i for i, p in enumerate(self.pcs) if p["kind"] == "analog" and "input" not in p["ch"] and not p.get("switch") == "manual"]
        if not c:
            return t
        i = rng.choice(c)
        p = self.pcs[i]
        if qblox.nco(p) and rng.random() < 0.6:
            ck = self.cks.index(p["clock"]) + 1
            ps = [x for x in self.pcs if x["clock"] == p["clock"]]
            f = rng.sample([d for d in (10_000_000, -25_000_000, 1_000_000, 0) if all(abs(x["if"] + d) < 480e6 for x in ps)], 2)
            put = lambda k: ops.setfreq(ck, p["clock"], ps[0]["freq"] + f[k], f[k])
            rest = None
        else:
            a = rng.sample([0.1, 0.2, -0.15, 0.0], 2)
            put = lambda k: ops.offset(i, a[k], 0.0)
            rest = ops.offset(i, 0.0, 0.0)
        k = rng.randrange(2)
        out.append((put(k), t, 0))
        t += 8
        if rng.random() < 0.5 and not rest:
            t = self.lane(i, t, 1, out) + 4
        sv, self.f["offsets"] = self.f["offsets"], 0
        b, e = [(ops.idle(4), 0, 4)], 4
        for k in (k, 1 - k):
            b.append((put(k), e, 0))
            e = (self.lane(i, e + 8, 1, b) if rng.random() < 0.8 and not rest else e + rng.choice([8, 20])) + 4
        self.f["offsets"] = sv
        x = ir.loop(self.close(b, e), rng.choice([1, 2, 3]))
        out.append((x, t, dur(x)))
        t += dur(x) + 4
        if rng.random() < 0.5:
            out.append((put(1 - k), t, 0))
            t = t + 20 if rest else self.lane(i, t + 8, 1, out) + 4
        if rest:
            out.append((rest, t, 0))
            t += 8
        return t

    def small(self, lanes):
        b = [(ops.idle(4), 0, 4)]
        return b, self.region(4, b, lanes)

    def body(self, depth, top=False):
        """A schedule node (with D) of consecutive segments."""
        rng = self.rng
        # a snug body starts with its first segment
        out, t = [(ops.idle(4), 0, 4)], 4 if top or not self.p("snug") else 0
        if top and self.f["series"]:
            for lab in range(len(self.labels)):
                t = self.conditional(t, out, lab)
            return self.close(out, t)
        for _ in range(rng.randrange(1, 4)):
            r = rng.random()
            f = self.f
            pick = "loop" if r < f["loops"] else "sub" if r < f["loops"] + f["subs"] else "acq" if (
                r < f["loops"] + f["subs"] + f["acqs"]) else "region"
            if depth == 0 and pick in ("loop", "sub"):
                pick = "acq" if rng.random() < f["acqs"] else "region"
            if depth and f["again"] and rng.random() < f["again"]:
                t = self.again(t, out)
            elif self.labels and rng.random() < f["conds"]:
                t = self.conditional(t, out)
            elif pick == "loop":
                b = self.bare() if self.p("bare") else self.body(depth - 1)
                n = rng.choice([1, 2, 2, 3, self.f["max_reps"]])
                x = ir.loop(b, n)
                out.append((x, t, dur(x)))
                t += dur(x)
                if rng.random() < 0.5:
                    t += rng.choice([4, 20])
            elif pick == "sub":
                b = self.body(depth - 1)
                out.append((b, t, dur(b)))
                t += dur(b)
            elif pick == "acq":
                t = self.acquire(t, out)
            else:
                if self.p("clockops"):
                    t = self.clocks(t, out)
                t = self.region(t, out)
        return self.close(out, t)

    def bare(self):
        """A single operation as the body of a loop."""
        c = [i for i, p in enumerate(self.pcs) if p["kind"] == "analog" and "input" not in p["ch"] and not p.get("switch") == "manual"]
        return self.pulse(self.rng.choice(c)) if c else self.body(0)

    def close(self, out, t):
        """Order by time (parameter changes before the pulse of the same moment), pad to t."""
        rng = self.rng
        key = lambda x: (x[1], 0 if x[0]["k"] == "op" and x[2] == 0 else 1)
        head, rest = out[0], sorted(out[1:], key=key)
        end = max(x[1] + x[2] for x in out)
        if end < t:
            rest.append((ops.idle(4), t - 4, 4))
        if rng.random() < self.f["shuffle"]:
            # listed in any order; of the operations at one moment the order is kept
            perm = rest[:]
            rng.shuffle(perm)
            group = {}
            for x in rest:
                group.setdefault(x[1], []).append(x)
            rest = [group[x[1]].pop(0) for x in perm]
        nd = place(rng, [head] + rest, fancy=True)
        nd["D"] = max(end, t)
        return nd


def occurrences(nd):
    """Operations of the schedule with its loops written out."""
    if nd["k"] == "op":
        return len(nd["ev"])
    if nd["k"] == "sched":
        return sum(occurrences(it["n"]) for it in nd["items"])
    return nd.get("reps", 1) * occurrences(nd["body"])


def ir_events(root):
    return any(nd["ev"] for nd in ir.flat(root)[0] if nd["k"] == "op")


def has_acq(root):
    return any(e["e"] == "a" for nd in ir.flat(root)[0] if nd["k"] == "op" for e in nd["ev"])


def make(rng, pcs, reps=None, depth=2, limit=150, labels=(), tail=0, **kw):
    T = ops.Tabs()
    g = Gen(rng, pcs, T, **kw)
    g.labels = list(labels)
    root = g.body(depth, top=True)
    if occurrences(root) > limit:
        return make(rng, pcs, reps, max(0, depth - 1), limit, labels, tail, **kw)
    if tail:
        root["items"].append(ir.item(ops.idle(tail), ir.con(0, "", "", 0)))
        root["items"][-1]["cons"] = [ir.con(1, "start", "start", root["D"])]
        root["D"] += tail
    root["uncertain"] = g.uncertain
    root["reps"] = reps or rng.choice([1, 1, 2, 3])
    return root, T
