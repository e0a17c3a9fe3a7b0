"""Schedules as plain data (the IR) and their construction through the public API.

A node is a dict: {"k": "op"|"sched"|"loop"|"cond", ...}. `flat(root)` numbers the
nodes children first (shared dict objects keep one number), `build(root)` makes the
quantify-scheduler object. Times are integers in `unit` seconds.
"""
from __future__ import annotations


def op(b, dur, ev=(), nod=0):
    return {"k": "op", "dur": dur, "nod": nod, "ev": list(ev), "b": b}


def sched(items, reps=1, name=None):
    return {"k": "sched", "items": items, "reps": reps, "name": name}


def item(n, *cons):
    return {"n": n, "cons": list(cons) or [con()]}


def con(ref=0, rp="", rpn="", rel=0):
    return {"ref": ref, "rp": rp, "rpn": rpn, "rel": rel}


def loop(body, reps):
    return {"k": "loop", "body": body, "reps": reps}


def cond(body, label, buf=0):
    return {"k": "cond", "body": body, "label": label, "buf": buf}


def flat(root):
    """Children-first list of nodes and id(node) -> 1-based number."""
    order, num = [], {}

    def go(nd):
        if id(nd) in num:
            return
        if nd["k"] == "sched":
            for it in nd["items"]:
                go(it["n"])
        elif nd["k"] in ("loop", "cond", "comp"):
            go(nd["body"])
        order.append(nd)
        num[id(nd)] = len(order)

    go(root)
    return order, num


def export(root, label_index=None):
    """Nodes as JSON for the specification (without builder data)."""
    order, num = flat(root)
    out = []
    for nd in order:
        if nd["k"] == "op":
            out.append({"k": "op", "dur": nd["dur"], "nod": nd.get("nod", 0), "ev": nd["ev"]})
        elif nd["k"] == "sched":
            out.append({"k": "sched", "reps": nd.get("reps", 1), "nod": nd.get("nod", 0),
                        "items": [{"n": num[id(it["n"])], "cons": it["cons"]} for it in nd["items"]]})
        elif nd["k"] == "loop":
            out.append({"k": "loop", "reps": nd["reps"], "body": num[id(nd["body"])]})
        else:
            out.append({"k": "cond", "buf": nd.get("buf", 0), "body": num[id(nd["body"])],
                        "label": (label_index or {}).get(nd["label"], 0)})
    return out


class Builder:
    """Builds quantify-scheduler objects from nodes."""

    def __init__(self, pcs=None, unit=1e-9, qubits=None, share=True, resources=True, flow_style=0):
        self.pcs = pcs or []          # list of dicts: port, clock, freq
        self.unit = unit
        self.memo = {}
        self.share = share
        self.resources = resources
        self.count = 0
        self.flow_style = flow_style  # 0: LoopOperation; 1: control_flow argument is not used

    def t(self, x):
        return x * self.unit

    def build(self, nd):
        if self.share and id(nd) in self.memo:
            return self.memo[id(nd)][0]
        r = getattr(self, "_" + nd["k"])(nd)
        self.memo[id(nd)] = (r, nd)
        return r

    def _sched(self, nd):
        from quantify_scheduler import ClockResource, Schedule

        self.count += 1
        s = Schedule(nd.get("name") or f"s{self.count}", repetitions=nd.get("reps", 1))
        labels = []
        for j, it in enumerate(nd["items"]):
            c = it["cons"][0]
            lab = f"i{j + 1}"

            def ref(r, j=j):
                return None if r == 0 else ("nowhere" if r == -1 else f"i{r}")

            x = s.add(self.build(it["n"]), rel_time=self.t(c["rel"]), ref_op=ref(c["ref"]),
                      ref_pt=c["rp"] or None, ref_pt_new=c["rpn"] or None, label=lab)
            for c2 in it["cons"][1:]:
                x.add_timing_constraint(rel_time=self.t(c2["rel"]), ref_schedulable=ref(c2["ref"]),
                                        ref_pt=c2["rp"] or None, ref_pt_new=c2["rpn"] or None)
            labels.append(lab)
        return s

    def top(self, nd):
        """Build the top-level schedule with its clock resources."""
        from quantify_scheduler import ClockResource

        s = self.build(nd)
        if self.resources:
            for pc in self.pcs:
                if pc.get("freq") is not None and pc["clock"] not in s.resources:
                    s.add_resource(ClockResource(pc["clock"], pc["freq"]))
        return s

    def _loop(self, nd):
        from quantify_scheduler.operations.control_flow_library import LoopOperation

        return LoopOperation(body=self.build(nd["body"]), repetitions=nd["reps"])

    def _cond(self, nd):
        from quantify_scheduler.operations.control_flow_library import ConditionalOperation

        return ConditionalOperation(body=self.build(nd["body"]), qubit_name=nd["label"],
                                    hardware_buffer_time=self.t(nd.get("buf", 0)))

    def _op(self, nd):
        b = nd["b"]
        from . import ops

        return ops.make(b, self)
