"""Operations of every class of the library with arbitrary parameter values."""
from __future__ import annotations

import importlib
import inspect
import pkgutil

SKIP = {"Operation", "Acquisition", "AcquisitionOperation", "ControlFlowOperation", "LoopOperation", "ConditionalOperation", "PulseCompensation",
        "StitchedPulse", "WeightedIntegratedSeparated"}
_CLASSES = None


def classes():
    """All operation classes that users make from plain values."""
    global _CLASSES
    if _CLASSES is None:
        import quantify_scheduler.backends.qblox.operations as Q
        import quantify_scheduler.operations as O
        from quantify_scheduler.operations.operation import Operation

        out = {}
        for pk in (O, Q):
            for m in pkgutil.iter_modules(pk.__path__):
                mod = importlib.import_module(f"{pk.__name__}.{m.name}")
                for n, c in vars(mod).items():
                    if inspect.isclass(c) and issubclass(c, Operation) and c.__module__ == mod.__name__ and n not in SKIP:
                        out[f"{c.__module__}.{n}"] = c
        _CLASSES = [out[k] for k in sorted(out)]
    return _CLASSES


def number(rng, x, numpy=True):
    """The value x as one of the types that such a value can have."""
    import numpy as np

    if not numpy or rng.random() < 0.75:
        return x
    if isinstance(x, int):
        return rng.choice([np.int64, np.int32, np.int16, np.uint8 if 0 <= x < 256 else np.int64])(x)
    if isinstance(x, complex):
        return rng.choice([np.complex128, np.complex64])(x)
    return rng.choice([np.float64, np.float32 if x == 0 or abs(x) > 1e-4 else np.float64])(x)   # (times are not rounded)


def array(rng, n, cplx):
    import numpy as np

    a = [rng.randrange(-1000, 1000) / 1000 for _ in range(n)]
    if cplx and rng.random() < 0.5:
        a = [complex(x, rng.randrange(-1000, 1000) / 1000) for x in a]
    r = rng.random()
    if r < 0.4:
        return a
    if r < 0.9:
        return np.array(a)
    return np.array(a, dtype=np.complex64 if isinstance(a[0], complex) else np.float32)


def value(rng, name, cls, memo, numpy=True):  # noqa: PLR0911, PLR0912
    from quantify_scheduler.enums import BinMode, TimeRef, TimeSource, TriggerCondition
    from quantify_scheduler.operations.pulse_library import ReferenceMagnitude

    def num(x):
        return number(rng, x, numpy)

    n = memo.setdefault("n", rng.choice([2, 3, 8]))
    if name in ("port", "time_ref_port"):
        return rng.choice(["q0:mw", "q1:res", "q0:fl"])
    if name == "portclock":
        return ("q0:mw", "q0.01")
    if name == "clock":
        return rng.choice(["q0.01", "cl0.baseband", "digital"])
    if name in ("qubit", "qC", "qT"):
        return {"qC": "q0", "qT": "q1"}.get(name, rng.choice(["q0", "q3"]))
    if name == "acq_channel":
        return rng.choice([0, 3, num(2), "ch", "q0:readout"])
    if name == "acq_index":
        return rng.choice([None, 0, num(4)])
    if name == "coords":
        return rng.choice([None, {}, {"amp": num(0.25), "index": 3}, {"f": num(5e9)}])
    if name == "bin_mode":
        return rng.choice([BinMode.AVERAGE, BinMode.APPEND, "append"])
    if name in ("acq_protocol",):
        return rng.choice([None, "SSBIntegrationComplex", "Trace"] if "Measure" in cls.__name__ else [None, "Trace", "TriggerCount"])
    if name == "time_source":
        return rng.choice([TimeSource.FIRST, TimeSource.LAST, "second"])
    if name == "time_ref":
        return rng.choice([TimeRef.START, TimeRef.END, "first"])
    if name == "feedback_trigger_condition":
        return rng.choice([TriggerCondition.LESS_THAN, TriggerCondition.GREATER_THAN_EQUAL_TO])
    if name.startswith("label") or name in ("feedback_trigger_label", "window_name"):
        return rng.choice(["q0", "lab"])
    if name == "reference_magnitude":
        return rng.choice([None, None, ReferenceMagnitude(num(-10.5), "dBm"), ReferenceMagnitude(0.5, "V")])
    if name in ("weights_a", "weights_b"):
        return array(rng, n, True)
    if name == "samples":
        return array(rng, n, True)
    if name == "t_samples":
        return [i * 4e-9 for i in range(n)]
    if name == "interpolation":
        return rng.choice(["linear", "cubic" if n > 3 else "linear", "nearest"])
    if name in ("num_steps", "threshold", "threshold_low", "threshold_high", "repetitions"):
        return num(rng.choice([1, 2, 5]))
    if name == "program":
        return "move 10,R1\nloop: nop\nloop R1,@loop\n"
    if name == "waveforms":
        return {"w": {"data": [0.5, 0.25], "index": 0}}
    if name in ("theta", "phi", "phase", "acq_rotation", "phase_shift"):
        return num(rng.choice([0, 90, -45.0, 123.456, 360, 1e-3]))
    if name in ("clock_freq_new", "start_freq", "end_freq"):
        return num(rng.choice([5e9, 100e6, 123456789.25]))
    if name == "amp" and cls.__name__ == "SquarePulse":
        return num(rng.choice([0.5, 1, 0.25 + 0.5j, -0.3, 1 / 3]))
    if name in ("duration", "t0", "t_pulse", "t_phi", "t_integral_correction", "sigma", "fine_start_delay", "fine_end_delay"):
        return num(rng.choice([20e-9, 1e-6, 4e-9, 100e-9])) if name != "t0" or rng.random() < 0.5 else 0
    if name in ("safe_labels", "reset_clock_phase"):
        return rng.choice([True, False])
    if name.endswith("sampling_rate"):
        return num(1e9)
    if name == "hardware_buffer_time":
        return num(8e-9)
    return num(rng.choice([0.5, -0.25, 0.123456789, 0, 1e-7]))


def make(rng, numpy=True):
    """A random operation."""
    for _ in range(50):
        cls = rng.choice(classes())
        args, kw, memo = [], {}, {}
        for p in list(inspect.signature(cls.__init__).parameters.values())[1:]:
            if p.kind is p.VAR_POSITIONAL:
                args = rng.choice([["q0"], ["q0", "q1"]])
            elif p.kind is p.VAR_KEYWORD:
                if rng.random() < 0.3:
                    kw[rng.choice(["amp180", "duration"])] = number(rng, 0.5, numpy)
            elif p.default is p.empty or rng.random() < 0.4:
                kw[p.name] = value(rng, p.name, cls, memo, numpy)
        try:
            return cls(*args, **kw)
        except Exception:  # noqa: BLE001 (a combination of values that the class rejects)
            continue
    raise RuntimeError("no operation")
