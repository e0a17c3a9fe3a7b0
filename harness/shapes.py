"""The waveforms of the pulse library, written from their documentation (1 sample per ns)."""
from __future__ import annotations

import cmath
import math

LSB = 32768


def q(x):
    return int(math.floor(x * LSB + 0.5))


def rot(z, deg):
    return z * cmath.exp(1j * math.radians(deg))


def square(n, amp):
    return [complex(amp)] * n


def ramp(n, amp, offset=0.0):
    return [complex(amp * i / n + offset) for i in range(n)]


def staircase(n, start, final, steps):
    step = (final - start) / (steps - 1)
    return [complex(start + step * min(steps - 1, (i * steps) // n)) for i in range(n)]


def soft_square(n, amp):
    if n <= 1:
        return square(n, amp)
    w = n // 2
    # window of a raised cosine, symmetric
    win = [0.5 - 0.5 * math.cos(2 * math.pi * i / (w - 1)) for i in range(w)] if w > 1 else [1.0]
    tot = sum(win)
    full = [0.0] * (n + w - 1)
    for i in range(n):
        for j in range(w):
            full[i + j] += amp * win[j]
    s = (w - 1) // 2
    return [complex(full[s + i] / tot) for i in range(n)]


def chirp(n, amp, f0, f1):
    c = (f1 - f0) / (n * 1e-9)
    return [amp * cmath.exp(2j * math.pi * (c * (i * 1e-9) / 2 + f0) * (i * 1e-9)) for i in range(n)]


def drag(n, g, d, phase, sigma=None):
    s = sigma if sigma is not None else n / 8.0
    mu = n / 2.0
    G = [g * math.exp(-0.5 * (i - mu) ** 2 / s ** 2) for i in range(n)]
    D = [-d * (i - mu) / s * x for i, x in enumerate(G)]
    og, od = (G[0] + G[-1]) / 2, (D[0] + D[-1]) / 2
    return [rot(complex(a - og, b - od), phase) for a, b in zip(G, D)]


def hermite(n, amp, skew, phase):
    th = n * 1e-9 / 6.0
    f = 0.956
    out = []
    for i in range(n):
        x = (i * 1e-9 - n * 1e-9 / 2) / th
        e = math.exp(-x * x)
        out.append(rot(complex(amp * (1 - f * x * x) * e,
                               amp * (skew / math.pi) * (x / th) * (f + 1 - f * x * x) * e), phase))
    return out


def snz(a, b, scale, tp, tphi, tc):
    """tp even, all in ns."""
    h = tp // 2
    out = [0.0] * (tp + tphi + tc)
    for i in range(h):
        out[i] = a
        out[h + tphi + i] = -a * scale
    out[h - 1] = a * b
    out[h + tphi] = -a * scale * b
    tot = sum(out)
    for i in range(tc):
        out[2 * h + tphi + i] = -tot / tc
    return [complex(x) for x in out]


def numerical(samples, step):
    """Linear interpolation of samples given every `step` ns; lasts (len-1)*step."""
    out = []
    for i in range((len(samples) - 1) * step):
        k, r = divmod(i, step)
        out.append(complex(samples[k] + (samples[k + 1] - samples[k]) * r / step))
    return out
