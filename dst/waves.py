"""Source waveforms used by the simulated environment.

Specs are plain JSON; make(spec) returns an ordinary Python function of one
argument called `t` (the solver only accepts plain functions whose code object
knows a variable `t`).  Every waveform is (numerically) zero for t <= 0.
"""
import math


def make(spec):
    k = spec["k"]
    if k == "zero":
        def src(t):
            return 0.0
    elif k == "gauss":
        A, t0, s = spec["A"], spec["t0"], spec["s"]

        def src(t):
            return A * math.exp(-((t - t0) / s) ** 2)
    elif k == "ramp":
        A, tr = spec["A"], spec["tr"]

        def src(t):
            if t <= 0:
                return 0.0
            return A if t >= tr else A * t / tr
    elif k == "sin":
        A, w = spec["A"], spec["w"]

        def src(t):
            return A * math.sin(w * t) if t > 0 else 0.0
    elif k == "pulse":
        A, t0, tr, tw = spec["A"], spec["t0"], spec["tr"], spec["tw"]

        def src(t):
            x = t - t0
            if x <= 0 or x >= 2 * tr + tw:
                return 0.0
            if x < tr:
                return A * x / tr
            if x <= tr + tw:
                return A
            return A * (2 * tr + tw - x) / tr
    elif k == "pwl":
        # piecewise linear through ys at 0, h, 2h, ...; ys[0] = 0; holds the last value
        ys, h = spec["ys"], spec["h"]

        def src(t):
            if t <= 0:
                return 0.0
            x = t / h
            j = int(x)
            if j >= len(ys) - 1:
                return ys[-1]
            f = x - j
            return ys[j] * (1 - f) + ys[j + 1] * f
    elif k == "sum":
        fs = [make(s) for s in spec["of"]]

        def src(t):
            return sum(f(t) for f in fs)
    elif k == "after":
        # base up to time T, then base plus extra: used by the causality check
        base, extra, T = make(spec["base"]), make(spec["extra"]), spec["T"]

        def src(t):
            return base(t) if t <= T else base(t) + extra(t - T)
    elif k == "window":
        # base up to T, exactly zero afterwards
        base, T = make(spec["base"]), spec["T"]

        def src(t):
            return base(t) if t <= T else 0.0
    else:
        raise KeyError(k)
    return src


def rand(rng, T, amp=None):
    """A random waveform with its activity inside (0, T)."""
    A = amp if amp is not None else rng.choice([1.0, -2.0, 5.0, 0.3])
    k = rng.choice(["gauss", "ramp", "sin", "pulse", "pwl"])
    if k == "gauss":
        s = T * rng.uniform(0.05, 0.12)
        return {"k": k, "A": A, "t0": T * rng.uniform(0.4, 0.5) , "s": s}
    if k == "ramp":
        return {"k": k, "A": A, "tr": T * rng.uniform(0.05, 0.6)}
    if k == "sin":
        return {"k": k, "A": A, "w": 6.28 / (T * rng.uniform(0.2, 0.9))}
    if k == "pulse":
        return {"k": k, "A": A, "t0": T * rng.uniform(0, 0.2), "tr": T * rng.uniform(0.03, 0.15),
                "tw": T * rng.uniform(0.05, 0.3)}
    n = rng.randint(4, 10)
    return {"k": "pwl", "ys": [0.0] + [round(A * rng.uniform(-1, 1), 3) for _ in range(n)], "h": T / n}
