"""C22 spectra and spectrograms of time series are those of the samples, with their frequencies and instants"""
import logging
import math
import random

import numpy as np

from cfdtools.data import DataSet

ID = "C22"
RULE = (
    "random uniform time series (odd and even lengths, start time, step, sums of sines, noise, integers, single precision), ranges and filters; "
    "each spectral value recomputed by explicit sums; non uniform series and wrong data sets; distinct by the values"
)
REQUIRED = ["freq", "spectrum", "keys", "dtstats", "peak", "columns", "sg-freq", "sg-time", "sg-value", "warned", "refuse", "input-untouched"]

NAMES = ["P", "U-X", "rho", "T", "p time", "freq2", "timex", "a"]


def cases(tier, rng):
    n = 1500 if tier == "quick" else 6000
    out = []
    for i in range(n):
        big = i % (10 if tier == "thorough" else 25) == 0
        out.append({"seed": rng.randrange(10**9), "n": rng.choice(([] if big else [2, 3, 4, 5, 7, 8, 16, 31, 50, 100, 101, 127]) + ([400, 999, 1000, 2048] if big else [])),
                    "kind": rng.choice(["spectrum", "spectrum", "spectrogram", "spectrogram", "jitter", "steps", "refuse"])})  # fmt: skip
    return out


class Warned(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.n = 0

    def emit(self, record):
        self.n += record.levelno >= logging.WARNING


def dft(x, t0, w):
    """|sum x_j exp(-i w j)| for each w (radian per sample)"""
    j = np.arange(len(x))
    a = np.outer(w, j)
    return np.hypot((np.cos(a) * x).sum(axis=1), (np.sin(a) * x).sum(axis=1))


def series(r, n, dt):
    kind = r.choice(["sines", "sines", "noise", "noise", "int", "f4", "ramp"])
    j = np.arange(n)
    noise = np.array([r.gauss(0, 1) for _ in range(n)])
    if kind == "sines":
        x = r.uniform(-3, 3) + sum(r.uniform(0.1, 2) * np.sin(2 * np.pi * r.uniform(0, 0.5) * j + r.uniform(0, 6)) for _ in range(r.randint(1, 3)))
        x = x + 1e-3 * noise
    elif kind == "int":
        x = np.round(10 * noise).astype(int)
        x[0] += 1
    elif kind == "ramp":
        x = j * 0.1 + noise * 0.01
    else:
        x = noise.copy()
    if kind == "f4":
        x = x.astype("f4")
    return x * (1 if kind == "int" else r.choice([1, 1e5, 1e-4]))


def build(r, n, jitter=False):
    dt = r.choice([1.0, 0.1, 1e-3, 2.5, 1e-6, r.uniform(0.01, 1)])
    t0 = r.choice([0.0, 0.0, 1.5, -3.0]) * dt * r.choice([1, 10])
    t = t0 + dt * np.arange(n)
    if jitter:
        t = t + dt * np.array([r.uniform(-0.2, 0.2) for _ in range(n)])
    ds = DataSet(Xrep=r.choice(["nodal", "cellaverage"]), Trep="timeevol")
    names = r.sample(NAMES, r.randint(1, 3))
    data = {k: series(r, n, dt) for k in names}
    order = names + ["time"]
    r.shuffle(order)
    for k in order:
        ds.add_data(k, t.copy() if k == "time" else data[k].copy())
    return ds, t, dt, data


def watch(f):
    h = Warned()
    lg = logging.getLogger("cfdtools")
    level = lg.level
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    try:
        return f(), h.n
    finally:
        lg.removeHandler(h)
        lg.setLevel(level)


def pick(r, data):
    c = r.random()
    if c < 0.4:
        return None, sorted(data)
    sel = r.sample(sorted(data), r.randint(1, len(data)))
    want = sorted(sel)
    if c < 0.7:
        sel.insert(r.randint(0, len(sel)), "time")
    return sel, want


def run(case, mon):
    r = random.Random(case["seed"])
    n, kind = case["n"], case["kind"]
    mon.stat("kind", kind)
    if kind == "refuse":
        return refuse(r, n, mon)
    if kind == "jitter":
        n = max(n, 4)
    if kind == "spectrogram":
        n = max(n, 16)
    ds, t, dt, data = build(r, n, kind == "jitter")
    sel, want = pick(r, data)
    sel0 = None if sel is None else list(sel)
    eps = {k: (3e-5 if v.dtype == np.float32 else 1e-10) * float(np.abs(v).max()) for k, v in data.items()}
    for again in range(2 if r.random() < 0.2 else 1):
        if kind == "steps":
            steps(r, mon)
        elif kind == "jitter":
            m, s, c = ds.dtstats()
            d = [t[i + 1] - t[i] for i in range(n - 1)]
            mean = sum(d) / len(d)
            std = math.sqrt(sum((x - mean) ** 2 for x in d) / len(d))
            mon.check("dtstats", abs(m - mean) <= 1e-12 * max(map(abs, t)) and abs(s - std) <= 1e-9 * mean and c == n, lambda: f"{m, s, c} expected {mean, std, n}")
            out, w = watch(lambda: ds.dataSet_spectrum(sel) if r.random() < 0.5 else ds.dataSet_spectrogram(sel, window=n - n % 2 or None))
            mon.check("warned", w > 0 or std < 1e-3 * mean, "time step which is not uniform is not reported")
        elif kind == "spectrum":
            spectrum(r, n, ds, t, dt, data, sel, want, eps, mon)
        else:
            spectrogram(r, n, ds, t, dt, data, sel, want, eps, mon)
        mon.check("input-untouched", sorted(ds.keys()) == sorted(list(data) + ["time"]) and ds.Trep == "timeevol" and sel == sel0, "data set or filter was modified")
        mon.equal("input-untouched", ds["time"], t, "time")
        for k, v in data.items():
            mon.equal("input-untouched", ds[k], v, k)


def steps(r, mon):
    """the time step changes out of the requested range"""
    dt = r.choice([1.0, 0.1, 1e-3, r.uniform(0.01, 1)])
    sizes = [r.randint(0, 20), r.randint(3, 40), r.randint(0, 20)]
    d = np.concatenate([np.full(k, dt * c) for k, c in zip(sizes, (r.uniform(0.2, 3), 1.0, r.uniform(0.2, 3)))])
    t = r.choice([0.0, 1.5, -3.0]) * dt + np.concatenate(([0.0], np.cumsum(d)))
    n, m = len(t), sizes[1] + 1
    lo, hi = sizes[0], sizes[0] + m
    x = np.array([r.gauss(0, 1) for _ in range(n)])
    ds = DataSet(Trep="timeevol")
    ds.add_data("time", t)
    ds.add_data("Q", x)
    a, b = r.choice([lo, lo - n]), r.choice([hi, hi - n if hi < n else None])
    got = ds.dtstats(a, b)
    mon.check("dtstats", abs(got[0] - dt) < 1e-9 * dt and got[1] < 1e-6 * dt and got[2] == m, lambda: f"{got} expected {dt, 0, m}")
    out, w = watch(lambda: ds.dataSet_spectrum(imin=a, imax=b))
    mon.check("warned", w == 0, "uniform time step of the range reported as not uniform")
    mon.close("freq", np.abs(out["freq"]), np.abs(np.array([k if 2 * k < m else k - m for k in range(m)])) / (m * dt), 1e-9 / dt, "frequencies of the range")
    mon.close("spectrum", out["Q"], dft(x[lo:hi], 0, 2 * np.pi * np.asarray(out["freq"]) * dt), 1e-8 * m, "spectrum of the range")
    mon.note(x, t)


def spectrum(r, n, ds, t, dt, data, sel, want, eps, mon):
    lo, hi = None, None
    c = r.random()
    if c > 0.4 and n >= 5:
        lo = r.choice([None, 0, r.randrange(0, n // 2), -r.randrange(3, n + 1)])
        hi = r.choice([None, n, n + 5, r.randrange(n // 2 + 2, n + 1)])
    idx = range(n)[lo:hi]
    if len(idx) < 2:
        lo, hi, idx = None, None, range(n)
    m = len(idx)
    m0 = ds.dtstats(lo, hi)
    mon.check("dtstats", abs(m0[0] - dt) < 1e-9 * dt and m0[1] < 1e-6 * dt and m0[2] == m, lambda: f"{m0} expected {dt, 0, m}")
    out, w = watch(lambda: ds.dataSet_spectrum(sel, lo, hi) if r.random() < 0.5 else ds.dataSet_spectrum(datafilter=sel, imin=lo, imax=hi))
    mon.check("warned", w == 0, "uniform time step reported as not uniform")
    mon.check("keys", sorted(out.keys()) == sorted(want + ["freq"]), lambda: f"{list(out.keys())} expected {want}")
    mon.check("keys", (out.Trep, out.Xrep, out.ndof) == ("spectrum", ds.Xrep, ds.ndof), "kind of data set")
    f = np.asarray(out["freq"])
    ref = np.array([k if 2 * k < m else k - m for k in range(m)]) / (m * dt)
    mon.check("freq", f.shape == (m,), f"{f.shape} frequencies for {m} samples")
    sgn = np.where(np.arange(m) * 2 == m, np.sign(f) * np.sign(ref), 1)  # n/2 is both signs
    mon.close("freq", f * sgn, ref, 1e-9 / dt, "frequencies")
    for k in want:
        x = np.asarray(data[k], dtype=float)[idx.start : idx.stop]
        mon.check("spectrum", np.shape(out[k]) == (m,), f"{np.shape(out[k])}")
        mon.close("spectrum", out[k], dft(x, 0, 2 * np.pi * f * dt), eps[k] * m, f"spectrum of {k}")
        mon.note(np.asarray(out[k]))
    if r.random() < 0.4:  # several columns, each one is a series
        shape = r.choice([(1,), (2,), (3,), (n,), (2, 2)])
        x = np.random.default_rng(r.randrange(10**9)).normal(size=(n, *shape))
        d3 = DataSet(Trep="timeevol")
        d3.add_data("time", t)
        d3.add_data("U", x.copy())
        p = np.asarray(d3.dataSet_spectrum(imin=lo, imax=hi)["U"])
        mon.check("columns", p.shape == (m, *shape), lambda: f"{p.shape} for {m} samples of {shape}")
        x, p = x[idx.start : idx.stop].reshape(m, -1), p.reshape(m, -1)
        for k in range(min(4, x.shape[1])):
            mon.close("columns", p[:, k], dft(x[:, k], 0, 2 * np.pi * f * dt), 1e-9 * m * m, f"spectrum of column {k} of {shape}")
    # a wave shows at its frequency
    q = r.randint(1, max(1, (m - 1) // 2))
    if m >= 5:
        d2 = DataSet(Trep="timeevol")
        d2.add_data("time", t)
        a = r.uniform(0.5, 5)
        d2.add_data("w", 1.0 + a * np.cos(2 * np.pi * q / (m * dt) * (t - t[idx.start]) + r.uniform(0, 6)))
        o = d2.dataSet_spectrum(imin=lo, imax=hi)
        p = np.array(o["w"])
        mon.close("peak", p[0], m, 1e-7 * m * a, "mean")
        for i in range(m):
            e = m if i == 0 else (a * m / 2 if abs(abs(o["freq"][i]) - q / (m * dt)) < 1e-6 / (m * dt) else 0.0)
            mon.check("peak", abs(p[i] - e) < 1e-6 * m * a, lambda: f"amplitude {p[i]} at {o['freq'][i]}, expected {e}")


def spectrogram(r, n, ds, t, dt, data, sel, want, eps, mon):
    if n >= 400 and r.random() < 0.5:
        win, arg = n // 100, None
    else:
        win = arg = r.choice([8, 9, 12, 15, max(8, n // 2), max(8, n - 1), max(8, n - n % 2), 10])
        win = arg = min(arg, n - 1)
    if win < 4:
        raise_skip()
    out, w = watch(lambda: ds.dataSet_spectrogram(sel, window=arg) if arg else ds.dataSet_spectrogram(sel))
    mon.check("warned", w == 0, "uniform time step reported as not uniform")
    mon.check("keys", sorted(out.keys()) == sorted(want + ["freq", "time"]), lambda: f"{list(out.keys())} expected {want}")
    mon.check("keys", (out.Trep, out.Xrep, out.ndof) == ("spectrogram", ds.Xrep, ds.ndof), "kind of data set")
    f, tt = np.asarray(out["freq"]), np.asarray(out["time"])
    h = win // 2
    size = 2 * h + 1
    mon.close("sg-freq", f, np.arange(2, h + 1) / (size * dt), 1e-9 / dt, "frequencies of windows")
    centers = list(range(h, n - h, h))
    mon.equal("sg-time", tt, t[centers], "instants of windows")
    hann = 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(size) / (size - 1))
    for k in want:
        a = np.asarray(out[k])
        mon.check("sg-value", a.shape == (len(tt), len(f)), f"{a.shape} values for {len(tt)} instants and {len(f)} frequencies")
        x = np.asarray(data[k], dtype=float)
        for i, c in enumerate(centers):
            ref = dft(hann * x[c - h : c + h + 1], 0, 2 * np.pi * f * dt)
            mon.close("sg-value", np.exp(a[i]), ref, eps[k] * size, f"{k} at {tt[i]}")
        mon.note(a)


def raise_skip():
    from vmon.core import Skip

    raise Skip("window too small")


def refuse(r, n, mon):
    n = max(n, 30)
    ds, t, dt, data = build(r, n)
    what = r.choice(["missing", "notime", "instant"])
    if what == "notime":
        ds.pop("time")
    if what == "instant":
        ds2 = DataSet(Trep=r.choice(["instant", "spectrum"]))
        for k, v in ds.items():
            ds2.add_data(k, v)
        ds = ds2
    sel = ["none"] if what == "missing" else None
    for f in (lambda: ds.dataSet_spectrum(sel), lambda: ds.dataSet_spectrogram(sel, window=8)):
        try:
            f()
        except (Exception, SystemExit):
            mon.check("refuse", True)
        else:
            mon.check("refuse", False, f"spectrum given: {what}")
    mon.note(what, n, t)
