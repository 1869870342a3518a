"""C23 weights of one-dimensional polynomial bases give exact values and derivatives of polynomials"""
import random

import numpy as np

from cfdtools.utils.polybase import poly1d
from vmon.core import Skip

ID = "C23"
RULE = (
    "orders, bases and points (scalars, arrays, at, between and outside of the nodes) drawn at random, several bases used in turn; "
    "values and derivatives of random polynomials of each degree recomputed from weights and Gauss nodes; distinct by weights"
)
REQUIRED = ["value", "derivative", "cardinal", "shape", "repeat", "bases-agree"]


def cases(tier, rng):
    n = 600 if tier == "quick" else 3000
    return [{"seed": rng.randrange(10**9), "nb": rng.randint(1, 4)} for i in range(n)]


def gauss(n):
    """Gauss-Legendre nodes, by Newton iterations on the recurrence"""
    x = -np.cos(np.pi * (np.arange(n) + 0.75) / (n + 0.5))
    for _ in range(50):
        p0, p1 = np.ones(n), x.copy()
        for k in range(2, n + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        d = n * (x * p1 - p0) / (x * x - 1) if n > 1 else np.ones(1)
        if n == 1:
            return np.zeros(1)
        x = x - p1 / d
    return x


def horner(c, x):
    s = np.zeros_like(x)
    for a in reversed(c):
        s = s * x + a
    return s


def run(case, mon):
    r = random.Random(case["seed"])
    bases = []
    for _ in range(case["nb"]):
        order, series = r.randint(1, 10), r.choice(["legendre", "polynomial", None])
        b = poly1d(order, series) if series else poly1d(order)
        bases.append((order, b))
        for name in r.choice([[], ["vdm"], ["invvdm"], ["vdm", "invvdm"], ["invvdm", "vdm"]]):  # matrices asked for beforehand
            m = getattr(b, name)
            mon.check("shape", np.shape(m) == (order, order), f"{name}: {np.shape(m)}")
    for _ in range(3 * len(bases)):
        order, b = r.choice(bases)
        nodes = gauss(order)
        kind = r.choice(["scalar", "int", "array", "nodes", "one", "empty", "table", "table", "ints"])
        lim = r.choice([1.0, 1.0, 1.3])
        x = {"scalar": r.uniform(-lim, lim), "int": r.choice([-1, 0, 1]), "array": np.array([r.uniform(-lim, lim) for _ in range(r.randint(2, 9))]),
             "nodes": nodes.copy(), "one": np.array([r.uniform(-1, 1)]), "empty": np.zeros(0),
             "table": np.random.default_rng(r.randrange(10**9)).uniform(-lim, lim, r.choice([(order, 2), (2, order), (order, order), (3, 1), (1, 4), (2, 2, 3), (order, order, 2), (0, 2)])),
             "ints": np.array([r.choice([-1, 0, 1]) for _ in range(r.randint(1, 4))])}[kind]  # fmt: skip
        mon.stat("kind", kind)
        x0 = np.array(x, dtype=float)
        mon.stat("dim", x0.ndim)
        names = [("interp_weights", "diff_weights"), ("value_weights", "gradv_weights")][r.random() < 0.4]
        fw, fd = getattr(b, names[0]), getattr(b, names[1])
        if r.random() < 0.5:
            w, d = fw(x), fd(x)
        else:
            d, w = fd(x), fw(x)
        w, d = np.array(w), np.array(d)
        mon.check("shape", w.shape == (order,) + x0.shape == d.shape, f"{w.shape}, {d.shape} for {x0.shape} and order {order}")
        size = (max(1.0, float(np.abs(w).sum(axis=0).max())), max(1.0, float(np.abs(d).sum(axis=0).max()))) if x0.size else (1, 1)
        tol = 1e-12 * 4.0**order
        for deg in range(order):
            c = [r.uniform(-1, 1) for _ in range(deg + 1)]
            c[deg] += 1.0 if c[deg] > 0 else -1.0
            dc = [k * c[k] for k in range(1, deg + 1)]
            v = horner(c, nodes)
            mon.close("value", np.tensordot(v, w, 1), horner(c, x0), tol * size[0], f"degree {deg}, order {order}, at {x}")
            mon.close("derivative", np.tensordot(v, d, 1), horner(dc, x0), tol * size[1], f"degree {deg}, order {order}, at {x}")
        if kind == "nodes":
            mon.close("cardinal", w, np.eye(order), tol, "weights at nodes")
        mon.equal("repeat", np.array(fw(x)), w, "same request again")
        mon.equal("repeat", np.array(fd(x)), d, "same request again")
        mon.check("repeat", np.array_equal(np.array(x, dtype=float), x0), "points were modified")
        for o in ("legendre", "polynomial"):
            o = poly1d(order, series=o)
            mon.close("bases-agree", o.interp_weights(x), w, tol * size[0], "weights of the other basis")
            mon.close("bases-agree", o.diff_weights(x), d, tol * size[1], "weights of the other basis")
        if x0.size and isinstance(x, np.ndarray):  # other points in the same array
            x[...] = np.random.default_rng(r.randrange(10**9)).uniform(-1, 1, x.shape) if x.dtype.kind == "f" else 1 - x
            x1 = x.astype(float)
            c = [r.uniform(-1, 1) for _ in range(order)]
            v, dc = horner(c, nodes), [k * c[k] for k in range(1, order)]
            fns = [("value", fw, c), ("derivative", fd, dc)]
            r.shuffle(fns)
            for q, f, p in fns:
                y = np.asarray(f(x))
                mon.close(q, np.tensordot(v, y, 1), horner(p, x1), tol * max(1.0, float(np.abs(y).sum(axis=0).max())), f"order {order}, other points in the same array")
        mon.note(order, w, d)
