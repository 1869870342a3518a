"""C24 line probes: quantities are those of the files or their formulas, maps show them at their place and instant"""
import logging
import math
import os
import random

import numpy as np

from vmon import clicase, rig

ID = "C24"
RULE = (
    "random probe files (coordinates on one or several lines, numbers of points and instants, formats of numbers, folders) in which some are missing; "
    "requests of direct and derived quantities in any order compared with formulas; maps made by the tool compared with what is drawn and files written; distinct by values"
)
REQUIRED = ["direct", "time", "coordinate", "derived", "missing", "map-axes", "map-values", "map-file", "freq-values", "map-missing", "files-unchanged"]

COMP = ["U-X", "U-Y", "U-Z", "P", "RHO"]
DERIVED = {
    "U": ["U-X", "U-Y", "U-Z"],
    "Asound": ["P", "RHO"],
    "S": ["P", "RHO"],
    "Mach": ["U-X", "U-Y", "U-Z", "P", "RHO"],
    "INVX+": ["U-X", "P", "RHO"],
    "INVX-": ["U-X", "P", "RHO"],
}


def cases(tier, rng):
    n = 480 if tier == "quick" else 2500
    return [{"seed": rng.randrange(10**9), "kind": rng.choice(["data", "data", "data", "time", "time", "freq", "nofile"])} for i in range(n)]


def formula(name, d):
    n, m = d["P"].shape if "P" in d else d["U-X"].shape
    out = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            g = lambda k: float(d[k][i, j])
            a = lambda: math.sqrt(1.4 * g("P") / g("RHO"))
            u = lambda: math.sqrt(g("U-X") ** 2 + g("U-Y") ** 2 + g("U-Z") ** 2)
            out[i, j] = {
                "U": u,
                "Asound": a,
                "S": lambda: (math.log(g("P")) - 1.4 * math.log(g("RHO"))) / 0.4,
                "Mach": lambda: u() / a(),
                "INVX+": lambda: 5 * a() + g("U-X"),
                "INVX-": lambda: 5 * a() - g("U-X"),
            }[name]()
    return out


def fields(r, n, m):
    arr = lambda lo, hi: np.array([[r.uniform(lo, hi) for _ in range(m)] for _ in range(n)])
    s = r.choice([1.0, 1e5, 1e-3])
    return {"U-X": arr(-300, 300), "U-Y": arr(-1, 1), "U-Z": arr(-10, 0), "P": s * arr(0.5, 2), "RHO": arr(0.8, 1.4)}


def write(r, prefix, name, t, a, it0, fmt):
    with open(f"{prefix}.{name}", "w") as f:
        for k in range(len(a)):
            f.write(" ".join([str(it0 + 10 * k), fmt(t[k]), str(a.shape[1])] + [fmt(x) for x in a[k]]) + "\n")


def build(r, mon, n, m, plot=False):
    folder = r.choice(["", "probe dir", mon.path("abs.d"), "..//" + os.path.basename(os.getcwd())])
    if folder:
        os.makedirs(folder, exist_ok=True)
    prefix = os.path.join(folder, r.choice(["probe", "line.1", "a b", "run_01.X", "probe"]))
    fmt = r.choice([lambda x: repr(float(x)), lambda x: f"{x:.17e}", lambda x: f"{x:.16E}"])
    dt = r.choice([1.0, 1e-6, 0.125, r.uniform(0.01, 1)])
    t = r.choice([0.0, 0.0, 10 * dt]) + dt * np.arange(n)
    if not plot and r.random() < 0.3:
        t = np.cumsum([r.uniform(0.1, 1) for _ in range(n)])
    elif plot and r.random() < 0.3:  # steps which are not exactly the same
        t = t + np.cumsum([r.uniform(0, 1e-3 * dt) for _ in range(n)])
    it0 = r.choice([0, 1000])
    xyz = {c: np.array(sorted(r.uniform(-2, 2) for _ in range(m))) for c in "XYZ"}
    many = {c: r.random() < 0.5 for c in "XYZ"}
    for c in "XYZ":
        k = n if many[c] else 1
        write(r, prefix, c, t - (0.25 if many[c] else 0), np.tile(xyz[c], (k, 1)), it0 + 7, fmt)
    d = fields(r, n, m)
    return folder, prefix, t, xyz, d, it0, fmt


def run(case, mon):
    r = random.Random(case["seed"])
    mon.stat("kind", case["kind"])
    if case["kind"] == "data":
        return requests(r, mon)
    if case["kind"] == "nofile":
        return nofile(r, mon)
    return maps(r, mon, case["kind"])


def requests(r, mon):
    from cfdtools.probes.data import phydata

    n, m = r.randint(2, 12), r.randint(1, 7)
    folder, prefix, t, xyz, d, it0, fmt = build(r, mon, n, m)
    missing = set(r.sample(COMP, r.choice([0, 0, 0, 1, 2])))
    for k in COMP:
        if k not in missing:
            write(r, prefix, k, t, d[k], it0, fmt)
    own = {}  # a derived quantity which has its own file
    if r.random() < 0.3:
        k = r.choice(sorted(DERIVED))
        own[k] = np.array([[r.uniform(1, 2) for _ in range(m)] for _ in range(n)])
        write(r, prefix, k, t, own[k], it0, fmt)
    other = {}  # series which has its own instants
    if r.random() < 0.4:
        k = r.choice([n + r.randint(1, 5), n, max(2, n - 1)])
        other["VORT"] = (t[0] + 0.375 + 2 * np.arange(k), np.array([[r.uniform(1, 2) for _ in range(m)] for _ in range(k)]))
        write(r, prefix, "VORT", *other["VORT"], it0, fmt)
    instants = None  # those of the first series
    before = rig_snapshot()
    p = phydata(prefix, verbose=r.random() < 0.3)
    late = None

    def want(k):
        """value expected for k, None if it cannot be known"""
        if k in own:
            return own[k]
        if k in COMP:
            return None if k in missing else d[k]
        if k == "Mach":
            u, a = want("U"), want("Asound")
            return None if u is None or a is None else u / a
        if k[:4] == "INVX":
            u, a = want("U-X"), want("Asound")
            return None if u is None or a is None else 5 * a + (u if k[4] == "+" else -u)
        return None if any(x in missing for x in DERIVED[k]) else formula(k, d)

    asked = []
    for _ in range(r.randint(3, 10)):
        k = r.choice(COMP + sorted(DERIVED) * 2 + ["X", "Y", "Z", "none", "time"])
        if k == "time" and "time" not in p.alldata:
            continue
        if other and r.random() < 0.3:
            if instants is None and any(x in p.alldata for x in COMP + sorted(own)):
                instants = t
            p.check_data("VORT", prefix=prefix)
            mon.equal("direct", p.alldata["VORT"], other["VORT"][1], "VORT")
            instants = other["VORT"][0] if instants is None else instants
            mon.equal("time", p.alldata["time"], instants, "time")
        if k in "XYZ":
            p.check_data(k, prefix=prefix)
            mon.equal("coordinate", p.alldata[k], xyz[k], k)
        elif k == "time":
            p.check_data(k, prefix=prefix)
        elif k == "none" or want(k) is None:
            try:
                p.check_data(k, prefix)
            except NameError:
                mon.check("missing", k not in p.alldata, f"{k} is unknown but given")
            else:
                mon.check("missing", False, f"{k} accepted, missing files {sorted(missing)}")
            if k in missing and r.random() < 0.5:
                missing.discard(k)  # file comes later
                write(r, prefix, k, t, d[k], it0, fmt)
                before = rig_snapshot()
        else:
            p.check_data(k, prefix=prefix)
            asked.append(k)
            ref = want(k)
            if k in COMP or k in own:
                mon.equal("direct", p.alldata[k], ref, k)
            else:
                scale = 1e-12 * max(1.0, float(np.abs(ref).max()), 5 * float(np.abs(d["U-X"]).max()) if k[:4] == "INVX" else 0)
                mon.close("derived", p.alldata[k], ref, scale, k)
            mon.note(k, np.asarray(p.alldata[k]))
            instants = t if instants is None else instants
            mon.equal("time", p.alldata["time"], instants, "time")
    for k in asked:  # later requests changed nothing
        ref = want(k)
        mon.close("derived", p.alldata[k], ref, 1e-12 * max(1.0, float(np.abs(ref).max()) * 10), k)
    mon.check("files-unchanged", rig_snapshot() == before, "files were changed")
    mon.note(n, m, t)


class Format(logging.Handler):
    """messages have to be printable"""

    def emit(self, record):
        record.getMessage()


def logged(f, *args):
    lg = logging.getLogger("cfdtools")
    h, level, old = Format(), lg.level, list(lg.handlers)
    lg.addHandler(h)
    for x in old:
        lg.removeHandler(x)
    lg.setLevel(logging.INFO)
    try:
        return f(*args)
    finally:
        for x in old:
            lg.addHandler(x)
        lg.removeHandler(h)
        lg.setLevel(level)


def rig_snapshot():
    return clicase.snapshot(os.getcwd())


def nofile(r, mon):
    import cfdtools._cli as cli

    folder, prefix, t, xyz, d, it0, fmt = build(r, mon, 5, 4)
    for k in ("P", "U-X"):
        write(r, prefix, k, t, d[k], it0, fmt)
    os.remove(f"{prefix}.Z")
    before = rig_snapshot()
    args = r.choice([["--data", "RHO"], ["--data", "Mach"], ["--data", "S"], ["--axis", "Z"], ["--data", "none"], ["--data", "P", "--axis", "T"], ["--map", "none"]])
    try:
        cli.ic3probe_plotline([prefix] + args)
    except (Exception, SystemExit):
        mon.check("map-missing", True)
    else:
        mon.check("map-missing", False, f"map of a missing quantity {args}")
    mon.check("map-missing", rig_snapshot() == before, "files were changed")
    mon.note(args, prefix)


def maps(r, mon, kind):
    import matplotlib
    import matplotlib.axes
    import matplotlib.figure

    import cfdtools._cli as cli

    n, m = (r.randint(2, 12), r.randint(2, 7)) if kind == "time" else (r.choice([600, 601, 850, 1200]), r.randint(2, 4))
    folder, prefix, t, xyz, d, it0, fmt = build(r, mon, n, m, True)
    for k in COMP:
        write(r, prefix, k, t, d[k], it0, fmt)
    axis = r.choice(["X", "X", "Y", "Z", "x"])
    if axis == "x":  # a coordinate which is not read on a single line
        xyz["x"] = np.array(sorted(r.uniform(0, 1) for _ in range(m)))
        write(r, prefix, "x", t, np.tile(xyz["x"], (r.choice([1, n]), 1)), it0, fmt)
    var = r.choice(COMP + sorted(DERIVED))
    ref = d[var] if var in COMP else formula(var, d)
    args = [prefix]
    if var != "P" or r.random() < 0.5:
        args += ["--data", var]
    if axis != "X" or r.random() < 0.5:
        args += ["--axis", axis]
    if kind != "time" or r.random() < 0.5:
        args += ["--map", kind]
    levels, cmap = r.choice([None, 5, 12]), r.choice([None, "jet", "viridis", "gray"])
    if levels:
        args += ["--cmaplevels", str(levels)]
    if cmap:
        args += ["--cmap", cmap]
    if r.random() < 0.3:
        args += ["--check"]
    if r.random() < 0.3:
        args += ["-v"]
    drawn, saved = [], []
    contourf, savefig = matplotlib.axes.Axes.contourf, matplotlib.figure.Figure.savefig

    def watch(self, *a, **kw):
        drawn.append((self, a, kw))
        return contourf(self, *a, **kw)

    def save(self, fname, *a, **kw):
        if isinstance(fname, (str, os.PathLike)):
            saved.append((os.fspath(fname), len(drawn), [x.get_xlabel() for x in self.axes], [x.get_ylabel() for x in self.axes]))
        return savefig(self, fname, *a, **kw)

    matplotlib.axes.Axes.contourf, matplotlib.figure.Figure.savefig = watch, save
    before = rig_snapshot()
    try:
        for again in range(r.choice([1, 1, 2])):
            drawn.clear(), saved.clear()
            logged(cli.ic3probe_plotline, list(args))
            judge(mon, kind, drawn, saved, prefix, axis, var, xyz, t, ref, levels, cmap, n, m)
    finally:
        matplotlib.axes.Axes.contourf, matplotlib.figure.Figure.savefig = contourf, savefig
    after = rig_snapshot()
    fig = f"{prefix}.{var}.{kind}.png"
    with open(fig, "rb") as f:
        mon.check("map-file", f.read(8) == b"\x89PNG\r\n\x1a\n", "not a PNG file")
    new = {k: v for k, v in after.items() if k not in before}
    mon.check("map-file", len(new) == 1 and os.path.realpath(fig) == os.path.realpath(list(new)[0]), lambda: f"new files {sorted(new)}, expected {fig}")
    mon.check("files-unchanged", all(after.get(k) == v for k, v in before.items() if not os.path.isdir(k)), "input files were changed")
    mon.note(kind, args, ref)


def judge(mon, kind, drawn, saved, prefix, axis, var, xyz, t, ref, levels, cmap, n, m):
    import matplotlib.pyplot as plt

    fig = f"{prefix}.{var}.{kind}.png"
    mon.check("map-file", len(saved) == 1 and os.path.realpath(saved[0][0]) == os.path.realpath(fig) and saved[0][1] == 1, lambda: f"figures saved {saved}, expected {fig}")
    mon.check("map-axes", axis in saved[0][2], lambda: f"labels {saved[0][2]}")
    a, kw = drawn[0][1:]
    x, y, z = (np.asarray(v, dtype=float) for v in a[:3])
    mon.close("map-axes", x, xyz[axis], 1e-14 * 10, "axis")
    nl = levels or 30
    cm = kw.get("cmap")
    want = plt.get_cmap(cmap or "turbo", nl)
    if cm is not None and not isinstance(cm, str):
        mon.check("map-axes", cm.N == nl and np.allclose([cm(i) for i in range(nl)], [want(i) for i in range(nl)], atol=1e-2), lambda: f"colors of {cmap}, {nl} levels")
    if kind == "time":
        mon.equal("map-axes", y, t, "time")
        mon.close("map-values", z, ref, 1e-12 * max(1.0, float(np.abs(ref).max()) * 10), var)
        return
    dt = (t[-1] - t[0]) / (n - 1)
    mon.check("map-axes", y.ndim == 1 and len(y) >= 2 and z.shape == (len(y), m), lambda: f"{y.shape} frequencies, {z.shape} values")
    mon.close("map-axes", y, np.arange(1, len(y) + 1) / (n * dt), 1e-9 / (n * dt) * len(y), "frequencies")
    j = np.arange(n)
    for i in range(len(y)):
        w = 2 * np.pi * (i + 1) / n * j
        v = ref - ref.mean()
        e = np.hypot((np.cos(w)[:, None] * v).sum(axis=0), (np.sin(w)[:, None] * v).sum(axis=0))
        mon.close("freq-values", z[i], e, 1e-10 * n * float(np.abs(v).max()), f"{var} at frequency {i+1}")
