"""C18 plane statistics of VTK meshes: average, rms and modes are those of the cells aligned along the direction"""
import math
import random

import numpy as np
import pyvista as pv

from cfdtools.vtk import vtkMesh

from c15 import VT, grid_cells, pvgrid
from vmon import gen

ID = "C18"
RULE = (
    "random planar meshes extruded in uniform planes along z, x, y or an angle, cells and nodes in any order, fields of several types; "
    "statistics of each column of cells recomputed by explicit sums and looked up by position; altered meshes which must be refused; "
    "distinct by the values"
)
REQUIRED = ["names", "avg", "rms", "mode", "phase", "snapshot", "slice-cells", "refuse", "input-untouched"]


def cases(tier, rng):
    n = 660 if tier == "quick" else 1500
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 8 == 0
        spec = gen.spec2(rng, 4 if not big else 12)
        spec["jitter"] = rng.choice([0.0, 0.1])
        out.append({"spec": spec, "seed": rng.randrange(10**9), "nz": rng.choice([2, 3, 4, 5, 8, 9] if not big else [16, 33]), "dir": rng.choice(["z", "z", "x", "y", "theta", "-z"]),
                    "bad": rng.choice([None] * 14 + ["gap", "missing", "shifted", "flat", "key", "twice", "more"])})  # fmt: skip
    return gen.widen(out, rng)


def extrude(g, z, cyl):
    """3D mesh made of planes of g: (points, cells with (column, plane))"""
    n = g.nnode
    pts = np.vstack([np.column_stack([g.xyz[:, 0], g.xyz[:, 1], np.full(n, zz)]) for zz in z])
    cells = []
    for k in range(len(z) - 1):
        for c, (t, nodes) in enumerate(g.cells):
            low, up = [k * n + i for i in nodes], [(k + 1) * n + i for i in nodes]
            cells.append(({"tri3": "prism6", "quad4": "hexa8"}[t], tuple(low + up), c, k))
    return pts, cells


SPLIT = {
    "z": None,
    "-z": lambda x: (x[:, 0:2], -x[:, 2]),
    "x": lambda x: (x[:, 1:3], x[:, 0]),
    "y": lambda x: (x[:, [0, 2]], x[:, 1]),
    "theta": lambda x: (np.column_stack([np.hypot(x[:, 0], x[:, 1]), x[:, 2]]), np.arctan2(x[:, 1], x[:, 0])),
}


def field(r, n):
    k = r.choice(["f8", "f8", "f8", "f4", "i8", "v3", "t4", "u1", "i1", "i2", "b1"])
    if k in ("u1", "i1", "i2", "b1"):
        lo, hi = {"u1": (0, 256), "i1": (-128, 128), "i2": (20000, 32768), "b1": (0, 2)}[k]
        return np.array([r.randrange(lo, hi) for _ in range(n)]).astype("u1" if k == "b1" else k)
    m = {"v3": 3, "t4": 4}.get(k, 1)
    a = np.array([r.gauss(0, 1) for _ in range(m * n)]) * r.choice([1.0, 1e-3, 1e5]) + r.choice([0.0, 10.0])
    if m > 1:
        return a.reshape(n, m)
    return np.round(a * 10).astype(int) if k == "i8" else a.astype(k)


def run(case, mon):
    r = random.Random(case["seed"])
    g = gen.make(case["spec"])
    nz, d = case["nz"], case["dir"]
    dz = r.choice([1.0, 0.05, 0.3, 7.0, 250.0])
    small = r.random() < 0.4  # a defect which is just above the tolerance
    tol = r.choice([None, 1e-5, 1e-4])
    z0 = r.choice([0.0, -0.4, 2.0])
    if d == "theta":
        dz = min(dz, 1.0 / nz)
        z0 = 0.1
        g.xyz[:, 0] += 1.0 - g.xyz[:, 0].min()
    z = z0 + dz * np.arange(nz + 1)
    bad = case["bad"]
    if bad == "missing" and g.ncell == 1:
        bad = None  # still a mesh of planes
    if bad == "gap" and nz > 2:
        z[nz:] += 40 * (tol or 1e-6) if small else 0.2 * dz
    pts, cells = extrude(g, z, False)
    if bad == "shifted":
        k = r.choice([nz, r.randrange(1, nz)]) if nz > 2 else nz
        for i in range(g.nnode):
            pts[k * g.nnode + i, :2] += 40 * (tol or 1e-6) if small else 0.02 * min(case["spec"]["size"][:2])
    if d == "x":
        pts = pts[:, [2, 0, 1]]
    elif d == "y":
        pts = pts[:, [0, 2, 1]]
        cells = [(t, (*n[len(n) // 2 :], *n[: len(n) // 2]), c, k) for t, n, c, k in cells]
    elif d == "theta":
        rad, ang, h = pts[:, 0].copy(), pts[:, 2].copy(), pts[:, 1].copy()
        pts = np.column_stack([rad * np.cos(ang), rad * np.sin(ang), h])
    if bad == "missing":
        cells.pop(r.randrange(len(cells)))
    elif bad == "more":
        cells.append(cells[r.randrange(len(cells))])
    elif bad == "flat":
        cells = [c for c in cells if c[3] == 0]
    elif bad == "twice":
        k = r.randrange(1, nz) - (d == "-z")
        plane = [i for i, c in enumerate(cells) if c[3] == k]
        if len(plane) < 2:
            bad = None
        else:
            i, j = r.sample(plane, 2)
            cells[i] = cells[j]
    elif bad == "gap" and nz <= 2:
        bad = None
    order = list(range(len(cells)))
    perm = np.arange(len(pts))
    if r.random() < 0.8:
        r.shuffle(order)
        perm = np.array(r.sample(range(len(pts)), len(pts)))
    if bad == "twice" and r.random() < 0.5:
        # the missing cell is the one of the first plane which is first in the file
        lost = [c for c in range(g.ncell) if c not in [x[2] for x in cells if x[3] == k]][0]
        f = next(i for i in order if cells[i][2] == lost and cells[i][3] == (nz - 1 if d == "-z" else 0))
        order.remove(f)
        order.insert(0, f)
    xyz = np.empty_like(pts)
    xyz[perm] = pts
    cells = [(cells[i][0], tuple(int(perm[n]) for n in cells[i][1]), cells[i][2], cells[i][3]) for i in order]
    grid = pvgrid(gen.GMesh(3, xyz, [c[:2] for c in cells], {}))
    names = r.sample(["P", "Q", "U", "rho_AVG", "T k1", "é%d"], r.randint(1, 3))
    data = {n: field(r, len(cells)) for n in names}
    for n in names:
        grid.cell_data[n] = data[n]
    grid.point_data["nodal"] = np.arange(len(xyz))
    before = grid.copy()
    mesh = vtkMesh(pvmesh=grid) if r.random() < 0.7 else reread(mon, grid)
    kw = {} if SPLIT[d] is None and r.random() < 0.7 else {"splitcoords": SPLIT[d] or (lambda x: (x[:, :2], x[:, 2]))}
    if tol:
        kw["tol"] = tol
    mon.stat("dir", d)
    mon.stat("bad", bad)
    want = {}
    if r.random() < 0.5:
        opts = {}
        for o in ("rms", "snapshot", "phase"):
            if r.random() < 0.5:
                opts[o] = True
        if r.random() < 0.6:
            opts["nmode"] = r.randint(0, min(nz - 1, 4))
        want = {n: {"avg": True, **opts} for n in names}
        kw.update(opts)
    else:
        sel = {}
        for n in r.sample(names, r.randint(1, len(names))):
            o = r.choice(["avg", "rms", "snapshot", "list", "list"])
            if o == "list":
                lst, w = [], {"avg": True}
                for x in r.sample(["no_avg", "avg", "rms", "snapshot", "phase", "nmode"], r.randint(1, 4)):
                    if x == "no_avg" and "avg" not in lst:
                        w["avg"] = False
                        lst.append(x)
                    elif x == "avg" and "no_avg" not in lst:
                        lst.append(x)
                    elif x == "nmode":
                        w["nmode"] = r.randint(1, min(nz - 1, 4))
                        lst.append({"nmode": w["nmode"]})
                    elif x in ("rms", "snapshot", "phase"):
                        w[x] = True
                        lst.append(x)
                sel[n] = lst
                want[n] = w
            else:
                sel[n] = o
                want[n] = {"avg": True, o: True}
        if bad == "key":
            sel[r.choice(["none", "p", "P_avg", ""])] = "avg"
        kw["select"] = sel
    if bad == "key" and "select" not in kw:
        kw["select"] = {"none": "rms"}
    if bad:
        refused(mon, lambda: mesh.vtk_zconvolution(**kw), f"mesh or option which cannot be averaged ({bad})")
        return
    out = mesh.vtk_zconvolution(**kw)
    judge(mon, case, out, grid, cells, xyz, data, want, nz, g.ncell)
    g2 = mesh.pyvista_grid
    same = g2.n_cells == before.n_cells and np.array_equal(g2.points, before.points) and np.array_equal(g2.cells, before.cells)
    same = same and list(g2.cell_data.keys()) == list(before.cell_data.keys()) and all(np.array_equal(g2.cell_data[k], before.cell_data[k]) for k in before.cell_data.keys())
    mon.check("input-untouched", same, "input mesh was modified")
    if r.random() < 0.3:
        judge(mon, case, mesh.vtk_zconvolution(**kw), grid, cells, xyz, data, want, nz, g.ncell)


def reread(mon, grid):
    grid.save(mon.path("in.vtu"))
    return vtkMesh().read(mon.path("in.vtu"))


def refused(mon, f, what):
    try:
        f()
    except (Exception, SystemExit):
        mon.check("refuse", True)
        return
    mon.check("refuse", False, f"{what} accepted")


def judge(mon, case, out, grid, cells, xyz, data, want, nz, ncol):
    o = out.pyvista_grid
    expected = {}
    for n, w in want.items():
        for k in ("avg", "rms"):
            if w.get(k):
                expected[f"{n}_{k}"] = (n, k, None)
        if w.get("snapshot"):
            expected[n] = (n, "snapshot", None)
        for m in range(1, w.get("nmode", 0) + 1):
            expected[f"{n}_k{m}"] = (n, "mode", m)
            if w.get("phase"):
                expected[f"{n}_k{m}_phase"] = (n, "phase", m)
    mon.check("names", sorted(o.cell_data.keys()) == sorted(expected), f"fields {sorted(o.cell_data.keys())} expected {sorted(expected)}")
    # cells of the slice are those of the first plane
    first = nz - 1 if case["dir"] == "-z" else 0
    col = {}
    for i, c in enumerate(cells):
        col.setdefault(c[2], {})[c[3]] = i
    key = lambda t, p: (t, tuple(tuple(x) for x in p))
    where = {key(cells[x[first]][0], xyz[list(cells[x[first]][1])]): c for c, x in col.items()}
    got = [where.get(key(t, o.points[list(n)])) for t, n in grid_cells(o)]
    mon.check("slice-cells", None not in got and sorted(got) == list(range(ncol)), lambda: f"cells of the slice are not those of the first plane: {got}")
    planes = range(nz) if first == 0 else range(nz - 1, -1, -1)
    for name, (n, what, m) in expected.items():
        d = data[n]
        eps = 2e-5 if d.dtype == np.float32 else 1e-11
        scale = max(1e-30, float(np.abs(d).max()))
        a = np.asarray(o.cell_data[name])
        mon.check(what, a.shape == (ncol,) + d.shape[1:], f"{name}: {a.shape}")
        for i, c in enumerate(got):
            v = np.array([d[col[c][k]] for k in planes], dtype=float)
            if what == "avg":
                ref = v.sum(axis=0) / nz
            elif what == "rms":
                mean = v.sum(axis=0) / nz
                ref = np.sqrt(((v - mean) ** 2).sum(axis=0) / nz)
            elif what == "snapshot":
                ref = v[0]
            else:
                f = sum(v[k] * complex(math.cos(2 * math.pi * m * k / nz), -math.sin(2 * math.pi * m * k / nz)) for k in range(nz)) / math.sqrt(nz)
                if what == "mode":
                    ref = np.abs(f)
                else:
                    ok = np.abs(f) > 1e-3 * scale
                    diff = np.abs(np.exp(1j * a[i]) - f / np.where(np.abs(f) > 0, np.abs(f), 1))
                    mon.check("phase", np.all(diff[ok] < 1e-2 if eps > 1e-6 else diff[ok] < 1e-7), lambda: f"{name}: phase {a[i]} expected {np.angle(f)}")
                    mon.check("phase", np.all(np.abs(a[i]) <= math.pi + 1e-9), "phase range")
                    continue
            tol = eps * scale * (nz if what == "mode" else 1) * 4
            mon.check(what, np.all(np.abs(a[i] - ref) <= tol), lambda: f"{name} of column {c}: {a[i]} expected {ref}")
        mon.note(a)
