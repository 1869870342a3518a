"""C16 series of VTK files: values follow their cell whatever the order in each file, other meshes are refused"""
import os
import random

import h5py
import numpy as np
from scipy.spatial import cKDTree
import pyvista as pv

from cfdtools.vtk import vtkList, vtkMesh

from c15 import VT, grid_cells, pvgrid
from vmon import gen, rig

ID = "C16"
RULE = (
    "random series of VTK files of one mesh (element types interleaved or not), cells and/or nodes shuffled in some files, "
    "scalars, vectors, integers, selections of fields, times; read and packed, each value looked up from the position of its "
    "cell; series with a displaced, missing, added, duplicated or replaced cell; distinct by the packed values"
)
REQUIRED = ["pack-import", "pack-cells", "pack-values", "pack-names", "pack-time", "order-cell", "order-node", "refuse", "all-exist", "files-untouched"]


def cases(tier, rng):
    n = 390 if tier == "quick" else 1500
    out = []
    for i in range(n):
        big = i % (40 if tier == "quick" else 8) == 0
        spec = gen.spec2(rng, 4 if not big else 14) if i % 4 == 0 else gen.spec3(rng, 3 if not big else 6)
        spec["jitter"] = rng.choice([0.0, 0.05, 0.15])
        out.append({"spec": spec, "seed": rng.randrange(10**9), "nfile": rng.choice([1, 2, 2, 3, 5]), "bad": i % 3 == 2, "grouped": rng.random() < 0.5})
    out = gen.widen(out, rng)
    for i, k in ((-1, 130), (-2, 260)):  # names of data sets are numbered
        out[i] = dict(out[i], spec=dict(out[i]["spec"], n=[2, 1, 1]), nfile=k, bad=False)
    out.append({"spec": {"dim": 3, "kind": "hex", "n": [2, 2, 1], "seed": 3, "size": [1.0, 1.0, 1.0]}, "seed": 5, "nfile": 2, "bad": False, "grouped": False, "finding": "field-time"})
    return out


def shuffled(g, r, cells, nodes):
    """the same mesh in another order: (mesh, original id of each cell)"""
    ids = list(range(g.ncell))
    perm = list(range(g.nnode))
    if cells == "two" and g.ncell > 1:  # cells of close ranks
        i = r.randrange(g.ncell - 1)
        ids[i], ids[i + 1] = ids[i + 1], ids[i]
    elif cells:
        r.shuffle(ids)
    if nodes:
        r.shuffle(perm)
    xyz = np.empty_like(g.xyz)
    xyz[perm] = g.xyz
    return gen.GMesh(g.dim, xyz, [(g.cells[i][0], tuple(perm[n] for n in g.cells[i][1])) for i in ids], {}), ids


def field(r, n):
    k = r.choice(["f8", "f8", "f4", "i8", "u1", "v3", "v3f4", "t9"])
    if k == "v3":
        return np.array([r.gauss(0, 1) for _ in range(3 * n)]).reshape(n, 3)
    if k == "v3f4":
        return np.array([r.gauss(0, 1) for _ in range(3 * n)], dtype=np.float32).reshape(n, 3)
    if k == "t9":
        return np.array([r.gauss(0, 1) for _ in range(9 * n)]).reshape(n, 9)
    if k in ("i8", "u1"):
        return np.array([r.randrange(200) for _ in range(n)], dtype=k)
    return np.array([r.gauss(0, 1) for _ in range(n)], dtype=k)


def write(path, g, ids, data, time):
    grid = pvgrid(g)
    for name, a in data.items():
        grid.cell_data[name] = a[ids]
    grid.point_data["nodal"] = np.arange(g.nnode)
    if time is not None:
        grid.field_data["TimeValue"] = [time]
    grid.save(path)


def check_pack(mon, h5, g, files, names):
    with h5py.File(h5) as h:
        xyz = h["mesh/nodes"][()]
        mon.equal("pack-cells", xyz, g.xyz, "nodes")
        cells = [(t, tuple(int(x) for x in row)) for t in h["mesh/cells"] for row in h[f"mesh/cells/{t}"][()]]
        types = list(h["mesh/cells"])
        mon.check("pack-cells", sorted(cells) == sorted((t, tuple(n)) for t, n in g.cells), "cells of the pack")
        where = {(t, tuple(n)): i for i, (t, n) in enumerate(g.cells)}
        mon.check("pack-names", sorted(h["datalist"]) == [f"i{i:06}" for i in range(len(files))], f"groups {sorted(h['datalist'])[:4]}")
        want = {t: [where[(t, tuple(int(x) for x in row))] for row in h[f"mesh/cells/{t}"][()]] for t in types}
        # data are in the order of the cells, as they are listed in the file
        order = sum((want[t] for t in types), [])
        imp = vtkMesh()
        imp.importhdfgroup(h["mesh"])
        grid = imp.pyvista_grid
        got = grid_cells(grid)
        mon.check("pack-import", [where.get((t, tuple(int(x) for x in n))) for t, n in got] == order, "cells of the pack once imported are not in the order of data")
        for i, (data, time, _) in enumerate(files):
            grp = h[f"datalist/i{i:06}"]
            mon.check("pack-names", sorted(grp) == sorted(names if names else data), f"file {i}: {sorted(grp)} expected {sorted(names if names else data)}")
            if time is None:
                mon.check("pack-time", "time" not in grp.attrs, f"time of file {i}")
            else:
                mon.check("pack-time", "time" in grp.attrs and float(np.ravel(grp.attrs["time"])[0]) == time, f"time of file {i}: {grp.attrs.get('time')} expected {time}")
            for n in grp:
                a = grp[n][()]
                mon.check("pack-values", a.shape == data[n].shape and a.dtype == data[n].dtype, f"{n}: {a.shape}{a.dtype} of {data[n].shape}{data[n].dtype}")
                mon.check("pack-values", np.array_equal(a, data[n][order]), lambda: f"file {i} field {n}: values are not those of the cells {a.ravel()[:6]} expected {data[n][order].ravel()[:6]}")
                mon.note(a)


def regroup(g):
    """cells sorted by type"""
    return gen.GMesh(g.dim, g.xyz, sorted(g.cells, key=lambda c: VT[c[0]]), {})


def run(case, mon):
    r = random.Random(case["seed"])
    g = gen.make(case["spec"])
    if case["grouped"]:
        g = regroup(g)
    mon.stat("types", "+".join(g.types()))
    names = [f"{r.choice(['P', 'U V', 'rho', 'T_AVG', 'masse é%d.'])}{i}" for i in range(r.randint(1, 4))]
    if "finding" in case:  # a field has the name which is that of the time of the files
        names = ["time", "Q"]
    like = {n: field(r, g.ncell) for n in names}
    sel = None if r.random() < 0.6 else r.sample(names, r.randint(1, len(names)))
    vary = r.random() < 0.25  # other fields in each file
    files, paths, same = [], [], []
    for i in range(case["nfile"]):
        cells, nodes = (False, False) if i == 0 else r.choice([(False, False), (True, False), (False, True), (True, True), ("two", False), ("two", True)])
        h, ids = shuffled(g, r, cells, nodes)
        data = {n: like[n][r.sample(range(g.ncell), g.ncell)] for n in names}
        if vary:
            data = {n: a for n, a in data.items() if n in (sel or []) or r.random() < 0.6}
        time = r.choice([None, 0.0, 0.25 * i, -1.5])
        p = mon.path(f"f{i}.vtu" if r.random() < 0.8 else f"f{i}.vtk")
        write(p, h, ids, data, time)
        files.append((data, time, ids))
        paths.append(p)
        same.append((ids == list(range(g.ncell)), np.array_equal(h.xyz, g.xyz)))
        mon.stat("shuffle", (cells, nodes))
    raw = [open(p, "rb").read() for p in paths]
    L = vtkList(paths if r.random() < 0.5 else tuple(paths), verbose=r.random() < 0.3)
    mon.check("all-exist", L.allexist() and L.nfile == len(paths), "existing files")
    mon.check("all-exist", not vtkList(paths + [mon.path("no.vtu")]).allexist(), "missing file")
    samec = all(s[0] for s in same)
    mon.check("order-cell", L.check_order() == samec, f"cells coincident: {L.check_order()} expected {samec}")
    samen = all(s[1] for s in same)
    mon.check("order-node", L.check_order(pos="node") == samen, f"nodes coincident: expected {samen}")
    opts = {}
    if r.random() < 0.4:  # tolerances under the distance of cells
        ctr = pvgrid(g).cell_centers().points
        d = float(cKDTree(ctr).query(ctr, k=2)[0][:, 1].min()) if g.ncell > 1 else 1.0
        opts["tol"] = d * r.choice([1e-3, 0.1, 0.4])
    if r.random() < 0.3:
        opts["reorder"] = r.random() < 0.7
    mon.stat("tolerance", "tol" in opts)
    L.read(filterdata=list(sel) if sel else None, **opts)
    out = L.dumphdf(mon.path("pack.h5"))
    check_pack(mon, out, g, files, sel)
    out2 = L.dumphdf(mon.path("pack2.h5"), **({"compression": "gzip"} if r.random() < 0.5 else {}))
    check_pack(mon, out2, g, files, sel)
    mon.check("files-untouched", raw == [open(p, "rb").read() for p in paths], "input files were modified")
    if case["bad"]:
        bad(case, mon, r, g, paths, names, like, vary)


def bad(case, mon, r, g, paths, names, like, vary):
    how = r.choice(["moved", "missing", "more", "twice", "one", "nofield", "slightly"])
    h, ids = shuffled(g, r, r.random() < 0.7, r.random() < 0.5)
    data = {n: like[n][ids] for n in names}
    L0 = min(case["spec"].get("size", [1.0])) if isinstance(case["spec"].get("size"), list) else 1.0
    xyz, cells = h.xyz.copy(), list(h.cells)
    n = len(cells)
    if how in ("moved", "slightly"):
        c = cells[r.randrange(n)][1]
        xyz[c[0]] = xyz[c[0]] + np.array([1e-7 if how == "slightly" else 0.4 * L0, 0, 0]) * 8
        keep = range(n)
    elif how == "missing":
        k = r.randrange(n)
        keep = [i for i in range(n) if i != k]
    elif how == "more":
        keep = list(range(n)) + [r.randrange(n)]
    elif how == "twice":
        keep = list(range(n))
        keep[r.randrange(n)] = keep[r.randrange(n)]
        if len(set(keep)) == n:
            keep[0] = keep[-1]
    elif how == "one":
        keep = [r.randrange(n)]
    else:
        keep = range(n)
        data.pop(names[0])
    if how in ("missing", "more", "twice", "one") and n < 3:
        return
    keep = list(keep)
    b = gen.GMesh(g.dim, xyz, [cells[i] for i in keep], {})
    p = mon.path("bad.vtu")
    grid = pvgrid(b)
    for k, a in data.items():
        grid.cell_data[k] = a[keep]
    grid.save(p)
    pos = r.randint(1, len(paths))
    L = vtkList(paths[:pos] + [p] + paths[pos:])
    mon.stat("bad", how)
    if how in ("moved", "slightly"):
        mon.check("order-cell", not L.check_order(), "displaced cell not seen")
    try:
        L.read(filterdata=[names[0]] if vary else list(names))
    except (Exception, SystemExit) as e:
        mon.check("refuse", True)
        return
    mon.check("refuse", False, f"series with a file with {how} cell(s) accepted")
