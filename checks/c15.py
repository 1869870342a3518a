"""C15 VTK meshes: written, read, exported, extracted and dumped meshes are the same mesh"""
import os
import random

import h5py
import numpy as np
import pyvista as pv

from cfdtools.hdf5 import h5File
from cfdtools.vtk import vtkMesh

from vmon import gen, rig

ID = "C15"
RULE = (
    "random meshes of all linear types, built by the API or as VTK grids with interleaved types and single or double "
    "precision points, written to VTU and read by pyvista, read and exported, dumped to HDF5 and imported, sub-meshes "
    "extracted; distinct by the grid"
)
REQUIRED = ["vtu-points", "vtu-cells", "export-cells", "export-points", "hdf-cells", "hdf-import", "hdf-order", "hdf-header", "hdf-options", "extract-cells", "extract-points", "volume", "face-complete", "input-untouched", "integers"]
VT = {"bar2": 3, "tri3": 5, "quad4": 9, "tetra4": 10, "pyra5": 14, "prism6": 13, "hexa8": 12}
TV = {v: k for k, v in VT.items()}


def cases(tier, rng):
    n = 450 if tier == "quick" else 1600
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 8 == 0
        spec = gen.spec2(rng, 4 if not big else 14) if i % 4 == 0 else gen.spec3(rng, 3 if not big else 7)
        if i % 3 == 0:
            spec["jitter"] = 0.0
        out.append({"spec": spec, "seed": rng.randrange(10**9), "ints": i % 10 == 7, "src": rng.choice(["api", "grid", "grid32"]), "index": rng.choice(["range", "split"])})
    return gen.widen(out, rng)


def grid_cells(grid):
    """cells of a pyvista grid, in order: (type name, nodes)"""
    cells, types, off = np.asarray(grid.cells), np.asarray(grid.celltypes), 0
    out = []
    for t in types:
        n = int(cells[off])
        out.append((TV[int(t)], tuple(int(x) for x in cells[off + 1 : off + 1 + n])))
        off += n + 1
    return out


def pvgrid(g, dtype=float):
    flat = []
    for _, nodes in g.cells:
        flat += [len(nodes), *nodes]
    return pv.UnstructuredGrid(np.array(flat), np.array([VT[t] for t, _ in g.cells], dtype=np.uint8), g.xyz.astype(dtype))


def bytype(cells):
    out = {}
    for t, nodes in cells:
        out.setdefault(t, []).append(nodes)
    return out


def mesh_cells(m):
    return {t: [tuple(int(x) for x in row) for row in np.asarray(e["elem2node"])] for t, e in m._cell2node.items()}


def state(grid):
    return (np.array(grid.points), np.array(grid.cells), np.array(grid.celltypes), {k: np.array(grid.cell_data[k]) for k in grid.cell_data.keys()})


def same_state(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a[:3], b[:3])) and a[3].keys() == b[3].keys() and all(np.array_equal(a[3][k], b[3][k]) for k in a[3])


def run(case, mon):
    r = random.Random(case["seed"])
    g = gen.make(case["spec"])
    if case.get("ints"):  # integer coordinates, with more digits than single precision
        g.xyz = np.rint(g.xyz * 1e8)
    mon.stat("types", "+".join(g.types()))
    mon.stat("source", case["src"])
    if case["src"] == "api":
        m, ids = rig.to_mesh(g, case["index"], case["seed"], gen.node_marks(g, case["seed"]))
        if case.get("ints"):
            m.set_nodescoord_xyz(*g.xyz.astype(np.int64).T)
            mon.seen("integers")
        before = np.array(m.nodescoord(ndarray=True)), mesh_cells(m)
        v = vtkMesh(m)
        want = mesh_cells(m)
        pts = g.xyz
    else:
        grid = pvgrid(g, np.float32 if case["src"] == "grid32" else float)
        v = vtkMesh(pvmesh=grid)
        want = bytype(g.cells)
        pts = np.array(grid.points)
    mon.check("vtu-cells", v.ncell == g.ncell and v.nnode == g.nnode, f"{v.ncell} {v.nnode}")
    # written file, as seen by pyvista
    f = mon.path("m.vtu")
    v.write_data(f)
    p = pv.read(f)
    mon.equal("vtu-points", np.asarray(p.points), pts, "points of the file")
    mon.check("vtu-cells", bytype(grid_cells(p)) == want, "cells of the file")
    if case["src"] != "api":
        mon.check("vtu-cells", grid_cells(p) == g.cells, "order of the cells of the file")
    mon.note(np.asarray(p.points), grid_cells(p))
    # read back and exported
    w = vtkMesh()
    back = w.read(f)
    mon.check("export-cells", back is w or back.ncell == w.ncell, "read does not return the mesh")
    m2 = w.export_mesh()
    mon.check("export-cells", m2.ncell == g.ncell and m2.nnode == g.nnode, f"{m2.ncell} {m2.nnode}")
    mon.check("export-cells", mesh_cells(m2) == want, "exported cells")
    mon.equal("export-points", np.asarray(m2.nodescoord(ndarray=True)), pts, "exported points")
    index = sorted(i for _, e in m2._cell2node.items() for i in e["index"].list())
    mon.check("export-cells", index == list(range(g.ncell)), f"index {index[:20]}")
    # the exported mesh has the faces of the mesh
    m2.make_face_connectivity()
    ids2 = np.full(g.ncell, -1)
    pos = {}
    for i, c in enumerate(g.cells):
        pos.setdefault(c, []).append(i)
    for t, e in m2._cell2node.items():
        for i, nodes in zip(e["index"].list(), np.asarray(e["elem2node"])):
            ids2[pos[(t, tuple(int(x) for x in nodes))].pop()] = i
    rig.check_faces(mon, g, ids2, rig.mesh_faces(m2), what="vtk")
    # volumes are those of the cells
    if case["spec"]["jitter"] == 0.0 and g.dim == 3 and case["src"] != "grid32":
        ref = gen.cell_volumes(g)
        byc = {}
        for c, x in zip(g.cells, ref):
            byc[c] = x
        order = grid_cells(w.pyvista_grid)
        vol = np.asarray(w.volumes())
        mon.close("volume", np.abs(vol), np.array([byc[c] for c in order]), 1e-9 * (max(case["spec"]["size"]) * (1e8 if case.get("ints") else 1.0)) ** 3, "volumes")
        mon.equal("volume", np.asarray(w.volumes()), vol, "volumes asked twice")
    elif g.dim == 3:
        mon.check("volume", len(w.volumes()) == g.ncell, "number of volumes")
    # hdf
    name = mon.path("d.h5")
    keep = r.random() < 0.4
    if keep:
        with open(name, "wb") as fh:
            fh.write(b"precious")
    over = r.random() < 0.3
    st = state(w.pyvista_grid)
    opts = r.choice([{}, {}, {"compression": "gzip"}, {"shuffle": True, "compression": "lzf"}, {"fletcher32": True}])
    got = w.dumphdf(name, overwrite=over, **opts) if over or r.random() < 0.5 else w.dumphdf(name, **opts)
    mon.check("hdf-name", os.path.exists(got), f"returned name {got}")
    if keep and not over:
        mon.check("hdf-name", got != name and open(name, "rb").read() == b"precious", "existing file overwritten")
    else:
        mon.check("hdf-name", got == name, f"{got}")
    with h5py.File(got) as h:
        hc = {k: [tuple(int(x) for x in row) for row in d[()]] for k, d in h["mesh/cells"].items()}
        mon.check("hdf-cells", hc == want, "cells of the HDF5 file")
        mon.equal("hdf-cells", h["mesh/nodes"][()], pts, "nodes of the HDF5 file")
        mon.check("hdf-header", h.attrs["cfd_datatype"] == "dataset" and "data_version" in h.attrs and "cfdtools_version" in h.attrs, f"{dict(h.attrs)}")
        mon.check("hdf-header", h["mesh"].attrs["meshtype"] == "unsmesh" and sorted(h) == ["mesh"], f"{sorted(h)}")
        for d in [h["mesh/nodes"], *h["mesh/cells"].values()]:
            mon.check("hdf-options", d.compression == opts.get("compression") and d.shuffle == bool(opts.get("shuffle")) and d.fletcher32 == bool(opts.get("fletcher32")), f"{d.name}: {opts}")
    hf = h5File(got)
    hf.open()
    x = vtkMesh()
    x.importhdfgroup(hf["mesh"])
    hf.close()
    mon.check("hdf-import", bytype(grid_cells(x.pyvista_grid)) == want, "imported cells")
    mon.equal("hdf-import", np.asarray(x.pyvista_grid.points), pts, "imported points")
    # cells which are by type, in the order of the numbers of VTK, are in the same order after import
    if len(want) > 1:
        gs = gen.GMesh(g.dim, g.xyz, sorted(g.cells, key=lambda c: VT[c[0]]), {})
        hf = h5File(vtkMesh(pvmesh=pvgrid(gs)).dumphdf(mon.path("o.h5")))
        hf.open()
        y = vtkMesh()
        y.importhdfgroup(hf["mesh"])
        hf.close()
        mon.check("hdf-order", grid_cells(y.pyvista_grid) == gs.cells, "order of imported cells")
    # nothing remains of a mesh which was replaced
    if g.dim == 3:
        small = vtkMesh(pvmesh=w.pyvista_grid)
        small.volumes()
        small.read(f) if r.random() < 0.5 else small.set_pvmesh(w.vtk_extract_cells([0]).pyvista_grid)
        mon.check("volume", len(small.volumes()) == small.ncell, "volumes of a former mesh")
    # extraction
    sel = [r.randrange(g.ncell) for _ in range(r.randint(1, g.ncell))] if r.random() < 0.2 else r.sample(range(g.ncell), r.randint(1, g.ncell))
    if g.nnode > 60000:  # more points than small integers can number
        sel = r.sample(range(g.ncell), g.ncell)
    sub = w.vtk_extract_cells(np.array(sel) if r.random() < 0.5 else sel)
    order = grid_cells(w.pyvista_grid)
    sg = sub.pyvista_grid
    sc = grid_cells(sg)
    mon.check("extract-cells", len(sc) == len(sel), f"{len(sc)} cells extracted of {len(sel)}")
    spts = np.asarray(sg.points)
    for (t, nodes), i in zip(sc, sel):
        mon.check("extract-cells", t == order[i][0], f"cell {i}: type {t} {order[i][0]}")
        mon.equal("extract-cells", spts[list(nodes)], pts[list(order[i][1])], f"nodes of cell {i}")
    used = {k for i in sel for k in order[i][1]}
    mon.check("extract-points", len(spts) == len(used), f"{len(spts)} points for {len(used)} nodes")
    # conformity: a shared node stays shared
    rev = {}
    for (t, nodes), i in zip(sc, sel):
        for a, b in zip(nodes, order[i][1]):
            mon.check("extract-points", rev.setdefault(a, b) == b, f"point {a} stands for two nodes")
    mon.check("input-untouched", same_state(st, state(w.pyvista_grid)), "the grid was modified by dump or extraction")
    if case["src"] == "api":
        mon.check("input-untouched", np.array_equal(before[0], np.asarray(m.nodescoord(ndarray=True))) and before[1] == mesh_cells(m), "the mesh was modified")
