"""C26 generated cubes are complete regular meshes with their six boundaries, independent from each other"""
import random

import numpy as np

from cfdtools.meshbase.simple import Cube

ID = "C26"
RULE = "random sizes (one cell in any direction included), several cubes and meshes of the same cube built in turn and modified; geometry recomputed from coordinates; distinct by size"
REQUIRED = ["count", "nodes", "cells", "orientation", "marks", "numbering", "independent"]


def cases(tier, rng):
    n = 270 if tier == "quick" else 700
    m = 5 if tier == "quick" else 12
    return [{"seed": rng.randrange(10**9), "max": m} for i in range(n)]


def run(case, mon):
    r = random.Random(case["seed"])
    cubes = []
    for _ in range(r.randint(1, 3)):
        n = [r.choice([1, 2, 3, r.randint(1, case["max"])]) for _ in range(3)]
        if r.random() < 0.2:
            cubes.append((n[:2] + [1], Cube(n[0], n[1])))
        else:
            cubes.append((n, Cube(*n)))
    for _ in range(2 * len(cubes)):
        n, c = r.choice(cubes)
        mesh = c.export_mesh()
        judge(mon, n, c, mesh)
        mon.note(n)
        if r.random() < 0.7:  # later changes of a mesh do not reach the generator or other meshes
            other = c.export_mesh()
            for q in mesh.nodescoord():
                q[...] = q * 1.5 + 1.0  # coordinates moved in place
            mesh.scale([2.0, 3.0, 0.5])
            for t, v in mesh._cell2node.items():
                v["elem2node"][:] = v["elem2node"][::-1].copy()
            for b in list(mesh._bocos)[: r.randint(0, 6)]:
                mesh.remove_boco(b)
            for b in mesh._bocos.values():
                b.geodim = "node"
            judge(mon, n, c, other)
            mon.seen("independent")
            judge(mon, n, c, c.export_mesh())


def judge(mon, n, cube, mesh):
    nx, ny, nz = n
    nc, nn = nx * ny * nz, (nx + 1) * (ny + 1) * (nz + 1)
    mesh.check()
    mon.check("count", (mesh.ncell, mesh.nnode, cube.ncell, cube.nnode) == (nc, nn, nc, nn), f"{mesh.ncell} cells, {mesh.nnode} nodes for {n}")
    x = np.asarray(mesh.nodescoord(ndarray=True))
    mon.check("nodes", x.shape == (nn, 3), f"{x.shape}")
    ijk = np.rint(x * n).astype(int)
    mon.close("nodes", x, ijk / np.array(n, dtype=float), 1e-14, "nodes of the regular grid")
    mon.check("nodes", len({tuple(i) for i in ijk}) == nn and ijk.min() >= 0 and np.all(ijk.max(axis=0) == n), "nodes of the regular grid")
    cells = {t: np.asarray(v["elem2node"]) for t, v in mesh._cell2node.items()}
    index = {t: list(v["index"].list()) for t, v in mesh._cell2node.items()}
    mon.check("cells", list(cells) == ["hexa8"] and np.shape(cells["hexa8"]) == (nc, 8), f"{list(cells)}")
    low = set()
    ref = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
    for e in np.asarray(cells["hexa8"]):
        p = ijk[e]
        o = p.min(axis=0)
        low.add(tuple(o))
        mon.check("cells", sorted(map(tuple, p - o)) == sorted(ref), lambda: f"cell {p}")
        h = x[e]
        vol = np.dot(np.cross(h[1] - h[0], h[3] - h[0]), h[4] - h[0])
        mon.check("orientation", abs(vol * nc - 1) < 1e-9 and all(np.abs(h[a] - h[b]).astype(bool).sum() == 1 for a, b in ((0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7))), lambda: f"cell {h}")
    mon.check("numbering", sorted(index["hexa8"]) == list(range(nc)) and all(int(cube.elemglobindex_ijk(*ijk[e].min(axis=0))) == i for i, e in zip(index["hexa8"], cells["hexa8"])), lambda: f"cells numbered {index}")
    mon.check("cells", len(low) == nc, f"{len(low)} different cells for {nc}")
    marks = {b: m for b, m in mesh._bocos.items()}
    mon.check("marks", sorted(marks) == ["imax", "imin", "jmax", "jmin", "kmax", "kmin"], f"{sorted(marks)}")
    for b, m in marks.items():
        d = "ijk".index(b[0])
        want = np.nonzero(ijk[:, d] == (0 if b.endswith("min") else n[d]))[0]
        got = sorted(int(i) for i in m.index.list())
        mon.check("marks", got == want.tolist() and m.geodim == "bdnode" and m.type == "boundary", lambda: f"{b}: nodes {got} expected {want.tolist()}")
    for k, q in enumerate(zip(*np.nonzero(np.ones([i + 1 for i in n])))):
        q = tuple(int(i) for i in q)
        g = int(cube.nodeglobindex_ijk(*q))
        mon.check("numbering", 0 <= g < nn and tuple(ijk[g]) == q, lambda: f"node {q} numbered {g}: {ijk[g]}")
        mon.check("numbering", np.allclose(cube.nodes_xyz(*q), x[g], atol=1e-14), f"node {q}")
    num = sorted(int(cube.elemglobindex_ijk(*q)) for q in cube.elem_ijk())
    mon.check("numbering", num == list(range(nc)), f"cells numbered {num}")
