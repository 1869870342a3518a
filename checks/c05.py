"""C05 scaling and morphing move the nodes and nothing else"""
import glob
import os
import random

import numpy as np

from cfdtools.cgns import cgns
from cfdtools.gmsh import reader as gmshreader
from cfdtools.ic3 import reader_legacy, writerV2, writerV3
from cfdtools.meshbase.simple import Cube
from cfdtools.vtk import vtkMesh

from vmon import gen, ic3case, ic3io, rig
from vmon.core import Skip

ID = "C05"
RULE = (
    "meshes built by the API, the cube generator, and read from IC3, GMSH, CGNS and VTK files, moved by random sequences of "
    "scale and morph (before or after the face extraction); every other part of the mesh compared before/after, and the "
    "moved mesh written and parsed; distinct by final coordinates"
)
REQUIRED = ["moved-coordinates", "moved-nothing-else", "input-untouched", "moved-file", "moved-volume"]
DATA = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tests", "data")


def cases(tier, rng):
    n = 450 if tier == "quick" else 1500
    out = []
    for i in range(n):
        out.append(
            {
                "src": ["api", "ic3", "cube", "api", "vtk", "ic3"][i % 6],
                "spec": gen.spec2(rng, 4) if i % 4 == 0 else gen.spec3(rng, 3),
                "index": rng.choice(["range", "position", "split"]),
                "seed": rng.randrange(10**6),
                "part": True,
                "perio": 0.2,
                "faces": rng.random() < 0.5,
                "nop": rng.randint(1, 4),
                "version": rng.choice([2, 3]),
                "ints": rng.random() < 0.3,
            }
        )
    for ext, src in (("msh", "gmsh"), ("hdf", "cgns"), ("cgns", "cgns")):
        for f in sorted(glob.glob(os.path.join(DATA, "*." + ext))):
            if os.path.getsize(f) < 3_000_000:
                out.append({"src": src, "file": os.path.basename(f), "seed": rng.randrange(10**6), "faces": False, "nop": 2, "version": 3})
    out = gen.widen(out, rng)
    out[0]["src"] = "api"
    return out


def source(case, mon, r):
    """mesh, the coordinates it must have, arrays lent by the user"""
    src = case["src"]
    if src == "api":
        g = gen.make(case["spec"])
        marks = gen.node_marks(g, case["seed"])
        con, ids = rig.cellconn(g, case["index"], case["seed"])
        import cfdtools.meshbase._mesh as _mesh

        m = _mesh.Mesh(ncell=g.ncell, nnode=g.nnode)
        xyz = np.array(g.xyz)
        if case["ints"]:
            xyz = np.round(xyz * 7).astype(int)
        if r.random() < 0.5:
            lent = [xyz]
            m.set_nodescoord_nd(xyz)
        else:
            lent = [np.array(xyz[:, i]) for i in range(3)]
            m.set_nodescoord_xyz(*lent)
        m.set_cell2node(con)
        import cfdtools.meshbase._connectivity as _conn

        for name, (_, nodes) in marks.items():
            b = _mesh.submeshmark(name)
            b.geodim = "bdnode"
            b.type = "boundary"
            b.index = _conn.indexlist(ilist=[int(i) for i in nodes])
            m.add_boco(b)
        return m, np.array(xyz, dtype=float), lent, g if not case["ints"] else None, ids
    if src == "ic3":
        m, model = ic3case.make_mesh(case, data=True, version=case["version"])
        f = mon.path("src.ic3")
        {2: writerV2, 3: writerV3}[case["version"]].writer(m).write_data(f)
        rd = reader_legacy.reader(f, True)
        rd.read_data()
        return rd.export_mesh(), np.array(model["g"].xyz), [], None, None
    if src == "cube":
        n = [r.randint(1, 4) for _ in range(3)]
        m = Cube(*n).export_mesh()
        return m, m.nodescoord(ndarray=True).copy(), [], None, None
    if src == "vtk":
        g = gen.make(case["spec"])
        m, ids = rig.to_mesh(g, "range", case["seed"])
        f = mon.path("src.vtu")
        vtkMesh(m).write_data(f)
        v = vtkMesh().read(f)
        m = v.export_mesh()
        return m, np.array(g.xyz), [np.asarray(v.pyvista_grid.points)], None, None
    f = os.path.join(DATA, case["file"])
    if not os.path.exists(f):
        raise Skip("no such file")
    rd = (gmshreader if src == "gmsh" else cgns.cgnsMesh)(f)
    rd.read_data()
    m = rd.export_mesh()
    return m, m.nodescoord(ndarray=True).copy(), [], None, None


def content(m):
    """everything in a mesh but the coordinates"""
    out = {"sizes": (m.ncell, m.nnode, int(m.nface))}
    if m._cell2node is not None:
        out["cells"] = [(t, e["elem2node"].tolist(), list(e["index"].list())) for t, e in m._cell2node.items()]
    for t, f in m._faces.items():
        out["faces " + t] = [(k, np.asarray(e["elem2node"]).tolist(), list(e["index"].list())) for k, e in f["face2node"].items()]
        out["face2cell " + t] = np.asarray(f["face2cell"].conn).tolist()
    for name, b in m._bocos.items():
        out["mark " + name] = (b.geodim, b.type, list(b.index.list()), repr(b.properties.get("periodic_transform")))
    for loc, d in (("node", m._nodedata), ("cell", m._celldata)):
        for k, v in (d.items() if d else ()):
            out[f"{loc} data {k}"] = np.asarray(v).tobytes()
    p = m._cellprop.get("partition")
    if p is not None:
        out["partition"] = (int(p["npart"]), np.asarray(p["icvpart"]).tolist())
    out["params"] = repr(sorted((k, v) for k, v in m._params.items()))
    return out


def run(case, mon):
    r = random.Random(case["seed"] + 1)
    m, want, lent, g, ids = source(case, mon, r)
    want = np.array(want, dtype=float)
    if case["faces"] and m._cell2node is not None and not m._faces:
        m.make_face_connectivity()
    lent0 = [a.copy() for a in lent]
    before = content(m)
    det = 1.0
    for _ in range(case["nop"]):
        old = [np.array(c) for c in m.nodescoord()]
        views = m.nodescoord()
        if r.random() < 0.6:
            s = [r.choice([2.0, 0.5, -1.0, 1e-3, 1.0, 3.7, 25.4, 0.3048]) for _ in range(3)]
            arg = r.choice([list, tuple, np.array])(s)
            res = m.scale(arg)
            want = want * np.array(s)
            det *= s[0] * s[1] * s[2]
            mon.check("input-untouched", list(arg) == s, "scale factors modified")
        else:
            k = r.choice(["shear", "swap", "shift", "wave", "lists"])
            a, b = r.uniform(-0.3, 0.3), r.uniform(-2, 2)
            fm = {
                "shear": lambda x, y, z: (x + a * y, y, z),
                "swap": lambda x, y, z: (y, z, x),
                "shift": lambda x, y, z: (x + a, y + b, z - a),
                "wave": lambda x, y, z: (x, y + a * np.sin(b * x), z),
                "lists": lambda x, y, z: (list(x), list(y), list(z + b)),
            }[k]
            got = []

            def spy(x, y, z):
                got.append((np.array(x), np.array(y), np.array(z)))
                return fm(x, y, z)

            m.morph(spy)
            mon.check("morph-input", len(got) == 1 and all(np.array_equal(p, q) for p, q in zip(got[0], old)), "function not given the coordinates")
            want = np.column_stack([np.asarray(c) for c in fm(*want.T)])
            if k == "wave" or k == "lists":
                pass
        xyz = m.nodescoord(ndarray=True)
        mon.check("moved-coordinates", xyz.shape == want.shape, f"shape {xyz.shape}")
        mon.close("moved-coordinates", xyz, want, 1e-13 * (1e-300 + np.abs(want).max()), "coordinates")
        mon.check("moved-coordinates", all(np.array_equal(np.asarray(c), xyz[:, i]) for i, c in enumerate(m.nodescoord())), "tuple and array differ")
    after = content(m)
    mon.check("moved-nothing-else", before.keys() == after.keys(), f"{before.keys() ^ after.keys()}")
    for k in before:
        mon.check("moved-nothing-else", before[k] == after[k], f"{k} changed")
    for a, b in zip(lent, lent0):
        mon.equal("input-untouched", a, b, "array lent by the user")
    # the moved mesh can be used: written with the new coordinates
    if case["src"] in ("api", "ic3", "cube"):
        f = mon.path("moved.ic3")
        exact = m.nodescoord(ndarray=True)
        w = {2: writerV2, 3: writerV3}[case["version"]].writer(m)
        w.write_data(f)
        F = ic3case.parse(mon, f, "moved")
        mon.check("moved-file", ic3io.same(F.xyz, exact.astype(float)), "coordinates of the file")
        if g is not None and g.dim == 3 and det > 0:
            fc = ic3io.facemap(F)
            loc = exact - exact.mean(axis=0)
            vol = np.zeros(m.ncell)
            for nodes, (l, rr) in fc.values():
                v = gen.face_volume_flux(loc, nodes)
                vol[l] += v
                if rr >= 0:
                    vol[rr] -= v
            ref = np.zeros(m.ncell)
            ref[ids] = gen.cell_volumes(gen.GMesh(3, exact, g.cells, {}))
            mon.close("moved-volume", vol, ref, 1e-9 * (1e-300 + np.abs(ref).max()), "volumes from the faces")
    mon.stat("source", case["src"])
    mon.note(m.nodescoord(ndarray=True))
