"""C01 face extraction is an exact partition with exact adjacency"""
import random

import numpy as np

import cfdtools.meshbase._connectivity as _conn
import cfdtools.meshbase._mesh as _mesh

from vmon import gen, rig

ID = "C01"
RULE = (
    "random conforming meshes (2D tri/quad/mixed, 3D hex/prism/pyramid/tetra and their mixtures, random node numbering, "
    "cell order, element relabeling, cell index layout); distinct by the observed face table"
)
REQUIRED = ["face-exists", "face-unique", "face-complete", "internal-adjacency", "boundary-adjacency", "nface", "split", "other-cells"]


def cases(tier, rng):
    n = 780 if tier == "quick" else 2400
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 10 == 0
        spec = gen.spec2(rng, 5 if not big else 14) if i % 3 == 0 else gen.spec3(rng, 3 if not big else 6)
        if i < 8:
            spec["n"] = [1, 1, 1]
        out.append({"spec": spec, "index": rng.choice(["range", "position", "split"]), "seed": rng.randrange(10**6), "again": rng.choice(["one", "some", "some"]) if i % 4 == 1 else None})
    out = gen.widen(out, rng)
    for i in range(6 if tier == "quick" else 24):
        out.append({"hexa27": [rng.randint(1, 3) for _ in range(3)], "seed": rng.randrange(10**6)})
    return out


def run_hexa27(case, mon):
    """quadratic hexahedra: node sets and neighbours (the order of the nodes of such a face is not claimed)"""
    xyz, cells, ref = gen.hexa27(case["hexa27"], case["seed"])
    con = _conn.elem_connectivity()
    con.add_elems("hexa27", cells)
    m = _mesh.Mesh(ncell=len(cells), nnode=len(xyz))
    m.set_nodescoord_nd(xyz)
    m.set_cell2node(con)
    m.make_face_connectivity()
    faces = rig.mesh_faces(m)
    nb = sum(len(s) == 1 for s in ref.values())
    mon.check("nface", len(faces) == len(ref) == int(m.nface), f"{len(faces)} faces, {len(ref)} exist")
    seen = set()
    for i, (nodes, lr) in faces.items():
        key = frozenset(nodes)
        mon.check("face-exists", key in ref and len(nodes) == 9, lambda: f"quadratic face {nodes} is not a face of any cell")
        mon.check("face-unique", key not in seen, lambda: f"face {nodes} twice")
        seen.add(key)
        sup = ref[key]
        if len(sup) == 2:
            mon.check("internal-adjacency", sorted(lr) == sorted(sup), lambda: f"face {nodes} cells {lr} expected {sup}")
        else:
            mon.check("boundary-adjacency", tuple(lr) == (sup[0], -1), lambda: f"face {nodes} cells {lr} expected {sup}")
        mon.check("split", (i < nb) == (lr[1] < 0), f"face {i} {lr} with {nb} boundary faces")
    mon.check("face-complete", seen == set(ref), "faces missing")
    mon.stat("types", "hexa27")
    mon.note(sorted(faces.items()))


def run(case, mon):
    if "hexa27" in case:
        return run_hexa27(case, mon)
    g = gen.make(case["spec"])
    m, ids = rig.to_mesh(g, case["index"], case["seed"])
    before = {t: m._cell2node[t].copy() for t in m._cell2node.elems()}
    m.make_face_connectivity()
    faces = rig.mesh_faces(m)
    rig.check_faces(mon, g, ids, faces, strict_orientation=False)
    ref = g.facemap()
    nb = sum(len(s) == 1 for s in ref.values())
    mon.check("nface", int(m.nface) == len(ref), f"mesh.nface {m.nface} expected {len(ref)}")
    # boundary faces come first and are separated from the internal ones
    for i, (nodes, lr) in faces.items():
        mon.check("split", (i < nb) == (lr[1] < 0), f"face {i} {lr} with {nb} boundary faces")
    # a second extraction gives the same faces, and cells are left alone
    m.make_face_connectivity()
    again = rig.mesh_faces(m)
    mon.check("idempotent", faces == again, "second face extraction differs")
    for t, c in before.items():
        mon.equal("cells-untouched", m._cell2node[t], c, t)
    if case.get("again"):  # other cells in the same mesh
        r = random.Random(case["seed"])
        pos = [] if case["again"] == "one" else sorted(r.sample(range(g.ncell), r.randint(1, g.ncell)))
        g2 = gen.GMesh(g.dim, g.xyz, [g.cells[i] for i in pos or [r.randrange(g.ncell)]], {})
        m2, ids2 = rig.to_mesh(g2, case["index"], case["seed"])
        m.set_cell2node(m2._cell2node)
        m.make_face_connectivity()
        rig.check_faces(mon, g2, ids2, rig.mesh_faces(m), strict_orientation=False)
        mon.check("nface", int(m.nface) == len(g2.facemap()), f"mesh.nface {m.nface} after other cells")
        mon.seen("other-cells")
    mon.stat("types", "+".join(g.types()))
    mon.stat("cells", len(g.cells) if len(g.cells) < 4 else ">=4")
    mon.note(sorted(faces.items()))
