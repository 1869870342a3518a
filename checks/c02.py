"""C02 oriented faces: outward from the first cell, closed cells, positive volumes"""
import numpy as np

from vmon import gen, rig

ID = "C02"
RULE = (
    "random conforming meshes with random coordinates as in C01; the divergence theorem is evaluated per cell on the "
    "extracted faces; distinct by the observed oriented face table"
)
REQUIRED = ["face-orientation", "cell-closure", "cell-volume", "contour-closure"]


def cases(tier, rng):
    n = 720 if tier == "quick" else 2000
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 10 == 0
        spec = gen.spec2(rng, 5 if not big else 12) if i % 4 == 0 else gen.spec3(rng, 3 if not big else 6)
        if i < 8:
            spec["n"] = [1, 1, 1]
        out.append({"spec": spec, "index": rng.choice(["range", "position", "split"]), "seed": rng.randrange(10**6)})
    return gen.widen(out, rng)


def run(case, mon):
    g = gen.make(case["spec"])
    m, ids = rig.to_mesh(g, case["index"], case["seed"])
    m.make_face_connectivity()
    faces = rig.mesh_faces(m)
    rig.check_faces(mon, g, ids, faces, strict_orientation=True)
    if g.dim == 3:
        xyz = m.nodescoord(ndarray=True)
        scale = float(np.abs(xyz).max() + np.ptp(xyz))
        rig.check_geometry(mon, xyz, faces, g.ncell, gen.cell_volumes(g), ids, scale)
    else:
        # edges of a 2D cell form a closed circuit, travelled the same way round
        deg = {}
        for nodes, (l, r) in faces.values():
            for c, (a, b) in ((l, nodes), (r, nodes[::-1])):
                if c >= 0:
                    deg[c, a] = deg.get((c, a), 0) + 1
                    deg[c, b] = deg.get((c, b), 0) - 1
        mon.check("contour-closure", all(v == 0 for v in deg.values()), "open cell contour")
    mon.stat("types", "+".join(g.types()))
    mon.note(sorted(faces.items()))
