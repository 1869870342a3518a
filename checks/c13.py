"""C13 CGNS files are read for the mesh and the boundaries they hold"""

import numpy as np

import cfdtools._cli as cli
from cfdtools.cgns import cgns
from cfdtools.ic3 import writerV2, writerV3

from c12 import check_mesh, unambiguous
from vmon import cgnsio, gen, ic3io, rig

ID = "C13"
RULE = (
    "random 2D/3D meshes written by an independent CGNS/HDF5 writer (sections in any order, cells of a type in several "
    "sections, faces numbered before, between or after cells, conditions given by faces, elements or vertices, several "
    "conditions of a family), read, compared and converted to IC3; distinct by the read cells and marks"
)
REQUIRED = ["nodes", "cells", "cell-index", "marks", "mark-nodes", "face-complete", "zone-faces", "cell-order", "zone-unknown"]


def cases(tier, rng):
    n = 510 if tier == "quick" else 1800
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 8 == 0
        spec = gen.spec2(rng, 4 if not big else 12) if i % 3 == 0 else gen.spec3(rng, 3 if not big else 5)
        spec["jitter"] = rng.choice([0.05, 0.15])
        other = gen.spec2(rng, 4) if rng.random() < 0.5 else gen.spec3(rng, 3)  # may be of the other dimension, in its own base
        out.append({"spec": spec, "other": {**other, "jitter": 0.1}, "seed": rng.randrange(10**9), "version": rng.choice([2, 3]), "cli": i % 3 == 0, "zones": 2 + i % 2 if i % 5 == 0 else 0})
    return gen.widen(out, rng)


def run(case, mon):
    g = gen.make(case["spec"])
    path = mon.path("m.cgns")
    zone = None
    if case.get("zones"):
        others = [gen.make({**case["other" if i == 1 else "spec"], "seed": case["seed"] + i}) for i in range(1, case["zones"])]
        groups, layout, zone = cgnsio.write(path, g, case["seed"], others)
        mon.stat("zones", case["zones"])
    else:
        groups, layout = cgnsio.write(path, g, case["seed"])
    mon.stat("layout", layout)
    mon.stat("dim", g.dim)
    r = cgns.cgnsMesh(path)
    if zone:
        try:
            r.read_data()
        except Exception:
            mon.seen("zone-unknown")
        else:
            mon.check("zone-unknown", False, "several zones, none requested")
    r.read_data(zone) if zone else r.read_data()
    mon.check("cells", int(r.ncell) == g.ncell, f"reader ncell {r.ncell}")
    m = r.export_mesh()
    nm = check_mesh(mon, g, m, groups)
    mon.equal("nodes", np.asarray(m.nodescoord(ndarray=True)), g.xyz, "coordinates in the order of the file")
    # cells are numbered in the order of the element numbers of the file
    ids = np.full(g.ncell, -1)
    pos = {c: i for i, c in enumerate(g.cells)}
    for t, econ in m._cell2node.items():
        for i, nodes in zip(econ["index"].list(), np.asarray(econ["elem2node"])):
            ids[pos[(t, tuple(int(nm[k]) for k in nodes))]] = i
    mon.check("cell-order", sorted(ids) == list(range(g.ncell)), f"{ids}")
    if not unambiguous(g, groups):
        mon.stat("ambiguous", 1)
        return
    m.make_face_connectivity()
    m.bocomarks_set_node_to_face()
    faces = rig.mesh_faces(m)
    for name, want in groups.items():
        got = rig.mark_faces(m, name)
        mon.check("zone-faces", sorted(map(sorted, got)) == sorted(map(sorted, want)), lambda: f"{name}: {len(got)} faces, expected {len(want)}")
    rig.check_faces(mon, g, ids, faces, what="cgns")
    out = mon.path("m.ic3")
    if case["cli"] and not zone:
        W = cli.cfdwrite_ic3v2 if case["version"] == 2 else cli.cfdwrite_ic3v3
        W([path, "--outpath", mon.path("")])
    else:
        r2 = cgns.cgnsMesh(path)
        r2.read_data(zone=zone)
        (writerV2 if case["version"] == 2 else writerV3).writer(r2.export_mesh()).write_data(out)
    F = ic3io.parse(out)
    ic3io.conforming(F)
    zones = {z[0]: [frozenset(F.faces[f]) for f in range(z[2], z[3] + 1)] for z in F.zones}
    for name, want in groups.items():
        mon.check("zone-faces", name in zones, lambda: f"zone {name!r} missing in {sorted(zones)}")
        mon.check("zone-faces", sorted(map(sorted, zones[name])) == sorted(map(sorted, want)), lambda: f"IC3 zone {name}: {len(zones[name])} faces, expected {len(want)}")
