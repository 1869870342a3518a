"""C12 GMSH files are read for the mesh and the named boundaries they hold"""
import numpy as np

import cfdtools._cli as cli
from cfdtools.gmsh import reader as gmshreader
from cfdtools.ic3 import writerV2, writerV3

from vmon import gen, gmshio, ic3io, rig

ID = "C12"
RULE = (
    "random 2D/3D meshes written by an independent GMSH writer in formats 2.2 and 4.1 (node tags with gaps or unsorted, "
    "several entities per group, names with blanks, groups of different dimensions with one tag, unnamed groups, points), "
    "read, compared, and converted to IC3; distinct by the read cells and marks"
)
REQUIRED = ["nodes", "cells", "cell-index", "marks", "mark-nodes", "face-complete", "zone-faces", "two-formats"]


def cases(tier, rng):
    n = 510 if tier == "quick" else 1800
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 8 == 0
        spec = gen.spec2(rng, 4 if not big else 12) if i % 3 == 0 else gen.spec3(rng, 3 if not big else 5)
        spec["jitter"] = rng.choice([0.05, 0.15])  # distinct coordinates
        out.append(
            {"spec": spec, "seed": rng.randrange(10**9), "named": rng.random() < 0.9, "unnamed": rng.choice([0.0, 0.0, 0.4]),
             "version": rng.choice([2, 3]), "cli": i % 3 == 0}
        )  # fmt: skip
    return gen.widen(out, rng, size=(190, 182))


def nodemap(mon, g, xyz):
    """read node -> node of g, by coordinates"""
    mon.check("nodes", xyz.shape == (g.nnode, 3), f"coordinates {xyz.shape}, {g.nnode} nodes")
    where = {tuple(p): i for i, p in enumerate(g.xyz.tolist())}
    m = [where.get(tuple(p)) for p in xyz.tolist()]
    mon.check("nodes", None not in m and len(set(m)) == g.nnode, lambda: f"coordinates changed: {xyz[:4]} {g.xyz[:4]}")
    return np.array(m)


def check_mesh(mon, g, m, groups):
    xyz = np.asarray(m.nodescoord(ndarray=True))
    nm = nodemap(mon, g, xyz)
    mon.check("nodes", m.nnode == g.nnode, f"nnode {m.nnode}")
    got, index = [], []
    for t, econ in m._cell2node.items():
        idx = list(econ["index"].list())
        mon.check("cell-index", len(idx) == len(econ["elem2node"]), f"{t}: {len(idx)} index")
        index += idx
        for nodes in np.asarray(econ["elem2node"]):
            got.append((t, tuple(int(nm[k]) for k in nodes)))
    mon.check("cells", sorted(got) == sorted(g.cells), lambda: f"cells differ: {sorted(got)[:3]} {sorted(g.cells)[:3]}")
    mon.check("cell-index", sorted(index) == list(range(g.ncell)), lambda: f"index {sorted(index)[:20]}")
    mon.check("cells", m.ncell == g.ncell, f"ncell {m.ncell}")
    if groups is not None:
        mon.check("marks", sorted(m._bocos) == sorted(groups), lambda: f"marks {sorted(m._bocos)} expected {sorted(groups)}")
        for name, faces in groups.items():
            b = m.seekmark(name)
            idx = [int(nm[k]) for k in b.index.list()]
            want = sorted({k for f in faces for k in f})
            mon.check("mark-nodes", sorted(idx) == want or (sorted(set(idx)) == want), lambda: f"{name}: nodes {sorted(idx)} expected {want}")
    mon.note(sorted(got), sorted(m._bocos))
    return nm


def run(case, mon):
    g = gen.make(case["spec"])
    p = gmshio.plan(g, case["seed"], case["named"], case["unnamed"], inner=0.2, multi=0.15)
    allb = {f for f, s in g.facemap().items() if len(s) == 1}
    groups = None
    if case["named"]:
        groups = {}
        for grp in p["groups"]:
            if grp["name"] is not None:
                groups[grp["name"]] = [frozenset(f) for _, fs in grp["entities"] for f in fs]
    if p["volagain"] or any("again" in grp for grp in p["groups"]):
        mon.stat("entities in several groups", 1)
    for v in ("2.2", "4.1"):
        path = mon.path(f"m{v[0]}.msh")
        gmshio.write(path, p, v)
        r = gmshreader(path)
        r.read_data()
        mon.check("cells", r.ncell == g.ncell, f"reader ncell {r.ncell}")
        m = r.export_mesh()
        nm = check_mesh(mon, g, m, groups)
        mon.stat("format", v)
        mon.stat("dim", g.dim)
        # what comes out as boundary faces
        clean = groups is not None and unambiguous(g, groups)
        if clean:
            m.make_face_connectivity()
            m.bocomarks_set_node_to_face()
            faces = rig.mesh_faces(m)
            back = {i: frozenset(int(nm[k]) for k in nodes) for i, (nodes, _) in faces.items()}
            for name, want in groups.items():
                got = [back[int(i)] for i in m.seekmark(name).index.list()]
                want = set(want) & allb
                mon.check("zone-faces", sorted(map(sorted, got)) == sorted(map(sorted, want)), lambda: f"{name}: {len(got)} faces, expected {len(want)}")
            ids = np.full(g.ncell, -1)
            pos = {c: i for i, c in enumerate(g.cells)}
            for t, econ in m._cell2node.items():
                for i, nodes in zip(econ["index"].list(), np.asarray(econ["elem2node"])):
                    ids[pos[(t, tuple(int(nm[k]) for k in nodes))]] = i
            renum = {i: (tuple(int(nm[k]) for k in nodes), lr) for i, (nodes, lr) in faces.items()}
            rig.check_faces(mon, g, ids, renum, what=f"gmsh {v}")
            out = mon.path(f"m{v[0]}.ic3")
            if case["cli"]:
                W = cli.cfdwrite_ic3v2 if case["version"] == 2 else cli.cfdwrite_ic3v3
                W([path, "--outpath", mon.path("")])
            else:
                r2 = gmshreader(path)
                r2.read_data()
                W = writerV2 if case["version"] == 2 else writerV3
                W.writer(r2.export_mesh()).write_data(out)
            F = ic3io.parse(out)
            ic3io.conforming(F)
            zones = {z[0]: [frozenset(int(nm[k]) for k in ic3_faces(F)[f]) for f in range(z[2], z[3] + 1)] for z in F.zones}
            for name, want in groups.items():
                key = ic3name(name)
                want = set(want) & allb
                mon.check("zone-faces", key in zones, lambda: f"zone {name!r} missing in {sorted(zones)}")
                mon.check("zone-faces", sorted(map(sorted, zones[key])) == sorted(map(sorted, want)), lambda: f"IC3 zone {name}: {len(zones[key])} faces, expected {len(want)}")
        else:
            mon.stat("ambiguous", 1)
    mon.seen("two-formats")


def ic3name(name):
    return name


def ic3_faces(F):
    return F.faces


def unambiguous(g, groups):
    allb = {f for fs in g.sides.values() for f in fs}
    seen = set()
    for fs in groups.values():
        nodes = set().union(*fs)
        clo = {f for f in allb if f <= nodes}
        if clo != set(fs) & allb or clo & seen:
            return False
        seen |= clo
    return True
