"""Bridges between generated meshes and the public API of cfdtools, and oracles on cfdtools meshes."""
import random

import numpy as np

import cfdtools.meshbase._connectivity as _conn
import cfdtools.meshbase._mesh as _mesh

from vmon import gen


def asuser(c, r):
    """the same table of integers as a user, a reader or a tool may give it"""
    p = r.random()
    if p < 0.6:
        return c
    if p < 0.75:
        return c.astype(np.int32)
    if p < 0.85:
        return np.asfortranarray(c)
    if p < 0.92:
        c = np.array(c)
        c.flags.writeable = False
        return c
    return np.repeat(c, 2, axis=1)[:, ::2]  # not contiguous


def cellconn(g, index="range", seed=0):
    """elem_connectivity of the cells of g; returns (connectivity, cellid: g position -> cell index)"""
    con = _conn.elem_connectivity()
    ru = random.Random(seed + 17)
    bt = {t: (pos, asuser(c, ru)) for t, (pos, c) in g.by_type().items()}
    types = list(bt)
    random.Random(seed).shuffle(types)
    ids = np.full(g.ncell, -1)
    if index == "range":
        start = 0
        for t in types:
            pos, c = bt[t]
            con.add_elems(t, c)
            ids[pos] = np.arange(start, start + len(pos))
            start += len(pos)
    elif index == "position":
        for t in types:
            pos, c = bt[t]
            con.add_elems(t, c, _conn.indexlist(ilist=list(pos)))
            ids[pos] = pos
    elif index == "split":
        # several add_elems of the same type, interleaved
        r = random.Random(seed + 1)
        start = 0
        chunks = []
        for t in types:
            pos, c = bt[t]
            k = r.randint(1, len(pos))
            chunks.append((t, pos[:k], c[:k]))
            if k < len(pos):
                chunks.append((t, pos[k:], c[k:]))
        r.shuffle(chunks)
        for t, pos, c in chunks:
            con.add_elems(t, c)
            ids[pos] = np.arange(start, start + len(pos))
            start += len(pos)
    return con, ids


def to_mesh(g, index="range", seed=0, marks=None):
    con, ids = cellconn(g, index, seed)
    m = _mesh.Mesh(ncell=g.ncell, nnode=g.nnode)
    if seed % 2:
        m.set_nodescoord_nd(np.array(g.xyz))
    else:
        m.set_nodescoord_xyz(*(np.array(g.xyz[:, i]) for i in range(3)))
    m.set_cell2node(con)
    for name, (faces, nodes) in (marks or {}).items():
        b = _mesh.submeshmark(name)
        b.geodim = "bdnode"
        b.type = "boundary"
        nodes = list(nodes)
        random.Random(seed).shuffle(nodes)
        b.index = _conn.indexlist(ilist=[int(n) for n in nodes])
        m.add_boco(b)
    return m, ids


def faces_of(con, f2c):
    """face index -> (ordered nodes, (left, right))"""
    conn = np.asarray(f2c.conn)
    out = {}
    for i, nodes in con.index_elem_tuples():
        out[int(i)] = (tuple(int(n) for n in nodes), tuple(int(c) for c in conn[int(i)]))
    return out


def mesh_faces(m):
    """all the faces of a mesh with the index they have in exported files"""
    if "mixed" in m._faces:
        return faces_of(m._faces["mixed"]["face2node"], m._faces["mixed"]["face2cell"])
    con, f2c = m.export_mixedfaces()
    return faces_of(con, f2c)


def cyc(face):
    """canonical form of an oriented cycle"""
    k = face.index(min(face))
    return face[k:] + face[:k]


def unori(face):
    a, b = cyc(tuple(face)), cyc(tuple(reversed(face)))
    return min(a, b)


def check_faces(mon, g, ids, faces, strict_orientation=True, what=""):
    """the face map seen by the user is exactly the reference one of g"""
    ref = g.facemap()
    mon.check("face-index-dense", sorted(faces) == list(range(len(faces))), lambda: f"{what} face ids {sorted(faces)[:20]}")
    seen = {}
    for i, (nodes, lr) in faces.items():
        key = frozenset(nodes)
        mon.check("face-exists", key in ref and len(key) == len(nodes), lambda: f"{what} face {i} {nodes} is not a face of any cell")
        mon.check("face-unique", key not in seen, lambda: f"{what} face {nodes} listed twice ({seen.get(key)}, {i})")
        seen[key] = i
        sup = ref[key]
        want = {int(ids[c]) for c, _ in sup}
        mon.check(
            "face-cycle", unori(nodes) == unori(sup[0][1]), lambda: f"{what} face {nodes} is not a cycle of {sup[0][1]}"
        )
        if len(sup) == 2:
            mon.check("internal-adjacency", set(lr) == want and lr[0] != lr[1], lambda: f"{what} face {nodes} cells {lr} expected {want}")
        else:
            mon.check("boundary-adjacency", lr[0] in want and lr[1] == -1, lambda: f"{what} face {nodes} cells {lr} expected ({want}, -1)")
        if strict_orientation:
            first = [o for c, o in sup if int(ids[c]) == lr[0]][0]
            good = tuple(first) if g.dim == 3 else tuple(reversed(first))
            mon.check("face-orientation", cyc(tuple(nodes)) == cyc(good), lambda: f"{what} face {nodes} of cells {lr}: expected {good}")
    mon.check("face-complete", len(seen) == len(ref), lambda: f"{what} {len(seen)} faces found, {len(ref)} exist")
    return seen


def check_geometry(mon, xyz, faces, ncell, vol_ref, ids, scale):
    """what a finite volume solver does with the faces: closed cells, positive volumes"""
    area = np.zeros((ncell, 3))
    vol = np.zeros(ncell)
    c0 = xyz.mean(axis=0)
    loc = xyz - c0
    for nodes, (l, r) in faces.values():
        s = gen.face_area_vector(loc, nodes)
        v = gen.face_volume_flux(loc, nodes)
        area[l] += s
        vol[l] += v
        if r >= 0:
            area[r] -= s
            vol[r] -= v
    tol = 1e-11 * max(scale, 1e-300)
    mon.check("cell-closure", np.all(np.abs(area) < tol * scale), lambda: f"cells not closed: {np.abs(area).max()}")
    want = np.zeros(ncell)
    want[ids] = vol_ref
    mon.check(
        "cell-volume",
        np.all(np.abs(vol - want) < 1e-10 * scale**3),
        lambda: f"volumes from faces {vol[:6]} expected {want[:6]}",
    )


def mark_faces(m, name):
    """set of faces (frozensets of nodes) of a face mark"""
    faces = mesh_faces(m)
    return [frozenset(faces[int(i)][0]) for i in m.seekmark(name).index.list()]


def marknames(m):
    return list(m._bocos)
