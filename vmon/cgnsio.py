"""Independent writer of CGNS/HDF5 unstructured files from a GMesh (h5py, mapping of the CGNS SIDS)."""
import random

import h5py
import numpy as np

CTYPE = {"bar2": 3, "tri3": 5, "quad4": 7, "tetra4": 10, "pyra5": 12, "prism6": 14, "hexa8": 17}
BDTYPE = {2: "bar2", 3: "tri3", 4: "quad4"}


def _node(parent, name, label, typ="MT", data=None):
    g = parent.create_group(name)
    g.attrs["name"] = np.bytes_(name)
    g.attrs["label"] = np.bytes_(label)
    g.attrs["type"] = np.bytes_(typ)
    g.attrs["flags"] = np.array([1], dtype=np.int32)
    if data is not None:
        g.create_dataset(" data", data=data)
    return g


def _str(s):
    return np.array([ord(c) for c in s], dtype=np.int8)


NAMES = ["Inflow", "Outflow", "WALL", "Sym plane", "far-field", "Top", "BOTTOM", "perio_1", "perio_2", "hub", "shroud", "blade", "wall.1", "wall.2", "wall", "a-b", "x:y", "1", "Zone_1"]


def write(path, g, seed, others=()):
    """writes the zone of g (and zones of other meshes), returns marks {name: list of faces (frozensets)}, layout (and name of the zone)"""
    r = random.Random(seed)
    with h5py.File(path, "w", track_order=r.random() < 0.5) as f:
        f.attrs["name"] = np.bytes_("HDF5 MotherNode")
        f.attrs["label"] = np.bytes_("Root Node of HDF5 File")
        f.attrs["type"] = np.bytes_("MT")
        f.create_dataset(" format", data=_str("IEEE_LITTLE_32"))
        f.create_dataset(" hdf5version", data=_str("HDF5 Version 1.8.17"))
        _node(f, "CGNSLibraryVersion", "CGNSLibraryVersion_t", "R4", np.array([3.11], dtype=np.float32))
        base = _node(f, "Base" + str(r.randint(1, 9)), "CGNSBase_t", "I4", np.array([g.dim, 3], dtype=np.int32))
        meshes = [g, *others]
        names = r.sample(["zone " + str(i) for i in range(1, 10)] + ["blk-1", "blk-10", "Fluid"], len(meshes))
        bases = {g.dim: base}
        apart = r.random() < 0.3
        numbers = r.sample([c + str(i) for c in ("A", "Base2_", "Z") for i in range(9)], 9)
        if r.random() < 0.1:  # a base without zone
            _node(f, numbers.pop(), "CGNSBase_t", "I4", np.array([r.choice([2, 3]), 3], dtype=np.int32))
        zname = names[0]
        res = {}
        for i in r.sample(range(len(meshes)), len(meshes)):
            d = meshes[i].dim
            if d not in bases or apart:
                bases[d] = _node(f, numbers.pop(), "CGNSBase_t", "I4", np.array([d, 3], dtype=np.int32))
            res[i] = write_zone(bases[d], names[i], meshes[i], r)
    return (*res[0], zname) if others else res[0]


def write_zone(base, zname, g, r):
    I = r.choice([np.int32, np.int32, np.int64])
    ityp = "I4" if I is np.int32 else "I8"
    names = NAMES[:]
    r.shuffle(names)
    fm = g.facemap()
    bdfaces = {s: list(f) for s, f in g.sides.items() if f}
    order = list(bdfaces)
    r.shuffle(order)
    groups = []
    while order:
        k = r.randint(1, min(2, len(order)))
        pick, order = order[:k], order[k:]
        fs = [f for s in pick for f in bdfaces[s]]
        r.shuffle(fs)
        groups.append((names.pop(), fs, r.random() < 0.85))
    # sections: cells by type (maybe in two), faces per group and type; any order of element numbers
    sections = []  # (name, type, rows, key)
    for t, (pos, conn) in g.by_type().items():
        if len(pos) > 1 and r.random() < 0.4:
            c = r.randint(1, len(pos) - 1)
            parts = [conn[:c], conn[c:]]
        else:
            parts = [conn]
        for i, p in enumerate(parts):
            sections.append([f"Fluid_{t}_{i}", t, [tuple(int(x) for x in row) for row in p], None])
    for name, fs, _ in groups:
        for t in ("bar2", "tri3", "quad4"):
            rows = [fm[f][0][1] for f in fs if BDTYPE[len(f)] == t]
            if rows:
                rows = [tuple(reversed(x)) if r.random() < 0.3 else x for x in rows]
                sections.append([f"Sec_{name}_{t}", t, rows, name])
    layout = r.choice(["cells first", "faces first", "shuffled"])
    if layout == "faces first":
        sections.sort(key=lambda s: s[3] is None)
    elif layout == "shuffled":
        r.shuffle(sections)
    num = 1
    for s in sections:
        s.append((num, num + len(s[2]) - 1))
        num += len(s[2])
    written = list(sections)
    r.shuffle(written)
    marks = {}
    zone = _node(base, zname, "Zone_t", ityp, np.array([[g.nnode], [g.ncell], [0]], dtype=I))
    _node(zone, "ZoneType", "ZoneType_t", "C1", _str("Unstructured"))
    gc = _node(zone, "GridCoordinates", "GridCoordinates_t")
    for i, c in enumerate("XYZ"):
        _node(gc, f"Coordinate{c}", "DataArray_t", "R8", np.array(g.xyz[:, i]))
    for name, t, rows, _key, (a, b) in written:
        s = _node(zone, name, "Elements_t", "I4", np.array([CTYPE[t], 0], dtype=np.int32))
        _node(s, "ElementRange", "IndexRange_t", ityp, np.array([a, b], dtype=I))
        _node(s, "ElementConnectivity", "DataArray_t", ityp, np.array(rows, dtype=I).ravel() + 1)
    if r.random() < 0.5:
        _node(base, "Extra " + zname, "Family_t")
    zbc = _node(zone, "ZoneBC", "ZoneBC_t")
    zgc = _node(zone, "ZoneGridConnectivity", "ZoneGridConnectivity_t") if r.random() < 0.3 else None
    for name, fs, fam in groups:
        ids = [k for s in sections if s[3] == name for k in range(s[4][0], s[4][1] + 1)]
        r.shuffle(ids)
        nb = 1
        if fam and len(ids) > 1 and r.random() < 0.3:
            nb = 2  # two conditions which refer to the same family
        cut = r.randint(1, len(ids) - 1) if nb == 2 else len(ids)
        byid = {k: row for s in sections if s[3] == name for k, row in zip(range(s[4][0], s[4][1] + 1), s[2])}
        for i, part in enumerate((ids[:cut], ids[cut:])):
            if not part:
                continue
            gc1 = zgc is not None and not fam and r.random() < 0.5  # interface with another zone
            if gc1:
                bc = _node(zgc, name, "GridConnectivity_t", "C1", _str("other zone"))
                _node(bc, "GridConnectivityType", "GridConnectivityType_t", "C1", _str("Abutting1to1"))
                _node(bc, "PointListDonor", "IndexArray_t", ityp, np.arange(1, 1 + len(part), dtype=I).reshape(1, -1))
            else:
                same = [k for k in (zgc or ()) if fam and k not in zbc]  # names are those of each container
                bname = r.choice(same) if same and r.random() < 0.5 else f"bc_{name}_{i}" if fam else name
                bc = _node(zbc, bname, "BC_t", "C1", _str(r.choice(["BCWall", "BCInflow", "FamilySpecified"])))
            if fam:
                _node(bc, "FamilyName", "FamilyName_t", "C1", _str(name))
            how = r.choice(["faces", "vertex"] if gc1 else ["faces", "elements", "vertex"])
            col = r.random() < 0.5
            if how == "vertex":
                nodes = sorted({k for e in part for k in byid[e]})
                r.shuffle(nodes)
                if len(nodes) == g.nnode:
                    how = "faces"
            if how == "vertex":
                v = np.array(nodes, dtype=I) + 1
                _node(bc, "PointList", "IndexArray_t", ityp, v.reshape(-1, 1) if col else v.reshape(1, -1))
                if r.random() < 0.5:
                    _node(bc, "GridLocation", "GridLocation_t", "C1", _str("Vertex"))
            else:
                v = np.array(part, dtype=I)
                v = v.reshape(-1, 1) if col else v.reshape(1, -1)
                if how == "faces":
                    _node(bc, "PointList", "IndexArray_t", ityp, v)
                    _node(bc, "GridLocation", "GridLocation_t", "C1", _str("FaceCenter"))
                else:
                    _node(bc, "ElementList", "IndexArray_t", ityp, v)
        marks[name] = fs
    if r.random() < 0.5:  # the whole domain as a condition
        ids = [k for s in sections if s[3] is None for k in range(s[4][0], s[4][1] + 1)]
        bc = _node(zbc, "all cells", "BC_t", "C1", _str("BCTypeUserDefined"))
        _node(bc, "ElementList", "IndexArray_t", ityp, np.array(ids, dtype=I).reshape(-1, 1))
        _node(bc, "FamilyName", "FamilyName_t", "C1", _str("FLUID"))
    return marks, layout
