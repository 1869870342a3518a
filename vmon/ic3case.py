"""Random meshes with marks, periodic zones, partition, parameters and data, their model, and comparisons."""
import random
import string
import struct

import numpy as np

import cfdtools.data as _data
from cfdtools.ic3 import reader_legacy, writerV2, writerV3

from vmon import gen, ic3io, rig

WRITER = {2: writerV2.writer, 3: writerV3.writer}
ENDIANS = ["native", "little", "big"]
PERIO = ["perio_cart", "perio_cylx", "perio_cyly", "perio_cylz"]


def hostile(r, n, extreme=True):
    """n doubles, some of them hard to carry through a text or a single precision representation"""
    a = np.array([r.gauss(0, 1) * 10.0 ** r.choice([0, 0, 0, -7, 5]) for _ in range(n)])
    if extreme:
        special = [0.0, -0.0, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 1 / 3, 1 + 2**-52, -1e-300, 0.1]
        for _ in range(r.randint(0, min(n, 6))):
            a[r.randrange(n)] = r.choice(special)
    return a


def varname(r, used):
    while True:
        n = r.choice(["P", "T", "RHO", "RHOU", "U_AVG", "rho-E", "Mach", "x", "U V", "TAU", "K", "DEOF", "EOF"])
        k = r.randint(0, 3)
        n = n + "".join(r.choice(string.ascii_letters + string.digits + "_.") for _ in range(k))
        if r.random() < 0.05:
            n = (n + "_" + "abcdefghij" * 6)[: r.choice([51, 52])]
        elif r.random() < 0.05:
            n += r.choice(["é", "ρ", "γ-1", "°C", "密度"])
        if n not in used:
            used.add(n)
            return n


def make_mesh(case, data=False, version=3):
    """cfdtools mesh and the model of everything it carries"""
    r = random.Random(case["seed"])
    g = gen.make(case["spec"])
    if case.get("hostile"):
        # bit patterns: coordinates are carried, not computed
        g.xyz = g.xyz * (1 + 2.0**-40 * np.array([[r.gauss(0, 1) for _ in range(3)] for _ in range(g.nnode)]))
    rx = random.Random(case["seed"] + 31)
    single = rx.random() < 0.1 and g.xyz.astype("f4").astype("f8")
    if single is not False and len(np.unique(single, axis=0)) == g.nnode:
        g.xyz = single
    marks = gen.node_marks(g, case["seed"], case.get("mode", "sides"), case.get("keep", 1.0), empty=0.15)
    m, ids = rig.to_mesh(g, case.get("index", "range"), case["seed"], marks)
    if single is g.xyz:  # coordinates in single precision are the same values in the file
        m.set_nodescoord_nd(g.xyz.astype("f4"))
    model = {"g": g, "ids": ids, "marks": {}, "params": {"step": 0, "dt": 0.0, "time": 0.0}, "wgt": {}}
    for name, (fs, _) in marks.items():
        b = m.seekmark(name)
        typ, tr = "boundary", [0.0] * 16
        if r.random() < case.get("perio", 0.0):
            typ = r.choice(PERIO)
            tr = hostile(r, 16).tolist() if r.random() < 0.5 else [1.5, -0.25, 0.0] + [0.0] * 13
            b.type = typ
            b.properties["periodic_transform"] = np.array(tr) if r.random() < 0.5 else list(tr)
        elif r.random() < 0.5:
            b.properties["periodic_transform"] = None
        model["marks"][name] = (typ, fs, tr)
    if case.get("part"):
        npart = r.choice([r.randint(1, 7), r.randint(1, 7), 300, 70000, 2**31 - 1])
        part = np.array([r.randrange(npart) for _ in range(g.ncell)], dtype=r.choice([np.int32, np.int64]))
        m.set_partition({"npart": npart, "icvpart": part})
        model["npart"], model["part"] = npart, part.copy()
    else:
        model["npart"], model["part"] = 1, np.zeros(g.ncell, dtype=int)
    if data:
        if r.random() < 0.9:
            p = {"step": r.choice([0, 1, 12345, 2**40]), "dt": abs(hostile(r, 1)[0]), "time": hostile(r, 1)[0]}
            p = {k: v for k, v in p.items() if r.random() < 0.9}
            for k in ("rho", "T2", "stats"):
                if r.random() < 0.4:
                    model["wgt"][k.upper() + "_WGT"] = p[k.lower() + "_wgt"] = float(hostile(r, 1)[0])
            if r.random() < 0.3:  # weights in one dictionary
                p = {**{k: v for k, v in p.items() if not k.endswith("_wgt")}, "wgt": {k[:-4]: v for k, v in p.items() if k.endswith("_wgt")}}
            if r.random() < 0.5:
                m.set_params(dict(p))
            else:
                m.update_params(dict(p))
            model["params"].update({k: v for k, v in p.items() if k in model["params"]})
        ndof = case.get("ndof", 1)
        model["ndof"] = ndof
        model["cells"], model["nodes"] = {}, {}
        used = set()
        nodes = _data.DataSet("nodal")
        cells = _data.DataSet("spectralcell", ndof=ndof) if ndof > 1 else _data.DataSet("cellaverage")
        for loc, ds, n in (("nodes", nodes, g.nnode), ("cells", cells, g.ncell * ndof)):
            if loc == "nodes":
                used = set()
            kinds = ["s", "v"] if loc == "nodes" else ["s", "v", "t"]
            if version == 3:
                kinds.append("i")
            for _ in range(r.randint(0, 4) if r.random() < 0.9 else 0):
                k = r.choice(kinds)
                name = varname(r, used)
                if n == 1 and k == "v":
                    k = "s"
                if k == "s":
                    a = hostile(r, n)
                elif k == "i":
                    a = np.array([r.choice([0, -1, 2**62, -(2**62), r.randrange(10**6), 2**53 + 1, r.getrandbits(63), ~r.getrandbits(63)]) for _ in range(n)], dtype=np.int64)
                elif k == "v":
                    a = hostile(r, 3 * n).reshape(n, 3)
                else:
                    a = hostile(r, 9 * n).reshape(n, 3, 3)
                if r.random() < 0.2 and a.ndim > 1:
                    a = np.asfortranarray(a)
                if r.random() < 0.15:  # single precision, short integers: values are those of the file
                    with np.errstate(over="ignore"):
                        short = a.astype("f4" if a.dtype.kind == "f" else "i4")
                    a = short.astype(a.dtype)
                    ds.add_data(name, short)
                else:
                    ds.add_data(name, a)
                model[loc][name] = a.copy()
        if model["nodes"] or r.random() < 0.5:
            m.set_nodedata(nodes)
        if model["cells"] or r.random() < 0.5:
            m.set_celldata(cells)
    return m, model


def native():
    return "<" if struct.pack("=i", 1) == struct.pack("<i", 1) else ">"


def endchar(e):
    return {"native": native(), "little": "<", "big": ">"}[e]


def parse(mon, path, what="written"):
    try:
        F = ic3io.parse(path)
        ic3io.conforming(F)
    except ic3io.BadFile as e:
        mon.check("well-formed", False, f"{what}: {e}")
    mon.seen("well-formed")
    return F


def check_file_mesh(mon, F, model, what="file"):
    """an IC3 file holds the mesh of the model"""
    g, ids = model["g"], model["ids"]
    mon.check("file-xyz", ic3io.same(F.xyz, g.xyz), lambda: f"{what}: coordinates are not the same doubles")
    mon.check("file-sizes", F.counts[0] == g.nnode and F.counts[2] == g.ncell, f"{what}: sizes {F.counts}")
    rig.check_faces(mon, g, ids, ic3io.facemap(F), what=what)
    names = {z[0] for z in F.zones if z[1] != 6}
    marked = set().union(*[fs for _, fs, _ in model["marks"].values()]) if model["marks"] else set()
    allb = {f for f, sup in g.facemap().items() if len(sup) == 1}
    extra = names - set(model["marks"])
    mon.check("file-zones", set(model["marks"]) <= names and len(extra) == (1 if allb - marked else 0), f"{what}: zones {names}")
    if extra:
        fs = ic3io.zone_faces(F, extra.pop())
        mon.check("file-zones", set(fs) == allb - marked, f"{what}: unmarked faces")
    z = {z[0]: z for z in F.zones}
    for name, (typ, fs, tr) in model["marks"].items():
        got = ic3io.zone_faces(F, name)
        mon.check("file-zones", len(got) == len(fs) and set(got) == fs, f"{what}: zone {name} {len(got)} faces, expected {len(fs)}")
        mon.check("file-zonekind", z[name][1] == ic3io.KIND[typ], f"{what}: zone {name} kind {z[name][1]} of {typ}")
        mon.check("file-periodic", ic3io.same(z[name][4], np.array(tr)), f"{what}: zone {name} transform {z[name][4]} expected {tr}")
    mon.check("file-part", F.npart == model["npart"], f"{what}: {F.npart} partitions, expected {model['npart']}")
    mon.equal("file-part", F.part, model["part"], f"{what}: partition")


def check_mesh_is_file(mon, m, F, what="read"):
    """a mesh read by cfdtools is what the file holds"""
    mon.check("read-xyz", ic3io.same(m.nodescoord(ndarray=True), F.xyz), lambda: f"{what}: coordinates differ from the file")
    mon.check("read-sizes", (m.nnode, m.nface, m.ncell) == F.counts[:3], f"{what}: sizes {(m.nnode, m.nface, m.ncell)} of {F.counts}")
    got, ref = rig.mesh_faces(m), ic3io.facemap(F)
    mon.check("read-faces", got == ref, lambda: f"{what}: faces differ {[ (k, got.get(k), ref[k]) for k in ref if got.get(k) != ref[k]][:3]}")
    mon.check("read-zones", sorted(rig.marknames(m)) == sorted(z[0] for z in F.zones), f"{what}: marks {rig.marknames(m)}")
    kind = {v: k for k, v in ic3io.KIND.items()}
    for name, k, a, b, rdata in F.zones:
        boco = m.seekmark(name)
        mon.check("read-zones", list(boco.index.list()) == list(range(a, b + 1)), f"{what}: mark {name} {boco.index} expected {a}-{b}")
        mon.check("read-zonekind", boco.type == kind[k], f"{what}: mark {name} type {boco.type} expected {kind[k]}")
        mon.check("read-periodic", ic3io.same(np.array(boco.properties["periodic_transform"]), rdata), f"{what}: transform of {name}")
    p = m._cellprop["partition"]
    mon.check("read-part", int(p["npart"]) == F.npart, f"{what}: {p['npart']} partitions")
    mon.equal("read-part", np.array(p["icvpart"]), F.part, f"{what}: partition")


def check_file_data(mon, F, model, what="file"):
    for loc in ("nodes", "cells"):
        mon.check("file-names", set(F.data[loc]) == set(model[loc]), f"{what}: {loc} data {sorted(F.data[loc])} expected {sorted(model[loc])}")
        for name, a in model[loc].items():
            mon.check("file-data", ic3io.same(F.data[loc][name], a), lambda: f"{what}: {loc} data {name} {a.shape}{a.dtype} differ")
    if F.version >= 3:
        for name in model["cells"]:
            mon.check("file-ndof", F.ndof[name] == model["ndof"], f"{what}: ndof of {name}: {F.ndof[name]}")
    P = F.params
    mon.check("file-params", P.get("STEP") == model["params"]["step"], f"{what}: step {P.get('STEP')}")
    for k in ("dt", "time"):
        mon.check("file-params", ic3io.same(np.array([P.get(k.upper(), np.nan)]), np.array([float(model["params"][k])])), f"{what}: {k} {P.get(k.upper())}")
    wgt = {k: v for k, v in P.items() if k.endswith("_WGT")}
    mon.check("file-weights", set(wgt) == set(model["wgt"]), f"{what}: weights {sorted(wgt)} expected {sorted(model['wgt'])}")
    for k, v in model["wgt"].items():
        mon.check("file-weights", ic3io.same(np.array([wgt[k]]), np.array([v])), f"{what}: {k} {wgt[k]} expected {v}")


def check_mesh_data(mon, m, model, what="read"):
    for loc, ds in (("nodes", m._nodedata), ("cells", m._celldata)):
        got = dict(ds.items()) if ds else {}
        mon.check("read-names", set(got) == set(model[loc]), f"{what}: {loc} data {sorted(got)} expected {sorted(model[loc])}")
        for name, a in model[loc].items():
            v = np.asarray(got[name])
            mon.check("read-data", v.dtype.kind == a.dtype.kind and ic3io.same(v, a), lambda: f"{what}: {loc} data {name} {v.shape}{v.dtype} differ from {a.shape}{a.dtype}")
    if model["cells"]:
        mon.check("read-ndof", m._celldata.ndof == model["ndof"], f"{what}: ndof {m._celldata.ndof} expected {model['ndof']}")
    P = m._params
    for k in ("step", "dt", "time"):
        mon.check("read-params", float(P[k]) == float(model["params"][k]), f"{what}: {k} {P[k]} expected {model['params'][k]}")
    for k, v in model["wgt"].items():
        mon.check("read-weights", ic3io.same(np.array([P.get(k.lower(), np.nan)]), np.array([v])), f"{what}: {k}")


def read(path, check=True, both=False):
    r = reader_legacy.reader(str(path), check)
    r.read_data()
    return (r, r.export_mesh()) if both else r.export_mesh()


def filebytes(path):
    with open(path, "rb") as f:
        return f.read()
