"""C11 IC3 v4 (HDF5) files keep mesh, marks, solution and statistics, and convert from and to v2/v3"""
import random

import h5py
import numpy as np

import cfdtools.data as _data
from cfdtools.ic3 import readerV4, reader_legacy, writerV2, writerV3, writerV4

from c09 import ORDERS, build
from vmon import gen, ic3case, ic3io, rig

ID = "C11"
RULE = (
    "random meshes with marks, periodic zones, conservative solution, statistics and weights written in version 4, parsed "
    "with h5py, read back, converted to versions 2/3 and back; files in the same layout written independently with h5py; "
    "distinct by the face tables and fields"
)
REQUIRED = [
    "v4-sizes", "v4-xyz", "v4-zones", "v4-periodic", "v4-cells", "face-complete", "face-orientation", "v4-fields", "v4-state",
    "v4-weights", "v4-read", "v4-read-fields", "v4-read-state", "chain-mesh", "chain-data", "foreign",
    "v4-long-names",
]  # fmt: skip


def cases(tier, rng):
    n = 480 if tier == "quick" else 1600
    out = []
    for i in range(n):
        out.append(
            {
                "spec": gen.spec2(rng, 5) if i % 5 == 0 else gen.spec3(rng, 3 if tier == "quick" or i % 10 else 6),
                "index": rng.choice(["range", "position", "split"]),
                "seed": rng.randrange(10**6),
                "mode": rng.choice(["sides", "groups"]),
                "keep": rng.choice([1.0, 1.0, 0.5, 0.0]),
                "perio": rng.choice([0.0, 0.4]),
                "part": rng.random() < 0.3,
                "hostile": rng.random() < 0.5,
                "version": rng.choice([2, 3]),
                "endian": rng.choice(ic3case.ENDIANS),
                "sol": rng.random() < 0.8,
                "foreign": i % 4 == 3,
                "legacy": {"checks": True, "ndof": 1, "facedata": False, "anyzone": rng.random() < 0.5, "images": rng.random() < 0.5, "emptyzone": rng.random() < 0.5} if i % 8 == 2 else None,
            }
        )
    for i in range(16 if tier == "quick" else 80):
        out.append({"long": rng.choice([0, 1, 2, 60]), "spec": gen.spec3(rng, 2), "seed": rng.randrange(10**6)})
    return gen.widen(out, rng)


class V4:
    pass


def parse(mon, path, what="v4"):
    F = V4()
    with h5py.File(path, "r") as h:
        F.version = int(h.attrs["ic3_format_version"])
        F.counts = tuple(int(h.attrs[k]) for k in ("no_count", "fa_count", "cv_count"))
        F.xyz = np.array(h["coordinates"]).reshape(-1, 3)
        n = np.array(h["Connectivities/Face/noofa_i"]).astype(int)
        v = np.array(h["Connectivities/Face/noofa_v"]).astype(int)
        F.cvofa = np.array(h["Connectivities/Face/cvofa"]).astype(int).reshape(-1, 2)
        off = np.concatenate(([0], np.cumsum(n)))
        F.faces = [tuple(int(i) for i in v[a:b]) for a, b in zip(off[:-1], off[1:])]
        F.cells = {k: np.array(d) for k, d in h["Connectivities/Cell"].items()} if "Cell" in h["Connectivities"] else None
        labels = [s.decode() for s in h["Boundaries/labels"][()]]
        o = np.array(h["Boundaries/offsets"]).astype(int)
        kinds = np.array(h["Boundaries/kinds"]).astype(int)
        mon.check("v4-zones", len(o) == len(labels) + 1 == len(kinds) + 1, f"{what}: {len(labels)} labels {len(o)} offsets")
        mon.check("v4-zones", o[0] == 0 and o[-1] == F.counts[1] and (np.diff(o) >= 0).all(), f"{what}: offsets {o}")
        F.zones = {}
        for i, l in enumerate(labels):
            tr = np.array(h["Boundaries"][l]["periodic_transform"]) if l in h["Boundaries"] else None
            mon.check("v4-zones", l not in F.zones, f"{what}: zone {l} twice")
            F.zones[l] = (int(kinds[i]), int(o[i]), int(o[i + 1]) - 1, tr)
    mon.check("v4-sizes", F.version == 4 and len(F.faces) == len(F.cvofa) == F.counts[1] and len(F.xyz) == F.counts[0], f"{what}: {F.counts}")
    mon.check("v4-sizes", off[-1] == len(v), f"{what}: nodes of faces")
    return F


def facemap(F):
    return {i: (F.faces[i], (int(F.cvofa[i, 0]), int(F.cvofa[i, 1]))) for i in range(len(F.faces))}


def check_v4_mesh(mon, F, model, what="v4"):
    g, ids = model["g"], model["ids"]
    mon.check("v4-sizes", (F.counts[0], F.counts[2]) == (g.nnode, g.ncell), f"{what} sizes {F.counts}")
    mon.check("v4-xyz", ic3io.same(F.xyz, g.xyz), f"{what}: coordinates")
    rig.check_faces(mon, g, ids, facemap(F), what=what)
    inner = [k for k, z in F.zones.items() if z[0] == 6]
    mon.check("v4-zones", len(inner) == 1, f"{what}: internal zones {inner}")
    z = F.zones[inner[0]]
    mon.check("v4-zones", z[2] == F.counts[1] - 1 and all(F.cvofa[i, 1] >= 0 for i in range(z[1], z[2] + 1)), f"{what}: internal zone {z}")
    marked = set().union(*[fs for _, fs, _ in model["marks"].values()]) if model["marks"] else set()
    allb = {f for f, sup in g.facemap().items() if len(sup) == 1}
    extra = set(F.zones) - set(model["marks"]) - set(inner)
    mon.check("v4-zones", set(model["marks"]) <= set(F.zones) and len(extra) == (1 if allb - marked else 0), f"{what}: zones {sorted(F.zones)}")
    for name, (typ, fs, tr) in list(model["marks"].items()) + [(e, ("boundary", allb - marked, None)) for e in extra]:
        k, a, b, t = F.zones[name]
        got = [frozenset(F.faces[i]) for i in range(a, b + 1)]
        mon.check("v4-zones", len(got) == len(fs) and set(got) == fs, f"{what}: zone {name} {len(got)} faces expected {len(fs)}")
        mon.check("v4-zones", k == ic3io.KIND[typ], f"{what}: zone {name} kind {k} of {typ}")
        if typ != "boundary":
            mon.check("v4-periodic", t is not None and ic3io.same(t, np.array(tr[:3])), f"{what}: transform of {name}: {t} {tr[:3]}")


def solution(case, m, r, n):
    """conservative variables and statistics"""
    cells = {}
    if r.random() < 0.8:  # or only statistics, or only the state
        cells = {"RHO": ic3case.hostile(r, n), "RHOU": ic3case.hostile(r, 3 * n).reshape(n, 3), "RHOE": ic3case.hostile(r, n)}
    for i in range(r.randint(0, 4)):
        base = r.choice(["U", "P", "RHO", "TAU", "T", "MU_LAM"])
        suff = r.choice(["_AVG", "_RMS", "_REY"])
        name = f"{base}{i}{suff}" + r.choice(["", "", "", "_X", "2", "_OLD", " (1)"])
        k = r.choice([1, 3, 9])
        a = ic3case.hostile(r, k * n)
        cells[name] = a if k == 1 else a.reshape(n, 3) if k == 3 else a.reshape(n, 3, 3)
    params = {"step": r.choice([0, 3, 2**40]), "time": float(ic3case.hostile(r, 1)[0])}
    wgt = {}
    for k in ("rho_wgt", "stats_wgt"):  # with statistics or not
        if r.random() < 0.5:
            wgt[k] = float(ic3case.hostile(r, 1)[0])
    ds = _data.DataSet("cellaverage")
    names = list(cells)
    r.shuffle(names)
    for k in names:
        ds.add_data(k, cells[k].copy())
    m.set_celldata(ds)
    m.update_params({**params, **wgt} if r.random() < 0.6 else {**params, "wgt": {k[:-4]: v for k, v in wgt.items()}})
    return {"cells": cells, "params": params, "wgt": wgt}


def flat(a, n):
    return np.asarray(a).reshape(n, -1)


def check_read(mon, m, F, sol, what):
    mon.check("v4-read", (m.nnode, int(m.nface), m.ncell) == F.counts, f"{what}: sizes")
    mon.check("v4-read", ic3io.same(m.nodescoord(ndarray=True), F.xyz), f"{what}: coordinates")
    mon.check("v4-read", rig.mesh_faces(m) == facemap(F), f"{what}: faces")
    mon.check("v4-read", sorted(rig.marknames(m)) == sorted(F.zones), f"{what}: marks {rig.marknames(m)}")
    for name, (k, a, b, tr) in F.zones.items():
        boco = m.seekmark(name)
        mon.check("v4-read", list(boco.index.list()) == list(range(a, b + 1)), f"{what}: mark {name} {boco.index.list()[:5]} of {a}-{b}")
        mon.check("v4-read", ic3io.KIND[boco.type] == k, f"{what}: mark {name} type {boco.type}")
        if tr is not None:
            mon.check("v4-read", ic3io.same(np.array(boco.properties["periodic_transform"]), tr), f"{what}: transform {name}")
    if sol is not None:
        mon.check("v4-read-fields", set(m._celldata.keys()) == set(sol["cells"]), f"{what}: {sorted(m._celldata.keys())} expected {sorted(sol['cells'])}")
        for k, a in sol["cells"].items():
            mon.check("v4-read-fields", ic3io.same(flat(m._celldata[k], m.ncell), flat(a, m.ncell)), f"{what}: {k}")
        for k, v in {**sol["params"], **sol["wgt"]}.items():
            mon.check("v4-read-state", k in m._params and ic3io.same(np.array([float(m._params[k])]), np.array([float(v)])), f"{what}: {k} {m._params.get(k)} expected {v}")


def foreign(case, mon, r):
    """a file in the same layout by somebody else"""
    g = gen.make(case["spec"])
    fm = g.facemap()
    marks = gen.node_marks(g, case["seed"])
    faces, cvofa, labels, offs, kinds, trs = [], [], [], [0], [], {}
    left = {f for f, s in fm.items() if len(s) == 1}
    images, empty = r.random() < 0.5, r.random() < 0.3
    groups = [(n, list(fs)) for n, (fs, _) in marks.items()]
    for _, fs in groups:
        left -= set(fs)
    if left:
        groups.append(("others", list(left)))
    if empty:
        groups.append(("no face", []))
    r.shuffle(groups)
    for name, fs in groups:
        kinds.append(r.choice([1, 1, 2, 5]))
        for f in sorted(fs, key=sorted):
            faces.append(fm[f][0][1])
            cvofa.append((fm[f][0][0], -2 - r.randrange(50) if kinds[-1] > 1 and images else -1))
        labels.append(name)
        offs.append(len(faces))
        if kinds[-1] > 1:
            trs[name] = ic3case.hostile(r, 3)
    for f, s in fm.items():
        if len(s) == 2:
            faces.append(s[0][1])
            cvofa.append((s[0][0], s[1][0]))
    labels.append("internal-domain" if "internal-domain" not in labels else "inner faces")
    offs.append(len(faces))
    kinds.append(6)
    f, s = mon.path("foreign.h5"), None
    sol = None
    if case["sol"]:
        s, n = mon.path("fsol.h5"), g.ncell
        sol = {"cells": {}, "params": {"step": r.choice([0, 5, 2**33]), "time": r.uniform(0, 9)}, "wgt": {}}
        cells = sol["cells"]
        with h5py.File(s, "w") as h:
            h.attrs.update(sol["params"])
            for k, c in (("RHO", 1), ("RHOU", 3), ("RHOE", 1)) if r.random() < 0.8 else ():
                cells[k] = ic3case.hostile(r, n * c).reshape((n, 3) if c == 3 else (n,))
                h[k.lower()] = cells[k] if r.random() < 0.5 else cells[k].ravel()
            if r.random() < 0.6:
                v = h.create_group("VolumeStats")
                for k in r.sample(["RHO_AVG", "P_RMS", "U_AVG", "U_REY", "TAU_AVG"], 3):
                    c = {"U_AVG": 3, "U_REY": 3, "TAU_AVG": 9}.get(k, 1)
                    cells[k] = ic3case.hostile(r, n * c).reshape({1: (n,), 3: (n, 3), 9: (n, 3, 3)}[c])
                    v[k.lower()] = cells[k].ravel()
                sol["wgt"] = {"rho_wgt": r.uniform(0, 9)}
                v.attrs.update(sol["wgt"])
    ity = r.choice(["i4", "i8"])
    uty = r.choice(["u1" if g.nnode < 256 and len(faces) < 256 else "u4", "u2" if 4 * len(faces) < 2**16 else "u4", "u4", "u8"]) if r.random() < 0.3 else ity  # what is never negative
    mon.stat("integers of a foreign file", uty)
    with h5py.File(f, "w") as h:
        h.attrs.update({"ic3_format_version": 4, "meshtype": "unstructured", "no_count": g.nnode, "fa_count": len(faces), "cv_count": g.ncell})
        h["coordinates"] = g.xyz.ravel()
        h["Connectivities/Face/cvofa"] = np.array(cvofa, dtype=ity).ravel()
        h["Connectivities/Face/noofa_i"] = np.array([len(x) for x in faces], dtype=uty)
        h["Connectivities/Face/noofa_v"] = np.array([n for x in faces for n in x], dtype=uty)
        h.create_dataset("Boundaries/labels", data=[x.encode() for x in labels], dtype=h5py.string_dtype("utf-8", 128))
        h["Boundaries/offsets"] = np.array(offs, dtype=uty)
        h["Boundaries/kinds"] = np.array(kinds, dtype=uty)
        for k, v in trs.items():
            h[f"Boundaries/{k}/periodic_transform"] = v
    return f, s, sol


def legacy(case, mon, r):
    """a file of versions 2 or 3 by somebody else, to version 4 and back"""
    c = {**case, **case["legacy"], "endian": r.choice("<>")}
    rr, g, spec, model = build(c)
    f1, f4, f2 = mon.path("l.ic3"), mon.path("l.h5"), mon.path("b.ic3")
    ic3io.write(f1, spec, c["endian"], c["version"], list(ORDERS[r.randrange(len(ORDERS))]), True, [rr])
    F1 = ic3io.parse(f1)
    writerV4.writer(ic3case.read(f1)).write_data(f4)
    F4 = parse(mon, f4, "legacy to v4")
    rd = readerV4.reader(f4)
    rd.read_data()
    m = rd.export_mesh()
    check_read(mon, m, F4, None, "legacy to v4")
    (writerV2 if case["version"] == 2 else writerV3).writer(m).write_data(f2)
    F2 = ic3case.parse(mon, f2, "legacy to v4 and back")
    zones = {z[0]: (z[1], z[2], z[3]) for z in F1.zones if z[1] != 6}
    mon.check("chain-mesh", {n: z[:3] for n, z in F4.zones.items() if z[0] != 6} == zones, lambda: f"zones {F4.zones} of {zones}")
    mon.check("chain-mesh", {z[0]: (z[1], z[2], z[3]) for z in F2.zones if z[1] != 6} == zones, lambda: f"zones {F2.zones} of {zones}")
    for F, what in ((F4, "v4"), (F2, "back")):
        mon.check("chain-mesh", F.counts[:3] == F1.counts[:3] and ic3io.same(F.xyz, F1.xyz) and F.faces == F1.faces and (F.cvofa == F1.cvofa).all(), f"legacy: {what}")
    for z in F1.zones:
        if z[1] not in (1, 6):
            mon.check("v4-periodic", ic3io.same(np.asarray(F4.zones[z[0]][3]), np.array(z[4][:3])), f"transform of {z[0]}")
    mon.note(F1.xyz, F1.cvofa)


def run_long(case, mon, r):
    """names of marks at the limit of the format and above: kept, or refused, but not replaced by others"""
    m, model = ic3case.make_mesh(dict(case, mode="sides"))
    olds = r.sample(sorted(model["marks"]), min(2, len(model["marks"])))
    char = r.choice(["k", "é", "k ", "密"])
    stem = (char * 128).encode()[: 127 if case["long"] else r.choice([127, 128, 126])].decode(errors="ignore").strip()
    names = []
    for i, old in enumerate(olds):
        b = m.seekmark(old)
        m.remove_boco(old)
        new = type(b)(stem[: len(stem) - (0 if case["long"] else 1)] + "abcd"[i] * max(1, case["long"]) if case["long"] or i == 0 else stem[1:])
        new.geodim, new.type, new.index = b.geodim, b.type, b.index
        m.add_boco(new)
        names.append(new.name)
    f = mon.path("long.h5")
    mon.seen("v4-long-names")
    mon.note(case["long"], names)
    try:
        writerV4.writer(m).write_data(f)
    except Exception as e:
        mon.check("v4-long-names", max(len(n.encode()) for n in names) > 128, lambda: f"names {names} refused: {e!r}")
        mon.stat("long names", "refused: " + type(e).__name__)
        return
    got = list(parse(mon, f, "long names").zones)
    mon.check("v4-long-names", set(names) <= set(got), lambda: f"marks {names} written as {got}")
    rd = readerV4.reader(f)
    rd.read_data()
    mon.check("v4-long-names", set(names) <= set(rig.marknames(rd.export_mesh())), lambda: f"marks {names} not read")


def run(case, mon):
    r = random.Random(case["seed"] + 3)
    if "long" in case:
        return run_long(case, mon, r)
    f1, s1, f2, f3, s3 = (mon.path(x) for x in ("m.h5", "s.h5", "o.ic3", "b.h5", "bs.h5"))
    if case["foreign"]:
        f, s, sol = foreign(case, mon, r)
        F = parse(mon, f, "foreign")
        rd = readerV4.reader(f, s) if s else readerV4.reader(f)
        rd.read_data()
        m = rd.export_mesh()
        check_read(mon, m, F, sol, "foreign")
        f2 = mon.path("fo.ic3")
        (writerV2 if case["version"] == 2 else writerV3).writer(m, case["endian"]).write_data(f2)
        F2 = ic3case.parse(mon, f2, "foreign to v%d" % case["version"])
        mon.check("chain-mesh", F2.counts[:3] == F.counts and ic3io.same(F2.xyz, F.xyz) and F2.faces == F.faces and (F2.cvofa == F.cvofa).all(), "foreign to v2/3")
        mon.check("chain-mesh", {z[0]: z[1:4] for z in F2.zones if z[1] != 6} == {n: z[:3] for n, z in F.zones.items() if z[0] != 6}, lambda: f"foreign: zones {F2.zones} {F.zones}")
        for k, a in (sol["cells"] if sol else {}).items():
            mon.check("chain-data", k in F2.data["cells"] and ic3io.same(F2.data["cells"][k], a), f"foreign: {k}")
        mon.check("foreign", rd.ncell == F.counts[2], "ncell")
        mon.note(F.xyz, F.cvofa)
        return
    if case["legacy"]:
        return legacy(case, mon, r)
    m, model = ic3case.make_mesh(case)
    g = model["g"]
    sol = solution(case, m, r, g.ncell) if case["sol"] else None
    w = writerV4.writer(m)
    if sol and r.random() < 0.25:  # another state is given to the writer
        sol["params"] = {"step": r.choice([0, 4, 10**6]), "time": r.uniform(-5, 5)}
        more = {k: r.uniform(-5, 5) for k in ("rho_wgt", "more_wgt") if r.random() < 0.5}
        sol["wgt"].update(more)
        w.set_simstate({**sol["params"], **more})
    w.write_data(f1, s1) if sol else w.write_data(f1)
    F = parse(mon, f1)
    check_v4_mesh(mon, F, model)
    want = {t: sorted(map(tuple, c.tolist())) for t, (_, c) in g.by_type().items()}
    got = {t: sorted(map(tuple, c.tolist())) for t, c in (F.cells or {}).items()}
    mon.check("v4-cells", got == want, f"cells {sorted(got)} expected {sorted(want)}")
    if sol:
        with h5py.File(s1, "r") as h:
            names = {k for k in h if k != "VolumeStats"} | ({k for k in h["VolumeStats"]} if "VolumeStats" in h else set())
            mon.check("v4-fields", names == {k.lower() for k in sol["cells"]}, f"fields {sorted(names)}")
            for k, a in sol["cells"].items():
                d = h[k.lower()] if k.lower() in h else h["VolumeStats"][k.lower()]
                mon.check("v4-fields", ic3io.same(np.array(d).ravel(), a.ravel()), f"field {k}")
            for k, v in sol["params"].items():
                mon.check("v4-state", ic3io.same(np.array([float(h.attrs[k])]), np.array([float(v)])), f"{k}: {h.attrs[k]} expected {v}")
            for k, v in sol["wgt"].items():
                mon.check("v4-weights", ic3io.same(np.array([float(h["VolumeStats"].attrs[k])]), np.array([v])), f"{k}")
    rd = readerV4.reader(f1, s1) if sol else readerV4.reader(f1)
    rd.read_data()
    m2 = rd.export_mesh()
    check_read(mon, m2, F, sol, "read")
    # to version 2 or 3 and back
    (writerV2 if case["version"] == 2 else writerV3).writer(m2, case["endian"]).write_data(f2)
    F2 = ic3case.parse(mon, f2, "v4->v%d" % case["version"])
    mon.check("chain-mesh", F2.counts[:3] == F.counts and ic3io.same(F2.xyz, F.xyz) and F2.faces == F.faces and (F2.cvofa == F.cvofa).all(), "v4 to v2/3")
    z2 = {(None if k == 6 else n): (k, a, b) for n, k, a, b, _ in F2.zones}
    z4 = {(None if z[0] == 6 else n): z[:3] for n, z in F.zones.items()}
    mon.check("chain-mesh", z2 == z4, f"zones {z2} {z4}")
    if sol:
        mon.check("chain-data", set(F2.data["cells"]) == set(sol["cells"]), f"{sorted(F2.data['cells'])}")
        for k, a in sol["cells"].items():
            mon.check("chain-data", ic3io.same(F2.data["cells"][k], a), f"{k} in v{case['version']}")
        mon.check("chain-data", F2.params.get("STEP") == sol["params"]["step"] and F2.params.get("TIME") == sol["params"]["time"], "state")
        for k, v in sol["wgt"].items():
            mon.check("chain-data", ic3io.same(np.array([F2.params.get(k.upper(), np.nan)]), np.array([v])), f"weight {k} {F2.params.get(k.upper())}")
    rl = reader_legacy.reader(f2)
    rl.read_data()
    m3 = rl.export_mesh()
    names = rig.marknames(m3)
    if r.random() < 0.5:  # marks listed in another order
        r.shuffle(names)
        for b in [m3.seekmark(n) for n in names]:
            m3.remove_boco(b.name)
            m3.add_boco(b)
    writerV4.writer(m3).write_data(f3, s3)
    F3 = parse(mon, f3, "back")
    check_v4_mesh(mon, F3, model, "back")
    if sol:
        rd = readerV4.reader(f3, s3)
        rd.read_data()
        check_read(mon, rd.export_mesh(), F3, sol, "back")
    mon.note(F.xyz, F.cvofa, sorted(F.zones))
    mon.stat("types", "+".join(g.types()))
