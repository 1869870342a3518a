"""C04 extrusion of a 2D mesh gives the conforming, fully marked 3D mesh"""
import numpy as np

import cfdtools.meshbase._connectivity as _conn
from cfdtools.ic3 import reader_legacy, writerV2, writerV3

from vmon import gen, rig

ID = "C04"
RULE = (
    "random 2D tri/quad/mixed meshes with node marks, extruded over random plane positions and directions; the 3D mesh is "
    "rebuilt independently (planes x cells) and compared as cells, faces, marks, volumes, also after an IC3 write/read; "
    "distinct by the observed 3D cell table"
)
TYPES = ("boundary", "perio_cart", "perio_cylx", "perio_cyly", "perio_cylz")
REQUIRED = ["ex-nodes", "ex-cells", "ex-index", "ex-marks", "face-complete", "cell-volume", "mark-faces", "ic3-read", "clash", "ex-transform"]


def cases(tier, rng):
    n = 510 if tier == "quick" else 1600
    out = []
    for i in range(n):
        spec = gen.spec2(rng, 4 if tier == "quick" or i % 8 else 9)
        k = rng.randint(2, 6)
        steps = [round(rng.uniform(0.1, 1.0), 3) for _ in range(k)]
        z0 = rng.choice([0.0, 0.0, -1.25, 2.5])
        zs = [z0]
        for s in steps[1:]:
            zs.append(round(zs[-1] + s, 6))
        if rng.random() < 0.15:  # planes are taken in the given order, whatever it is
            zs = zs[::-1] if rng.random() < 0.5 else rng.sample(zs, len(zs))
        d = rng.choice([None, [0.0, 0.0, 1.0], [0.0, 0.0, 2.0], [0.3, -0.2, 1.0]])
        out.append(
            {
                "spec": spec,
                "index": rng.choice(["range", "position", "split"]),
                "seed": rng.randrange(10**6),
                "zs": zs if rng.random() < 0.85 else None,
                "dir": d,
                "domain": rng.choice([None, "dom", "fluid"]),
                "alone": rng.choice(["end", "any"]) if i % 6 == 2 else None,
                "clash": rng.choice([1, 1, 2]) if i % 9 == 5 else 0,
                "ints": rng.choice(["i4", "i8"]) if i % 8 == 3 else None,
                "short": i % 8 == 6,
                "keep": rng.choice([1.0, 1.0, 0.5, 0.0]),
                "version": rng.choice([2, 3]),
            }
        )
    out = gen.widen(out, rng, kinds2=["quad"], size=(182, 181))
    out[0]["zs"] = [0.0, 0.5]
    return out


def run(case, mon):
    g2 = gen.make(case["spec"])
    if case.get("alone"):
        g2 = gen.lonely(g2, case["seed"], case["alone"])
    if case.get("ints"):  # integer coordinates
        g2.xyz = np.rint(g2.xyz * 1000)
        mon.stat("coordinates", case["ints"])
    marks = gen.node_marks(g2, case["seed"], "sides", case["keep"])
    dom = case["domain"] or "fluid"
    if case.get("clash") and len(marks) > 0:  # marks which have already the names of planes
        names = [dom + "0", dom + "1", dom + "0(1)"]
        if case["clash"] == 2:
            names = names[1:]
        marks = {(names.pop(0) if names else k): v for k, v in marks.items()}
        mon.seen("clash")
    m2, ids2 = rig.to_mesh(g2, case["index"], case["seed"], marks)
    if case.get("ints"):
        m2.set_nodescoord_xyz(*g2.xyz.astype(case["ints"]).T)
    if case.get("short"):  # the shortest type for the nodes of the plane mesh
        dt = next(t for t in (("u1", "i2", "i4"), ("i2", "u2", "i4"), ("i4",))[case["seed"] % 3] if np.iinfo(t).max >= g2.nnode)
        con = _conn.elem_connectivity()
        for t, econ in m2._cell2node.items():
            con.add_elems(t, econ["elem2node"].astype(dt), econ["index"])
        m2.set_cell2node(con)
        mon.stat("type of nodes", dt)
    before = m2.nodescoord(ndarray=True).copy()
    types, trs = {}, {}
    for k, name in enumerate(marks):
        if (case["seed"] + k) % 3 == 0:
            m2.seekmark(name).type = TYPES[(case["seed"] // 3 + k) % len(TYPES)]
        types[name] = m2.seekmark(name).type
        if types[name] != "boundary":
            trs[name] = np.array([case["seed"] + k, 0.5, -k] + 13 * [0.0])
            m2.seekmark(name).properties["periodic_transform"] = trs[name].copy()
    kw = {}
    if case["zs"] is not None:
        kw["extrude"] = case["zs"]
    if case["dir"] is not None:
        kw["direction"] = case["dir"]
    if case["domain"] is not None:
        kw["domain"] = case["domain"]
    m3 = m2.export_extruded(**kw)
    zs = case["zs"] if case["zs"] is not None else [0.0, 1.0]
    d = np.array(case["dir"] if case["dir"] is not None else [0.0, 0.0, 1.0])
    nn, npl = g2.nnode, len(zs)
    # ---- nodes: plane by plane translation
    want = np.concatenate([g2.xyz + z * d for z in zs])
    mon.check("ex-count", m3.nnode == nn * npl and m3.ncell == g2.ncell * (npl - 1), f"{m3.nnode} nodes {m3.ncell} cells")
    mon.close("ex-nodes", m3.nodescoord(ndarray=True), want, 1e-12 * (1 + np.abs(want).max()), "extruded nodes")
    # ---- cells: as geometric sets
    expected = {}
    for t, nodes in g2.cells:
        for p in range(npl - 1):
            lo = tuple(n + p * nn for n in nodes)
            hi = tuple(n + (p + 1) * nn for n in nodes)
            expected[frozenset(lo + hi)] = ({"tri3": "prism6", "quad4": "hexa8"}[t], lo, hi)
    got = {}
    index = []
    for t, econ in m3._cell2node.items():
        tup = econ["elem2node"]
        idx = econ["index"].list()
        mon.check("ex-index", len(idx) == tup.shape[0], f"{t}: {len(idx)} indices for {tup.shape[0]} cells")
        for i, nodes in zip(idx, tup.tolist()):
            key = frozenset(nodes)
            mon.check("ex-cells", key in expected and key not in got, f"cell {t} {nodes} unexpected")
            et, lo, hi = expected[key]
            k = len(lo)
            mon.check("ex-celltype", t == et and len(nodes) == 2 * k, f"{t} instead of {et}")
            low, high = (nodes[:k], nodes[k:]) if set(nodes[:k]) == set(lo) else (nodes[k:], nodes[:k])
            good = rig.cyc(tuple(low)) == rig.cyc(lo) and [n + nn for n in low] == list(high)
            mon.check("ex-cells", good, f"cell {t} {nodes} badly ordered for {lo}/{hi}")
            got[key] = (t, tuple(nodes), int(i))
            index.append(int(i))
    mon.check("ex-cells", len(got) == len(expected), f"{len(got)} cells, expected {len(expected)}")
    mon.check("ex-index", sorted(index) == list(range(len(expected))), f"cell indices {sorted(index)[:12]}.. are not 0..ncell-1")
    # ---- marks
    ends = dom + "0", dom + "1"
    names = rig.marknames(m3)
    if set(ends) & set(marks):  # planes have their own marks, under other names
        new = [k for k in names if k not in marks]
        mon.check("ex-marknames", len(names) == len(marks) + 2 and len(new) == 2 and set(marks) < set(names), f"marks {names}")
        low = set(m3.seekmark(new[0]).index.list()) <= set(range(nn))
        ends = tuple(new) if low else (new[1], new[0])
    mon.check("ex-marknames", sorted(names) == sorted(list(marks) + list(ends)), f"marks {names}")
    for name, (fs, nodes) in marks.items():
        w = sorted(n + p * nn for n in nodes for p in range(npl))
        mon.check("ex-marks", sorted(m3.seekmark(name).index.list()) == w, f"mark {name}")
        mon.check("ex-marks", m3.seekmark(name).type == types[name], lambda: f"mark {name}: {m3.seekmark(name).type}, {types[name]} expected")
        if name in trs:
            tr = m3.seekmark(name).properties.get("periodic_transform")
            mon.check("ex-transform", tr is not None and np.array_equal(tr, trs[name]), lambda: f"mark {name}: transform {tr}")
            mon.check("source-untouched", np.array_equal(m2.seekmark(name).properties["periodic_transform"], trs[name]), f"2D mark {name}")
    used = sorted({n for _, c in g2.cells for n in c})
    mon.check("ex-marks", sorted(m3.seekmark(ends[0]).index.list()) == used, f"mark {ends[0]}")
    mon.check("ex-marks", sorted(m3.seekmark(ends[1]).index.list()) == [n + (npl - 1) * nn for n in used], f"mark {ends[1]}")
    # ---- the 2D mesh is untouched
    mon.equal("source-untouched", m2.nodescoord(ndarray=True), before, "2D coordinates")
    for name, (fs, nodes) in marks.items():
        mon.check("source-untouched", sorted(m2.seekmark(name).index.list()) == nodes, f"2D mark {name}")
    # ---- as a 3D mesh: faces, adjacency, closure, volumes, face marks
    order = sorted(got.values(), key=lambda v: v[2])
    g3 = gen.GMesh(3, want, [(t, nodes) for t, nodes, _ in order], {})
    ids = np.arange(g3.ncell)
    rising = np.tile(np.diff(zs) > 0, g2.ncell) if npl == 2 else np.array([zs[c[-1] // nn] > zs[c[0] // nn] for _, c in g3.cells])
    mon.check("ex-positive", np.array_equal(gen.cell_volumes(g3) > 0, rising), "extruded cell with negative volume")
    mon.stat("order", "rising" if rising.all() else "falling" if not rising.any() else "any")
    area2 = np.array([gen.face_area_vector(g2.xyz, n)[2] for _, n in g2.cells])
    tot = area2.sum() * d[2] * (zs[-1] - zs[0])
    mon.close("ex-volume", gen.cell_volumes(g3).sum(), tot, 1e-10 * (1 + abs(tot)), "total volume")
    mon.note(sorted((k[0], k[1], k[2]) for k in got.values()))
    w = (writerV2 if case["version"] == 2 else writerV3).writer(m3)
    faces = rig.mesh_faces(m3)
    rig.check_faces(mon, g3, ids, faces)
    rig.check_geometry(mon, want, faces, g3.ncell, gen.cell_volumes(g3), ids, float(np.abs(want).max() + np.ptp(want)))
    e3 = {}
    for name, (fs, _) in marks.items():
        e3[name] = {frozenset([a + p * nn for a in f] + [a + (p + 1) * nn for a in f]) for f in fs for p in range(npl - 1)}
    e3[ends[0]] = {frozenset(n) for _, n in g2.cells}
    e3[ends[1]] = {frozenset(a + (npl - 1) * nn for a in n) for _, n in g2.cells}
    for name, fs in e3.items():
        f = rig.mark_faces(m3, name)
        mon.check("mark-faces", len(f) == len(fs) and set(f) == fs, f"mark {name}: {len(f)} faces expected {len(fs)}")
    fn = mon.path("x.ic3")
    w.write_data(fn)
    r = reader_legacy.reader(fn, True)
    r.read_data()
    mm = r.export_mesh()
    mon.check("ic3-read", mm.ncell == g3.ncell and mm.nnode == g3.nnode, "IC3 sizes")
    rig.check_faces(mon, g3, ids, rig.mesh_faces(mm), what="IC3")
    for name, tr in trs.items():
        t = mm.seekmark(name).properties.get("periodic_transform")
        mon.check("ex-transform", t is not None and np.array_equal(np.asarray(t, float), tr), lambda: f"mark {name}: transform {t} in the IC3 file")
    for name, fs in e3.items():
        f = rig.mark_faces(mm, name)
        mon.check("mark-faces", len(f) == len(fs) and set(f) == fs, f"IC3 mark {name}: {len(f)} faces expected {len(fs)}")
    mon.stat("types", "+".join(g3.types()))
    mon.stat("planes", npl)

