"""C14 results do not depend on what was done before, nor on other meshes alive"""
import hashlib
import os
import pickle
import random

import h5py
import numpy as np
import pyvista as pv

import cfdtools._cli as cli
import cfdtools.data as _data
import cfdtools.meshbase._connectivity as _conn
import cfdtools.meshbase._mesh as _mesh
from cfdtools.cgns import cgns
from cfdtools.gmsh import reader as gmshreader
from cfdtools.ic3 import reader_legacy, readerV4, writerV2, writerV3, writerV4
from cfdtools.meshbase.simple import Cube
from cfdtools.utils.polybase import poly1d
from cfdtools.vtk import vtkMesh

from c12 import unambiguous
from vmon import cgnsio, gen, gmshio, ic3case, rig

ID = "C14"
RULE = (
    "random sequences of operations (reading each format, face extraction, extrusion, writing each format, command line "
    "conversion, spectra, plane averages) run in one process; each result compared with the same operation in a process "
    "which did nothing before; objects used in an interleaved way or twice; distinct by sequence and results"
)
REQUIRED = ["as-in-fresh-process", "export-twice", "interleaved", "write-twice"]


def fp(*objs):
    h = hashlib.sha1()
    for o in objs:
        if isinstance(o, np.ndarray):
            h.update(str(o.shape).encode() + o.dtype.kind.encode() + np.ascontiguousarray(o).tobytes())
        elif isinstance(o, bytes):
            h.update(o)
        elif isinstance(o, (list, tuple)):
            h.update(fp(*o).encode())
        elif isinstance(o, dict):
            h.update(fp(*[(k, o[k]) for k in sorted(o)]).encode())
        else:
            h.update(repr(o).encode())
    return h.hexdigest()


def mesh_fp(m):
    cells = [(t, [int(i) for i in e["index"].list()], np.asarray(e["elem2node"]).astype(np.int64)) for t, e in m._cell2node.items()] if m._cell2node else []
    faces = {k: rig.faces_of(f["face2node"], f["face2cell"]) for k, f in m._faces.items()}
    tr = lambda b: [float(x) for x in np.ravel(b.properties["periodic_transform"])] if b.properties.get("periodic_transform") is not None else None
    marks = {n: (b.geodim, b.properties.get("type"), sorted(b.properties), tr(b), sorted(int(i) for i in b.index.list())) for n, b in m._bocos.items()}
    data = [{n: np.asarray(a) for n, a in d.items()} if d else {} for d in (m._celldata, m._nodedata)]
    par = {k: float(v) for k, v in (m._params or {}).items() if isinstance(v, (int, float, np.integer, np.floating))}
    par["wgt"] = {k: float(v) for k, v in ((m._params or {}).get("wgt") or {}).items()}
    part = m._cellprop.get("partition") or {}
    par["part"] = [(k, np.asarray(part[k]).tolist()) for k in sorted(part)]
    return fp(np.asarray(m.nodescoord(ndarray=True)).astype(float), cells, faces, marks, data, par)


def h5_fp(path):
    out = []

    def visit(name, o):
        out.append((name, sorted((k, repr(v)) for k, v in o.attrs.items() if "version" not in k)))
        if isinstance(o, h5py.Dataset):
            out.append(np.asarray(o[()]))

    with h5py.File(path) as f:
        f.visititems(visit)
        out.append(sorted((k, repr(v)) for k, v in f.attrs.items()))
    return fp(out)


def extract(m):
    m.make_face_connectivity()
    m.bocomarks_set_node_to_face()
    return m


def op_gmsh(r, d):
    g = gen.make(small(r))
    p = os.path.join(d, "m.msh")
    gmshio.write(p, gmshio.plan(g, r.randrange(10**9)), r.choice(["2.2", "4.1"]))
    rd = gmshreader(p)
    rd.read_data()
    return mesh_fp(extract(rd.export_mesh()))


def op_cgns(r, d):
    g = gen.make(small(r))
    p = os.path.join(d, "m.cgns")
    cgnsio.write(p, g, r.randrange(10**9))
    rd = cgns.cgnsMesh(p)
    rd.read_data()
    return mesh_fp(extract(rd.export_mesh()))


def case_mesh(r, version=3):
    c = {"spec": small(r), "seed": r.randrange(10**6), "perio": 0.3, "part": r.random() < 0.5, "ndof": 1}
    return ic3case.make_mesh(c, data=True, version=version)[0]


def op_ic3(r, d):
    v = r.choice([2, 3])
    p = os.path.join(d, "m.ic3")
    ic3case.WRITER[v](case_mesh(r, v), r.choice(ic3case.ENDIANS)).write_data(p)
    m = ic3case.read(p)
    return fp(ic3case.filebytes(p), mesh_fp(m))


def op_v4(r, d):
    p = os.path.join(d, "m4.ic3")
    c = {"spec": small(r), "seed": r.randrange(10**6), "perio": 0.3, "part": r.random() < 0.5}
    writerV4.writer(ic3case.make_mesh(c)[0]).write_data(p)
    return h5_fp(p)


def op_faces(r, d):
    g = gen.make(small(r))
    m, _ = rig.to_mesh(g, r.choice(["range", "position", "split"]), r.randrange(10**6), gen.node_marks(g, r.randrange(10**6)))
    return mesh_fp(extract(m))


def op_quadratic(r, d):
    xyz, cells, _ = gen.hexa27([r.randint(1, 2) for _ in range(3)], r.randrange(10**6))
    con = _conn.elem_connectivity()
    con.add_elems("hexa27", cells)
    m = _mesh.Mesh(ncell=len(cells), nnode=len(xyz))
    m.set_nodescoord_nd(xyz)
    m.set_cell2node(con)
    m.make_face_connectivity()
    return mesh_fp(m)


def op_extrude(r, d):
    g = gen.make(gen.spec2(r, 3))
    m, _ = rig.to_mesh(g, "range", r.randrange(10**6), gen.node_marks(g, r.randrange(10**6)))
    m3 = m.export_extruded(extrude=np.linspace(0.0, 1.0, r.randint(2, 4))) if r.random() < 0.7 else m.export_extruded()
    return mesh_fp(extract(m3))


def op_cube(r, d):
    p = os.path.join(d, "c.ic3")
    m = Cube(r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)).export_mesh()
    r.choice([writerV2, writerV3]).writer(m).write_data(p)
    return fp(ic3case.filebytes(p))


def op_vtk(r, d):
    g = gen.make(small(r))
    m, _ = rig.to_mesh(g)
    p = os.path.join(d, "m.vtu")
    vtkMesh(m).write_data(p)
    v = pv.read(p)
    m2 = vtkMesh().read(p).export_mesh()
    return fp(np.asarray(v.points), np.asarray(v.cells), np.asarray(v.celltypes), mesh_fp(m2))


def op_cli(r, d):
    p = os.path.join(d, "k.msh")
    while True:
        g = gen.make(small(r))
        plan = gmshio.plan(g, r.randrange(10**9))
        if unambiguous(g, {x["name"]: [frozenset(f) for _, fs in x["entities"] for f in fs] for x in plan["groups"]}):
            break
    gmshio.write(p, plan, r.choice(["2.2", "4.1"]))
    o = os.path.join(d, "out")
    os.makedirs(o, exist_ok=True)
    f = r.choice([cli.cfdwrite_ic3v2, cli.cfdwrite_ic3v3])([p, "--outpath", o])
    return fp(ic3case.filebytes(f))


def op_spectrum(r, d):
    n = r.randint(20, 60)
    ds = _data.DataSet(Trep="timeevol")
    ds.add_data("time", np.arange(n) * 0.1)
    for k in ("p", "u"):
        ds.add_data(k, np.array([r.gauss(0, 1) for _ in range(n)]))
    s = ds.dataSet_spectrum()
    return fp({k: np.asarray(v) for k, v in s.items()})


def op_poly(r, d):
    b = poly1d(r.randint(2, 5), series=r.choice(["legendre", "polynomial"]))
    x = r.uniform(-1, 1)
    return fp(np.asarray(b.interp_weights(x)), np.asarray(b.diff_weights(x)))


def op_zavg(r, d):
    nx, nz = r.randint(1, 3), r.randint(4, 6)
    v = vtkMesh(Cube(nx, 2, nz).export_mesh())
    grid = v.pyvista_grid
    n = grid.n_cells
    for k in ("A", "B"):
        grid.cell_data[k] = np.array([r.gauss(0, 1) for _ in range(n)])
    kw = r.choice([{}, {"rms": True}, {"nmode": 2}, {"select": {"A": ["rms"]}}, {"select": {"A": "no_avg", "B": ["phase", {"nmode": 1}]}}])
    new = v.vtk_zconvolution(**kw).pyvista_grid
    return fp({k: np.asarray(new.cell_data[k]) for k in new.cell_data.keys()}, np.asarray(new.points))


def op_fail(r, d):
    """something which ends with an error"""
    p = os.path.join(d, "bad.ic3")
    m = case_mesh(r, 2)
    writerV2.writer(m).write_data(p)
    b = ic3case.filebytes(p)
    with open(p, "wb") as f:
        f.write(b[: r.randint(8, len(b) - 8)])
    try:
        ic3case.read(p)
    except Exception:
        return "failed"
    return "read"


def small(r):
    s = gen.spec2(r, 3) if r.random() < 0.4 else gen.spec3(r, 2)
    s["jitter"] = r.choice([0.05, 0.15])
    return s


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


def cases(tier, rng):
    n = 120 if tier == "quick" else 420
    out = []
    for i in range(n):
        k = rng.randint(4, 9)
        ops = [(rng.choice(sorted(OPS)), rng.randrange(10**9)) for _ in range(k)]
        out.append({"ops": ops, "kind": "sequence"})
    for i in range(n):
        out.append({"kind": rng.choice(["twice", "interleaved", "writers", "write-twice"]), "seed": rng.randrange(10**9)})
    return out


class plane:
    """plane mesh, whose exports are its extrusions"""

    def __init__(self, r):
        self.mesh = rig.to_mesh(gen.make(gen.spec2(r, 3)))[0]
        self.range = [0.0, 0.5, 1.0][: r.choice([2, 3])]
        for b in self.mesh._bocos.values():
            b.properties["periodic_transform"] = np.array([r.uniform(-1, 1) for _ in range(16)])

    def export_mesh(self):
        return self.mesh.export_extruded(extrude=self.range)


def modify(m, r):
    """changes of a mesh by its functions"""
    done = []
    for _ in range(r.randint(1, 4)):
        k = r.choice(["cell data", "node data", "params", "weights", "partition", "scale", "morph", "marks", "mark", "transform", "faces"])
        if k == "cell data":
            for n in list(m._celldata.keys()) if m._celldata else []:
                m.pop_celldata(n)
            if m._celldata is not None and hasattr(m._celldata, "add_data"):
                m._celldata.add_data("added", np.zeros(m.ncell))
        elif k == "node data":
            for n in list(m._nodedata.keys()) if m._nodedata else []:
                m.pop_nodedata(n)
        elif k == "params":
            m.update_params({"time": 99.5, "step": 7, "mine": 1.0})
        elif k == "weights" and m._params and "wgt" in m._params:
            m._params["wgt"]["more"] = 3.0
        elif k == "partition" and m._cellprop.get("partition"):
            m._cellprop["partition"]["npart"] = 77
        elif k == "transform" and m._bocos:
            t = m.seekmark(r.choice(list(m._bocos))).properties.get("periodic_transform")
            if isinstance(t, np.ndarray) and t.size:
                t[0] += 1.5
        elif k == "scale":
            m.scale([2.0, -1.0, 3.0])
        elif k == "morph":
            m.morph(lambda x, y, z: (y, x, z + x))
        elif k == "marks" and m._bocos:
            m.remove_boco(r.choice(list(m._bocos)))
        elif k == "mark" and m._bocos:
            b = m.seekmark(r.choice(list(m._bocos)))
            b.geodim, b.type = "node", "internal"
            b.index = _conn.indexlist(ilist=[0])
            b.properties["mine"] = 1
        elif k == "faces" and m._cell2node:
            extract(m)
        done.append(k)
    return done


def isolated(fn, d):
    """result of fn in a child forked now"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.makedirs(d, exist_ok=True)
            res = ("ok", fn(d))
        except BaseException as e:
            res = ("exc", f"{type(e).__name__}: {e}")
        try:
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps(res))
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(b)


def write_fp(m, v, p):
    ic3case.WRITER[v](m).write_data(p)
    return ic3case.filebytes(p)


def run(case, mon):
    if case["kind"] == "sequence":
        fresh = [isolated(lambda d, o=o, s=s: OPS[o](random.Random(s), d), mon.path(f"f{i}")) for i, (o, s) in enumerate(case["ops"])]
        for i, ((o, s), want) in enumerate(zip(case["ops"], fresh)):
            mon.check("no-exception", want[0] == "ok", lambda: f"{o} {want[1]}")
            d = mon.path(f"s{i}")
            os.makedirs(d)
            got = OPS[o](random.Random(s), d)
            mon.check("as-in-fresh-process", got == want[1], lambda: f"operation {i} ({o}) after {[x for x, _ in case['ops'][:i]]} differs from a fresh process")
            mon.stat("operation", o)
            mon.note(o, got)
        return
    r = random.Random(case["seed"])
    mon.stat("kind", case["kind"])
    if case["kind"] == "twice":
        g = gen.make(small(r))
        fmt = r.choice(["gmsh", "cgns", "ic3", "ic3", "v4", "vtk", "extruded"])
        if fmt == "gmsh":
            p = mon.path("m.msh")
            gmshio.write(p, gmshio.plan(g, r.randrange(10**9)), r.choice(["2.2", "4.1"]))
            rd = gmshreader(p)
        elif fmt == "cgns":
            p = mon.path("m.cgns")
            cgnsio.write(p, g, r.randrange(10**9))
            rd = cgns.cgnsMesh(p)
        elif fmt == "ic3":
            p = mon.path("m.ic3")
            writerV3.writer(case_mesh(r)).write_data(p)
            rd = reader_legacy.reader(p)
        elif fmt == "v4":
            p, s = mon.path("m.h5"), mon.path("s.h5")
            writerV4.writer(case_mesh(r)).write_data(p, s)
            with h5py.File(s) as h:
                rd = readerV4.reader(p, s if "rho" in h else None)
        elif fmt == "extruded":
            rd = plane(r)
        else:
            p = mon.path("m.vtu")
            vtkMesh(rig.to_mesh(g)[0]).write_data(p)
            rd = vtkMesh().read(p)
        if fmt not in ("vtk", "extruded"):
            rd.read_data()
        f0 = mesh_fp(rd.mesh) if fmt == "extruded" else None
        m1 = rd.export_mesh()
        f1 = mesh_fp(m1)
        m2 = rd.export_mesh()
        mon.check("export-twice", mesh_fp(m2) == f1, f"{fmt}: second export differs")
        mon.check("export-twice", mesh_fp(m1) == f1, f"{fmt}: first export changed by the second")
        # what is done on one of them is not seen by the other ones
        done = modify(m1, r)
        mon.check("export-twice", mesh_fp(m2) == f1, f"{fmt}: an export changed when another one is modified ({done})")
        m1 = rd.export_mesh()
        mon.check("export-twice", mesh_fp(m1) == f1, f"{fmt}: another export after the modification of the first one ({done})")
        if fmt == "extruded":
            mon.check("export-twice", mesh_fp(rd.mesh) == f0, f"plane mesh changed with the extruded one ({done})")
        else:
            rd.read(p) if fmt == "vtk" else rd.read_data()
        mon.check("export-twice", mesh_fp(rd.export_mesh()) == f1, f"{fmt}: the same reader, used again, gives something else")
        mon.check("export-twice", mesh_fp(m1) == f1, f"{fmt}: first export changed by another reading")
        mon.note(fmt, f1)
    elif case["kind"] == "interleaved":
        # two readers of each kind alive together
        a, b = r.randrange(10**9), r.randrange(10**9)
        fmt = r.choice(["gmsh", "cgns", "ic3"])
        paths, res, readers = [], [], []
        for i, s in enumerate((a, b)):
            rr = random.Random(s)
            g = gen.make(small(rr))
            p = mon.path(f"i{i}.{fmt}")
            if fmt == "gmsh":
                gmshio.write(p, gmshio.plan(g, s), rr.choice(["2.2", "4.1"]))
            elif fmt == "cgns":
                cgnsio.write(p, g, s)
            else:
                writerV3.writer(case_mesh(rr)).write_data(p)
            paths.append(p)
        make = {"gmsh": gmshreader, "cgns": cgns.cgnsMesh, "ic3": reader_legacy.reader}[fmt]

        def one(p):
            x = make(p)
            x.read_data()
            return mesh_fp(x.export_mesh())

        res = [one(p) for p in paths]
        readers = [make(p) for p in paths]
        for x in readers:
            x.read_data()
        meshes = [x.export_mesh() for x in readers]
        mon.check("interleaved", [mesh_fp(m) for m in meshes] == res, f"{fmt}: two readers alive: results differ")
        order = [1, 0] if r.random() < 0.5 else [0, 1]
        readers = [make(p) for p in paths]
        for i in order:
            readers[i].read_data()
        got = [None, None]
        for i in reversed(order):
            got[i] = mesh_fp(readers[i].export_mesh())
        mon.check("interleaved", got == res, f"{fmt}: two readers interleaved: results differ")
        mon.note(fmt, res)
    elif case["kind"] == "writers":
        a, b = r.randrange(10**9), r.randrange(10**9)
        va, vb = r.choice([2, 3]), r.choice([2, 3])
        alone = [isolated(lambda d, s=s, v=v: write_fp(case_mesh(random.Random(s), v), v, os.path.join(d, "a")), mon.path(f"w{s}")) for s, v in ((a, va), (b, vb))]
        ma, mb = case_mesh(random.Random(a), va), case_mesh(random.Random(b), vb)
        wa, wb = ic3case.WRITER[va](ma), ic3case.WRITER[vb](mb)
        wb.write_data(mon.path("b"))
        wa.write_data(mon.path("a"))
        mon.check("interleaved", ("ok", ic3case.filebytes(mon.path("a"))) == alone[0], "first of two writers alive together")
        mon.check("interleaved", ("ok", ic3case.filebytes(mon.path("b"))) == alone[1], "second of two writers alive together")
        mon.note(ic3case.filebytes(mon.path("a")))
    else:
        v = r.choice([2, 3])
        m = case_mesh(r, 2)
        first = write_fp(m, v, mon.path("1"))
        u = r.choice([2, 3])
        other = write_fp(m, u, mon.path("2"))
        again = write_fp(m, v, mon.path("3"))
        mon.check("write-twice", first == again, f"v{v} then v{u} then v{v}: the same mesh gives another file")
        w = ic3case.WRITER[v](m)
        w.write_data(mon.path("4"))
        w.write_data(mon.path("5"))
        mon.check("write-twice", ic3case.filebytes(mon.path("4")) == ic3case.filebytes(mon.path("5")) == first, "the same writer used twice")
        mon.note(first, other)
