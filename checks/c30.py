"""C30 meshes, marks and data sets hold what was put in them, by name, and refuse what does not fit"""
import logging
import random
import re

import numpy as np

import cfdtools.data as _data
import cfdtools.meshbase._connectivity as _conn
import cfdtools.meshbase._mesh as _mesh

from vmon import gen, rig

ID = "C30"
RULE = (
    "random histories of additions, replacements, removals, readings and refused requests on several data sets, meshes and marks "
    "alive together, each applied to a model made of plain dictionaries; distinct by history"
)
REQUIRED = ["values", "names", "refused", "missing", "statistics", "drawing", "nodes", "marks", "sizes", "info", "geometry", "given-unchanged"]

XREP = ("nodal", "cellaverage", "spectralcell")
TREP = ("instant", "timeevol", "spectrum", "spectrogram")
KINDS = ("node", "intnode", "bdnode", "face", "intface", "bdface", "cell")
TYPES = ("internal", "boundary", "perio_cart", "perio_cylx", "perio_cyly", "perio_cylz")


def cases(tier, rng):
    n = 600 if tier == "quick" else 6000
    return [
        {
            "kind": ["data", "mesh", "data", "marks"][i % 4],
            "seed": rng.randrange(10**9),
            "n": rng.randint(10, 60),
            "spec": gen.spec2(rng, 4) if i % 8 < 4 else gen.spec3(rng, 3),
            "index": rng.choice(["range", "position", "split"]),
        }
        for i in range(n)
    ]


class Axes:
    """records the requests of drawing"""

    def __init__(self):
        self.calls = []

    def plot(self, *a, **k):
        self.calls.append(("plot", a, k))

    def contourf(self, *a, **k):
        self.calls.append(("contourf", a, k))


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


def messages(fn):
    lg, h = logging.getLogger("cfdtools"), Collect()
    level, off = lg.level, logging.root.manager.disable
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    logging.disable(logging.NOTSET)
    try:
        fn()
    finally:
        lg.removeHandler(h)
        lg.setLevel(level)
        logging.disable(off)
    return h.text


def refused(mon, name, fn):
    try:
        fn()
    except Exception:
        mon.seen(name)
    else:
        mon.check(name, False, "accepted")


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)
    return a is b or (not isinstance(a, np.ndarray) and a == b)


def samedict(a, b):
    a = list(a)
    return len(a) == len(b) and all(k == l and same(v, w) for (k, v), (l, w) in zip(a, b.items()))


def array(r, n=None):
    n = r.randint(1, 9) if n is None else n
    shape = r.choice([(n,), (n,), (n, 3), (n, 3, 3)])
    a = np.random.default_rng(r.randrange(10**9)).normal(size=shape)
    return a.astype(r.choice(["f8", "f8", "f4", "i4"]))


class DataModel:
    def __init__(self, x, t, ndof):
        self.x, self.t, self.ndof, self.d, self.geo = x, t, ndof, {}, {}


def datasets(case, mon, r):
    sets, given = [], []
    for _ in range(r.randint(1, 3)):
        x, t = r.choice(XREP), r.choice(TREP + ("timeevol",))
        ndof = r.choice([1, 4, 8]) if x == "spectralcell" else 1
        form = r.randrange(3)
        ds = _data.DataSet(x, ndof, t) if form == 0 else _data.DataSet(Xrep=x, ndof=ndof, Trep=t)
        if form == 2 and ndof == 1:
            x, t, ds = "cellaverage", "instant", _data.DataSet()
        sets.append((ds, DataModel(x, t, ndof)))
    names = ["p", "U", "time", "rho E", "p_AVG", "P"]
    for step in range(case["n"]):
        ds, m = r.choice(sets)
        op = r.choice(["add", "add", "add", "replace", "pop", "pop", "set", "rep", "badrep", "geo", "stat", "draw", "missing", "new"])
        mon.note(op)
        mon.stat("step", op)
        if op == "add" or (op == "replace" and not m.d):
            k, a = r.choice(names), array(r)
            if r.random() < 0.2:
                ds.add_data(k, a, time=r.uniform(0, 1))
            else:
                ds.add_data(k, a)
            m.d[k] = a
        elif op == "replace":
            k, a = r.choice(list(m.d)), array(r)
            ds.add_data(k, a)
            m.d[k] = a
        elif op == "pop":
            k = r.choice(names)
            form = r.randrange(3)
            default = None if form == 0 else r.choice([0, "none", None])
            got = ds.pop(k) if form == 0 else ds.pop(k, default) if form == 1 else ds.pop(k, default=default)
            mon.check("values", same(got, m.d.pop(k, default)), f"pop of {k}")
        elif op == "set" and r.random() < 0.3:
            new = {k: array(r) for k in r.sample(names, 2)}
            ds.data = new
            m.d = dict(new)
            given.append((new, dict(new)))
        elif op == "rep":
            if r.random() < 0.5:
                t = r.choice(TREP)
                ds.Trep = t
                m.t = t
            elif m.ndof == 1:
                x = r.choice(XREP)
                ds.Xrep = x
                m.x = x
            if m.x == "spectralcell":
                n = r.choice([1, 8, 27])
                ds.ndof = n
                m.ndof = n
        elif op == "badrep":
            w = r.randrange(4)
            if w == 0:
                refused(mon, "refused", lambda: setattr(ds, "Xrep", r.choice(["face", "", "Nodal", None])))
            elif w == 1:
                refused(mon, "refused", lambda: setattr(ds, "Trep", r.choice(["pod", "time", "Instant", None])))
            elif w == 2 and m.x != "spectralcell":
                refused(mon, "refused", lambda: setattr(ds, "ndof", r.choice([0, 2, 8])))
            else:
                bad = r.choice([dict(Xrep="face"), dict(Trep="pod"), dict(ndof=2), dict(Xrep="nodal", ndof=8), dict(Trep="")])
                refused(mon, "refused", lambda: _data.DataSet(**bad))
                refused(mon, "refused", lambda: _data.DataSetBase(**r.choice([dict(Xrep="spectralcell"), dict(Trep="timeevol"), dict(ndof=3)])))
        elif op == "geo":
            x, y, z = (array(r, 3) for _ in range(3))
            w = r.randrange(5)
            if w == 0:
                ds.set_nodes(x)
                m.geo["x"] = x
            elif w == 1:
                ds.set_nodes(x, y)
                m.geo.update(x=x, y=y)
            elif w == 2:
                ds.set_nodes(x, y, z)
                m.geo.update(x=x, y=y, z=z)
            elif w == 3:
                ds.set_nodes(x, z=z)
                m.geo.update(x=x, z=z)
            else:
                mesh = object()
                ds.set_mesh(mesh)
                m.geo["mesh"] = mesh
        elif op == "stat":
            t = m.d.get("time")
            if m.t != "timeevol" or t is None:
                refused(mon, "refused", lambda: ds.dtstats())
            else:
                n = r.randint(4, 30)
                t = np.cumsum([r.uniform(0.1, 1.0) for _ in range(n)])
                ds.add_data("time", t)
                m.d["time"] = t
                i, j = r.choice([(None, None), (1, None), (None, n - 1), (1, n - 1), (None, -1), (0, 3)])
                got = ds.dtstats() if i is None and j is None else ds.dtstats(i, j) if r.random() < 0.5 else ds.dtstats(imin=i, imax=j)
                s = [float(v) for v in t][i:j]
                dt = [b - a for a, b in zip(s, s[1:])]
                mean = sum(dt) / len(dt)
                dev = (sum((d - mean) ** 2 for d in dt) / len(dt)) ** 0.5
                mon.check("statistics", abs(got[0] - mean) < 1e-12 and abs(got[1] - dev) < 1e-12 and got[2] == len(s), lambda: f"{got} expected {mean, dev, len(s)}")
        elif op == "draw" and m.d:
            ax = Axes()
            kx, ky, kv = (r.choice(list(m.d)) for _ in range(3))
            kw = r.choice([{}, {"levels": 4}, {"color": "k", "lw": 2}])
            if r.random() < 0.5:
                ds.plot(kx, ky, axes=ax, **kw) if r.random() < 0.5 else ds.plot(kx, ky, ax, **kw)
                good = ax.calls == [("plot", ax.calls[0][1], kw)] and same(ax.calls[0][1][0], m.d[kx]) and same(ax.calls[0][1][1], m.d[ky])
            else:
                ds.contourf(kx, ky, kv, axes=ax, **kw)
                a = ax.calls[0][1]
                good = len(ax.calls) == 1 and ax.calls[0][2] == kw and same(a[0], m.d[kx]) and same(a[1], m.d[ky]) and np.array_equal(a[2], m.d[kv].T)
            mon.check("drawing", good, lambda: f"{ax.calls}")
        elif op == "missing":
            k = r.choice(names + ["never"])
            if k not in m.d:
                try:
                    ds[k]
                except KeyError:
                    mon.seen("missing")
                else:
                    mon.check("missing", False, f"{k} found")
        elif op == "new" and r.random() < 0.3:
            new = _data.DataSet()
            mon.check("names", list(new.keys()) == [] and new.geoprop == {}, "a new data set is not empty")
            sets[r.randrange(len(sets))] = (new, DataModel("cellaverage", "instant", 1))
        mon.check("given-unchanged", all(samedict(x.items(), y) for x, y in given), "data which was given is changed")
        for ds, m in sets:
            mon.check("names", list(ds.keys()) == list(m.d), lambda: f"{list(ds.keys())} expected {list(m.d)}")
            mon.check("values", all(same(ds[k], a) for k, a in m.d.items()), "array of a name")
            mon.check("values", samedict(ds.items(), m.d), "items")
            mon.check("values", samedict(ds.data.items(), m.d), "data")
            mon.check("sizes", (ds.Xrep, ds.Trep, ds.ndof) == (m.x, m.t, m.ndof), lambda: f"{ds.Xrep, ds.Trep, ds.ndof} expected {m.x, m.t, m.ndof}")
            g = ds.geoprop
            mon.check("geometry", sorted(g) == sorted(m.geo) and all(same(g[k], v) for k, v in m.geo.items()), lambda: f"{sorted(g)} expected {sorted(m.geo)}")


def lines(mesh):
    return messages(mesh.printinfo)


def check_info(mon, mesh, g, marks, nface):
    text = lines(mesh)

    def line(start):
        return [x for x in text if x.strip().startswith(start)]

    mon.check("info", [int(x.split(":")[1]) for x in line("nnode:")] == [g.nnode], f"{text}")
    mon.check("info", [int(x.split(":")[1]) for x in line("ncell:")] == [g.ncell], f"{text}")
    mon.check("info", [int(x.split(":")[1]) for x in line("nface:")] == [nface], f"{text}")
    for k, c in enumerate("xyz"):
        v = [re.findall(r"-?[0-9.]+(?:e[+-]?\d+)?", x.split("=")[1]) for x in line(f"{c} min")]
        want = [f"{f(g.xyz[:, k]):.3f}" for f in (np.min, np.average, np.max)]
        mon.check("info", len(v) == 1 and all(abs(float(a) - float(b)) < 1.1e-3 for a, b in zip(v[0], want)) and len(v[0]) == 3, f"{v} expected {want}")
    for t, (pos, c) in g.by_type().items():
        mon.check("info", any(str(c.shape) in x and t in x for x in text) if len(pos) else True, f"{t} {c.shape}: {text}")
    bc = line("bocos:")
    mon.check("info", len(bc) == 1 and bc[0].split(":", 1)[1].split() == " ".join(marks).split(), f"{bc} expected {marks}")


def meshes(case, mon, r):
    g = gen.make(case["spec"])
    m, ids = rig.to_mesh(g, case["index"], case["seed"])
    marks, params, parts, given = {}, {}, {}, []
    cell = node = None
    faces = False
    xyz = np.array(g.xyz)
    nref = len(g.facemap())
    for step in range(case["n"]):
        op = r.choice(["nodes", "nodes", "badnodes", "badnodes", "mark", "mark", "unmark", "params", "cell", "node", "pop", "faces", "badfaces", "info", "partition"])
        mon.note(op)
        mon.stat("step", op)
        if op == "nodes":
            xyz = np.random.default_rng(r.randrange(10**9)).normal(size=xyz.shape) * 10.0 ** r.randint(-2, 3)
            w = r.randrange(3)
            if w == 0:
                m.set_nodescoord_nd(xyz)
            elif w == 1:
                m.set_nodescoord_xyz(xyz[:, 0], xyz[:, 1], xyz[:, 2])
            else:
                m.set_nodescoord_xyz(*(xyz[:, i].tolist() for i in range(3)))
        elif op == "badnodes":
            n = g.nnode + r.choice([-1, 1, 3])
            if r.random() < 0.3:
                shape = (g.nnode, *r.choice([(2,), (1,), (4,), ()]))
                refused(mon, "refused", lambda: m.set_nodescoord_nd(np.zeros(shape)))
            elif r.random() < 0.5:
                refused(mon, "refused", lambda: m.set_nodescoord_nd(np.zeros((n, 3))))
            else:
                k = r.randrange(3)
                a = [np.zeros(g.nnode) for _ in range(3)]
                a[k] = np.zeros(n)
                if r.random() < 0.5:  # another one makes up for it
                    a[(k + 1) % 3] = np.zeros(2 * g.nnode - n)
                refused(mon, "refused", lambda: m.set_nodescoord_xyz(*a))
        elif op == "mark":
            b = _mesh.submeshmark(r.choice(["wall", "in let", "out", "Wall"]))
            b.geodim, b.type = "bdnode", r.choice(TYPES)
            idx = r.sample(range(g.nnode), r.randint(1, g.nnode))
            b.index = _conn.indexlist(ilist=list(idx))
            m.add_boco(b)
            marks[b.name] = (b, idx)
        elif op == "unmark":
            n = r.choice(["wall", "in let", "out", "none"])
            if n in marks:
                m.remove_boco(n)
                del marks[n]
            else:
                refused(mon, "missing", lambda: m.remove_boco(n))
                refused(mon, "missing", lambda: m.seekmark(n))
        elif op == "params":
            new = {k: r.random() for k in r.sample(["dt", "time", "step", "x_wgt"], 2)}
            if r.random() < 0.4:
                m.set_params(new)
                params = dict(new)
            else:
                m.update_params(new)
                params.update(new)
            given.append((new, dict(new)))
        elif op in ("cell", "node"):
            ds = _data.DataSet("cellaverage" if op == "cell" else "nodal")
            for k in r.sample(["p", "U", "T"], r.randint(0, 3)):
                ds.add_data(k, array(r, g.ncell if op == "cell" else g.nnode))
            (m.set_celldata if op == "cell" else m.set_nodedata)(ds)
            if op == "cell":
                cell = dict(ds.items())
            else:
                node = dict(ds.items())
        elif op == "pop":
            k = r.choice(["p", "U", "T"])
            if r.random() < 0.5:
                got = m.pop_celldata(k)
                mon.check("values", same(got, (cell or {}).pop(k, None)), f"cell data {k}")
            else:
                got = m.pop_nodedata(k)
                mon.check("values", same(got, (node or {}).pop(k, None)), f"node data {k}")
        elif op == "faces":
            if r.random() < 0.4 and faces:
                for t in ("boundary", "internal", "mixed", "never"):
                    m.pop_faces(t)
                faces = False
                mon.check("sizes", not m._faces, "faces left")
            else:
                m.make_face_connectivity()
                faces = True
                if r.random() < 0.3:  # part of the faces are removed
                    t = r.choice(["boundary", "internal"])
                    other = {"boundary": "internal", "internal": "boundary"}[t]
                    left = m._faces[other]["face2node"].nelem
                    m.pop_faces(t)
                    mon.check("sizes", list(m._faces) == [other] and m.nface == left, lambda: f"{m.nface} faces after {t} ones are removed, {left} expected")
                    m.make_face_connectivity()
        elif op == "badfaces":
            before = list(m._faces)
            refused(mon, "refused", lambda: m.add_faces(r.choice(["bad", "", "Mixed", "boundaries"]), _conn.elem_connectivity()))
            mon.check("sizes", list(m._faces) == before, "faces after a refused addition")
        elif op == "info":
            gg = gen.GMesh(g.dim, xyz, g.cells, {})
            check_info(mon, m, gg, list(marks), nref if faces else 0)
        elif op == "partition":
            parts = {"npart": 2, "icvpart": np.arange(g.ncell) % 2}
            m.set_partition(parts)
        # ---- the mesh holds what it was given
        mon.check("sizes", (m.nnode, m.ncell, int(m.nface)) == (g.nnode, g.ncell, nref if faces else 0), lambda: f"{m.nnode, m.ncell, m.nface}")
        mon.equal("nodes", m.nodescoord(ndarray=True), xyz, "coordinates")
        c = m.nodescoord()
        mon.check("nodes", len(c) == 3, "components")
        for k in range(3):
            mon.equal("nodes", c[k], xyz[:, k], f"component {k}")
        mon.check("marks", list(m._bocos) == list(marks), lambda: f"{list(m._bocos)} expected {list(marks)}")
        for n, (b, idx) in marks.items():
            mon.check("marks", m.seekmark(n) is b and list(b.index.list()) == idx, f"mark {n}")
        mon.check("marks", list(m.list_boco_index()) == [i for _, idx in marks.values() for i in idx], "indices of all marks")
        mon.check("given-unchanged", all(samedict(x.items(), y) for x, y in given), "parameters which were given are changed")
        mon.check("values", {k: v for k, v in m._params.items()} == params, lambda: f"{m._params} expected {params}")
        for got, want in ((m._celldata, cell), (m._nodedata, node)):
            if want is not None:
                mon.check("values", samedict(got.items(), want), "data of the mesh")
        cells = sorted((int(i), t, tuple(int(n) for n in row)) for t, e in m._cell2node.items() for i, row in zip(e["index"].list(), e["elem2node"]))
        mon.check("sizes", cells == sorted((int(ids[k]), t, tuple(int(n) for n in nodes)) for k, (t, nodes) in enumerate(g.cells)), "cells")
    con, _ = rig.cellconn(g)
    wrong = r.choice([[1, 2], {"hexa8": np.zeros((g.ncell, 8))}, "cells"])
    refused(mon, "refused", lambda: _mesh.Mesh(ncell=1, nnode=g.nnode).set_cell2node(wrong))
    new = _mesh.Mesh(ncell=g.ncell + r.choice([0, 3]), nnode=g.nnode)
    mon.check("sizes", not new._bocos and not new._params and not new._faces and int(new.nface) == 0, "a new mesh is not empty")
    new.set_cell2node(con)
    mon.check("sizes", new.ncell == g.ncell, "number of cells")


def marks(case, mon, r):
    model, given = [], []
    for step in range(case["n"]):
        op = r.choice(["new", "geodim", "geodim", "type", "type", "index", "index", "bad", "bad", "prop", "text"])
        mon.note(op)
        mon.stat("step", op)
        if op == "new" or not model:
            name = r.choice(["a", "in let", "wall_1"])
            b = _mesh.submeshmark(name)
            mon.check("marks", not b.properties and not b.nodebased() and not b.facebased(), "a new mark is not empty")
            model.append((b, {"name": name, "geodim": None, "index": None, "prop": {}}))
        k = r.randrange(len(model))
        b, m = model[k]
        if op == "geodim":
            m["geodim"] = b.geodim = r.choice(KINDS)
        elif op == "type":
            m["prop"]["type"] = b.type = r.choice(TYPES)
        elif op == "index":
            idx = _conn.indexlist(ilist=r.sample(range(50), r.randint(1, 9)))
            if m["geodim"] is None:
                refused(mon, "refused", lambda: setattr(b, "index", idx))
            else:
                b.index = idx
                m["index"] = idx
        elif op == "bad":
            if r.random() < 0.5:
                refused(mon, "refused", lambda: setattr(b, "geodim", r.choice(["edge", "", "Node", "boundary", None])))
            else:
                refused(mon, "refused", lambda: setattr(b, "type", r.choice(["wall", "", "perio", "Boundary", None])))
        elif op == "prop":
            if r.random() < 0.5:
                v = [r.random() for _ in range(3)]
                b.properties["periodic_transform"] = v
                m["prop"]["periodic_transform"] = v
            else:
                p = {"type": r.choice(TYPES), "periodic_transform": None}
                b.properties = p
                m["prop"] = dict(p)
                given.append((p, dict(p)))
        elif op == "text" and m["index"] is not None:
            t = str(b)
            mon.check("info", m["name"] in t and m["geodim"] in t and str(m["index"]) in t, t)
        mon.check("given-unchanged", all(x == y for x, y in given), "properties which were given are changed")
        for b, m in model:
            mon.check("marks", (b.name, b.geodim) == (m["name"], m["geodim"]), lambda: f"{b.name, b.geodim} expected {m}")
            mon.check("marks", b.properties == m["prop"], lambda: f"{b.properties} expected {m['prop']}")
            if "type" in m["prop"]:
                mon.check("marks", b.type == m["prop"]["type"], b.type)
            if m["index"] is not None:
                mon.check("marks", b.index.list() == m["index"].list(), "index")
            mon.check("marks", (b.nodebased(), b.facebased()) == ("node" in (m["geodim"] or ""), "face" in (m["geodim"] or "")), lambda: f"{m}")


def run(case, mon):
    r = random.Random(case["seed"])
    mon.stat("kind", case["kind"])
    {"data": datasets, "mesh": meshes, "marks": marks}[case["kind"]](case, mon, r)
