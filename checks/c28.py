"""C28 data lists: what is dumped to HDF5 with a mesh is what was added, instant by instant; refused dumps change nothing"""
import os
import random

import h5py
import numpy as np

import cfdtools.data as _data
import cfdtools.hdf5 as hdf5
import cfdtools.vtk as vtk
from c15 import grid_cells
from vmon import clicase, gen, rig

ID = "C28"
RULE = (
    "random histories of lists of data sets (several lists alive, fields and instants added in any way, dictionaries of the caller reused and "
    "changed afterwards) dumped one or several times with random meshes, options, names and existing files, read by h5py; "
    "wrong meshes and files which cannot be written; distinct by content of files"
)
REQUIRED = ["mesh", "order", "instants", "values", "times", "place", "others", "header", "refused", "caller", "import", "twice", "rep"]


def cases(tier, rng):
    n = 300 if tier == "quick" else 3000
    out = []
    for i in range(n):
        spec = gen.spec2(rng, 5) if i % 4 == 0 else gen.spec3(rng, 3)
        out.append({"seed": rng.randrange(10**9), "spec": spec, "index": rng.choice(["range", "range", "split", "position"]), "nlist": rng.choice([1, 1, 2])})
    for i, k in enumerate([130, 300, 1050]):  # names of data sets are numbered
        out[i] = dict(out[i], spec=dict(out[i]["spec"], n=[1, 1, 1]), nlist=1, long=k)
    return out


def values(r, n):
    rng = np.random.default_rng(r.randrange(10**9))
    shape = r.choice([(n,), (n,), (n, 3), (n, 2), (n, 3, 3)])
    a = rng.normal(size=shape) * 10.0 ** r.randint(-3, 3)
    k = r.choice(["f8", "f8", "f4", "i4", "i8"])
    if k[0] == "i":
        a = (a * 100).astype(k)
    a = a.astype(k)
    if r.random() < 0.2:
        a = np.asfortranarray(a)
    if r.random() < 0.2:
        a = np.repeat(a, 2, axis=0)[::2]
    return a


def read(path):
    with h5py.File(path, "r") as f:
        attrs = dict(f.attrs)
        g = f["mesh"]
        mesh = (g.attrs["meshtype"], g["nodes"][()], [(k, v[()]) for k, v in g["cells"].items()])
        inst = {}
        for k, v in f["datalist"].items():
            inst[k] = (dict(v.attrs), {n: d[()] for n, d in v.items()})
        return attrs, mesh, inst, sorted(f)


def compare(mon, path, model, types, m, ids, g, ordered):
    attrs, mesh, inst, top = read(path)
    mon.check("header", attrs.get("cfd_datatype") == "datalist" and attrs.get("data_version") == 1 and "cfdtools_version" in attrs, f"{attrs}")
    mon.check("header", top == ["datalist", "mesh"], f"{top}")
    mon.check("mesh", mesh[0] == "unsmesh", mesh[0])
    mon.equal("mesh", mesh[1], g.xyz, "nodes")
    mon.check("mesh", [k for k, _ in mesh[2]] == types, lambda: f"types {[k for k, _ in mesh[2]]} expected {types}")
    got = {k: sorted(map(tuple, v.tolist())) for k, v in mesh[2]}
    want = {k: sorted(map(tuple, v.tolist())) for k, (_, v) in g.by_type().items()}
    mon.check("mesh", got == want, "cells")
    if ordered:
        cells = [(k, tuple(c)) for k, v in mesh[2] for c in v.tolist()]
        byid = {int(ids[p]): g.cells[p] for p in range(g.ncell)}
        mon.check("order", cells == [(byid[i][0], tuple(int(n) for n in byid[i][1])) for i in range(g.ncell)], "order of cells")
    names = [f"i{i:06}" for i in range(len(model))]
    mon.check("instants", sorted(inst) == names, lambda: f"{sorted(inst)} expected {len(names)} instants")
    for name, (fields, time) in zip(names, model):
        a, d = inst[name]
        mon.check("values", sorted(d) == sorted(fields), lambda: f"{name}: {sorted(d)} expected {sorted(fields)}")
        for k, v in fields.items():
            mon.check("values", d[k].shape == v.shape and d[k].dtype == v.dtype, lambda: f"{name}/{k}: {d[k].shape} {d[k].dtype}")
            mon.equal("values", d[k], v, f"{name}/{k}")
        mon.check("times", sorted(a) == ([] if time is None else ["time"]), lambda: f"{name}: {sorted(a)}")
        if time is not None:
            mon.check("times", np.array_equal(np.asarray(a["time"]), np.asarray(time)), f"{name}: {a['time']} expected {time}")
    mon.note(mesh[1], sorted(inst), *[v for k in names for v in inst[k][1].values()])


def history(mon, r, n, nlist, long=None):
    """lists and their models"""
    out = []
    for _ in range(nlist):
        ninst = long or r.choice([0, 1, 1, 2, 3, 6, 11])
        trep = r.choice(["instant", "timeevol", "pod"])
        xrep = r.choice(["cellaverage", "nodal"])
        lst = _data.DataSetList(ninst, Xrep=xrep, Trep=trep) if r.random() < 0.7 else _data.DataSetList(ninst, xrep, 1, trep)
        mon.check("rep", lst.Xrep == xrep and lst.Trep == trep and lst.ndof == 1, "representation")
        out.append((lst, [], ninst, ["U", "P", "my field", "Q_rms", "a&b", "rho-E", "timescale", "time_avg", "TIME", "runtime"]))
    if r.random() < 0.3:
        for bad in (dict(Xrep="face"), dict(Trep="never"), dict(Xrep="cellaverage", ndof=4)):
            try:
                _data.DataSetList(1, **bad)
            except Exception:
                mon.seen("rep")
            else:
                mon.check("rep", False, f"{bad} accepted")
    todo = [k for k, x in enumerate(out) for _ in range(x[2])]
    r.shuffle(todo)
    shared = {}
    for k in todo:
        lst, model, _, names = out[k]
        fields = {f: values(r, n) for f in r.sample(names, r.randint(1, 4))}
        how = r.choice(["none", "none", "arg", "arg", "key", "array", "both"])
        time = None if how == "none" else r.choice([0.0, r.uniform(0, 10), -1.5, 3, 1e-9])
        if how == "array":
            time = np.array([time], dtype=float)
        if r.random() < 0.4 and how not in ("key", "both"):  # dictionary of the caller used again
            shared.clear()
            given = shared
        else:
            given = {}
        given.update(fields)
        if how == "key":
            given["time"] = time
        elif how == "both":  # the time which is an argument is the one of the instant
            given["time"] = time + 1
        keys = sorted(given)
        if how in ("arg", "array", "both"):
            lst.add_datalist(given, time=time) if r.random() < 0.5 else lst.add_datalist(given, time)
        else:
            lst.add_datalist(given)
        mon.check("caller", sorted(given) == keys, "dictionary of the caller is changed")
        model.append((fields, time))
        if r.random() < 0.3:
            given["U"] = None
            given.pop("P", None)
    return out


def run(case, mon):
    r = random.Random(case["seed"])
    g = gen.make(case["spec"])
    m, ids = rig.to_mesh(g, case["index"], case["seed"])
    types = list(m._cell2node.keys())
    lists = history(mon, r, g.ncell, case["nlist"], case.get("long"))
    os.makedirs("out dir")
    for i in range(r.randint(0, 3)):
        name = r.choice(["pack.h5", "out dir/pack.h5", "pack(1).h5", "data.v1.h5", "other.h5"])
        with open(name, "wb") as f:
            f.write(os.urandom(40))
    written = {}
    order = [k for k in range(len(lists)) for _ in range(r.choice([1, 1, 2]))]
    r.shuffle(order)
    for k in order:
        lst, model, _, _ = lists[k]
        before = clicase.snapshot(".")
        lst.set_mesh(m)
        name = r.choice(["pack.h5", "pack.h5", "out dir/pack.h5", "data.v1.h5", mon.path("abs.h5")])
        over = r.random() < 0.3
        opts = r.choice([{}, {}, {"compression": "gzip"}, {"shuffle": True, "compression": "lzf"}, {"fletcher32": True}])
        exists = os.path.exists(name)
        got = lst.dumphdf(name, overwrite=over, **opts) if over or r.random() < 0.5 else lst.dumphdf(name, **opts)
        after = clicase.snapshot(".")
        # no other file is changed
        changed = [f for f in set(before) | set(after) if before.get(f) != after.get(f) and not os.path.isdir(f)]
        mon.check("place", os.path.isfile(got) and os.path.dirname(os.path.abspath(got)) == os.path.dirname(os.path.abspath(name)), f"{name} -> {got}")
        mon.check("place", (os.path.abspath(got) == os.path.abspath(name)) == (over or not exists), f"{name} (exists {exists}, overwrite {over}) -> {got}")
        mon.check("others", all(os.path.abspath(f) == os.path.abspath(got) for f in changed), f"{changed} changed by writing {got}")
        written[os.path.abspath(got)] = k
        if opts:
            with h5py.File(got, "r") as f:
                ds = [f["mesh/nodes"], *f["mesh/cells"].values()] + [d for v in f["datalist"].values() for d in v.values()]
                for d in ds:
                    mon.check("header", d.compression == opts.get("compression") and d.fletcher32 == bool(opts.get("fletcher32")), f"options of {d.name}")
    for path, k in written.items():
        compare(mon, path, lists[k][1], types, m, ids, g, case["index"] == "range")
        mon.seen("twice", sum(x == k for x in written.values()) > 1)
        # library reads it
        h = hdf5.h5File(path)
        h.open()
        v = vtk.vtkMesh()
        v.importhdfgroup(h["/mesh"])
        h.close()
        want = sorted((t, tuple(int(i) for i in c)) for t, c in g.cells)
        mon.check("import", sorted((t, tuple(int(i) for i in c)) for t, c in grid_cells(v.pyvista_grid)) == want, "cells imported")
        mon.equal("import", np.asarray(v.pyvista_grid.points), g.xyz, "points imported")
    # what cannot be dumped is refused and changes nothing
    lst = lists[0][0]
    before = clicase.snapshot(".")
    what = r.choice(["vtk", "none", "folder", "dict"])
    name = r.choice(["pack.h5", "new.h5", "out dir/n.h5"])
    if what == "vtk":
        lst.set_mesh(vtk.vtkMesh(mesh=m))
    elif what == "dict":
        lst.set_mesh({"hexa8": np.zeros((1, 8))})
    elif what == "none":
        lst = _data.DataSetList(1, Trep="instant")
        lst.add_datalist({"U": np.zeros(g.ncell)}, time=0.0)
    else:
        name = "no folder/pack.h5"
    try:
        lst.dumphdf(name, overwrite=r.random() < 0.5)
    except Exception:
        mon.check("refused", clicase.snapshot(".") == before, lambda: f"files changed by a refused dump ({what})")
    else:
        mon.check("refused", False, f"dump accepted: {what}")
    for path, k in written.items():
        compare(mon, path, lists[k][1], types, m, ids, g, case["index"] == "range")
