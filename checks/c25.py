"""C25 HDF5 files of the library: content survives any history of openings, types and versions are those written"""
import logging
import os
import random

import h5py
import numpy as np

import cfdtools
from cfdtools.hdf5 import h5File
from vmon import clicase

ID = "C25"
RULE = (
    "random histories of openings of several files (all modes, valid and wrong types and versions, files of other origins, not HDF5) with "
    "additions and meshes written in between, against a model of each file, read by h5py; distinct by history and content"
)
REQUIRED = ["refused", "unchanged", "created", "content", "type", "mesh", "info", "not-created"]

TYPES = ["external", "dataset", "datalist", "probes", "cfdmesh"]


def cases(tier, rng):
    n = 780 if tier == "quick" else 4000
    return [{"seed": rng.randrange(10**9), "n": rng.randint(4, 14)} for i in range(n)]


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


def messages(f):
    lg = logging.getLogger("cfdtools")
    h, level = Collect(), lg.level
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    try:
        f()
    finally:
        lg.removeHandler(h)
        lg.setLevel(level)
    return h.text


def raw(p):
    with open(p, "rb") as f:
        return f.read()


def compare(mon, name, m):
    """content of a file, read by h5py, is that of the model"""
    with h5py.File(name, "r") as f:
        got = {}
        f.visititems(lambda k, v: got.__setitem__(k, v[()]) if isinstance(v, h5py.Dataset) else None)
        mon.check("content", sorted(got) == sorted(m["data"]), lambda: f"{name}: {sorted(got)} expected {sorted(m['data'])}")
        for k, v in m["data"].items():
            mon.equal("content", got[k], v, f"{name}: {k}")
            mon.check("content", got[k].dtype == v.dtype, f"{name}: {k} {got[k].dtype}")
        a = dict(f.attrs)
        mon.check("type", a.get("cfd_datatype") == m["type"] and a.get("data_version") == m["version"], lambda: f"{name}: {a} expected {m['type']}, {m['version']}")
        if m["type"] and not m["old"]:
            mon.check("type", "cfdtools_version" in a, "version of the library is missing")
        for p, order in m["mesh"].items():
            mon.check("mesh", f[p].attrs["meshtype"] == order[0] and list(f[p]["cells"]) == order[1], lambda: f"{list(f[p]['cells'])} expected {order[1]}")


def array(r):
    k = r.choice(["f8", "i8", "i4", "f4"])
    a = np.array([r.uniform(-100, 100) for _ in range(r.choice([1, 3, 12]))])
    a = a.astype(k)
    return a.reshape(-1, 3) if a.size > 1 and r.random() < 0.4 else a


def run(case, mon):
    r = random.Random(case["seed"])
    files = {}
    names = ["a.h5", "b.hdf", "sub dir/c.cgns"]
    os.makedirs("sub dir")
    objs = {}
    for n in names:
        k = r.choice(["absent", "absent", "foreign", "old", "text"])
        if k in ("foreign", "old"):
            with h5py.File(n, "w") as f:
                d = {"x": array(r), "g/y": array(r)}
                for p, v in d.items():
                    f[p] = v
                files[n] = dict(type=None, version=None, data=d, mesh={}, old=True)
                if k == "old":
                    files[n]["type"] = f.attrs["cfd_datatype"] = r.choice(TYPES)
        elif k == "text":
            with open(n, "w") as f:
                f.write("not HDF5 " * r.choice([1, 200]))
            files[n] = None
    for step in range(case["n"]):
        n = r.choice(names)
        if r.random() < 0.1:  # the file is changed by another program, the same object is used again
            p = r.random()
            if p < 0.3 and n in files:
                os.remove(n)
                del files[n]
            elif p < 0.9:
                with h5py.File(n, "w") as f:
                    f["other"] = v = array(r)
                files[n] = dict(type=None, version=None, data={"other": v}, mesh={}, old=True)
        obj = objs.get(n)
        if obj is None or r.random() < 0.5:
            obj = objs[n] = h5File(n)
        mode = r.choice(["r", "r", "r+", "w", "w-", "x", "a", "a", "r", "rw", None])
        exists = n in files
        typ, version = r.choice(TYPES), r.choice([1, 2, 17, 0, 1000])
        wrong = r.choice([None] * 5 + ["type", "notype", "noversion"])
        args = {"datatype": typ, "version": version}
        if wrong == "type":
            args["datatype"] = r.choice(["", "Probes", "mesh"])
        elif wrong == "notype":
            del args["datatype"]
        elif wrong == "noversion":
            del args["version"]
        if mode in ("r", "r+") and r.random() < 0.7:
            args = {}
        new = mode in ("w", "w-", "x") or (mode == "a" and not exists)
        good = (mode in ("w", "w-", "x", "a", "r", "r+", None)) and not (new and wrong)
        if mode in ("r", "r+", None) and not exists or mode in ("w-", "x") and exists:
            good = False
        if exists and files[n] is None and mode != "w":
            good = False
        before = clicase.snapshot(".")
        mon.stat("step", f"{mode} {'good' if good else 'refused'}")
        mon.note(n, mode, good)
        mon.check("refused", obj.exists() == exists and str(obj.filename) == n, f"{n} exists: {obj.exists()}")
        try:
            if mode:
                obj.open(mode, **args) if r.random() < 0.5 else obj.open(mode=mode, **args)
            else:
                obj.open()
        except BaseException as e:
            if good:
                raise
            mon.check("refused", isinstance(e, (Exception, SystemExit)))
            after = clicase.snapshot(".")
            mon.check("unchanged", after == before or {k: v[3] for k, v in after.items()} == {k: v[3] for k, v in before.items()}, f"files changed by a refused opening ({mode}, {args})")
            continue
        mon.check("refused", good, f"{n}: opening accepted, mode {mode}, {args}, exists {exists}")
        if new:
            mon.check("created", os.path.exists(n), n)
            files[n] = dict(type=typ, version=version, data={}, mesh={}, old=False)
        m = files[n]
        mon.check("type", obj.datatype == m["type"], f"type {obj.datatype} expected {m['type']} ({mode})")
        text = " ".join(messages(obj.printinfo)).split()
        if m["type"]:
            mon.check("info", m["type"] in text and (not m["version"] or str(m["version"]) in text), lambda: f"{text} expected {m['type']}, {m['version']}")
            mon.check("info", m["old"] or cfdtools.__version__ in text, lambda: f"{text} expected {cfdtools.__version__}")
        for k, v in m["data"].items():
            mon.equal("content", obj[k][()], v, k)
        if new or mode in ("r+", "a"):
            for _ in range(r.choice([0, 1, 2])):
                c = r.random()
                if c < 0.5:
                    path = r.choice(["mesh", f"m{step}/zone"])
                    if path not in m["mesh"]:
                        types = r.sample(["tri3", "quad4", "hexa8", "prism6", "tetra4"], r.randint(1, 4))
                        cells = {t: np.array([[r.randrange(50) for _ in range(int(t[-1]))] for _ in range(r.randint(1, 4))]) for t in types}
                        nodes = np.array([[r.uniform(-1, 1) for _ in range(3)] for _ in range(r.randint(1, 30))])
                        opts = r.choice([{}, {}, {"compression": "gzip"}, {"dtype": "f8"}])
                        kind = "unsmesh"
                        kw = {} if path == "mesh" and r.random() < 0.5 else {"path": "/" + path}
                        if "dtype" in opts:
                            opts = {}
                        obj.write_unsmesh(cells, nodes, **kw, **opts)
                        m["mesh"][path] = (kind, types)
                        m["data"][path + "/nodes"] = nodes
                        for t in types:
                            m["data"][f"{path}/cells/{t}"] = cells[t]
                else:
                    k = f"d{step}_{r.randrange(1000)}"
                    if k not in m["data"]:
                        m["data"][k] = array(r)
                        with_h5(obj)[k] = m["data"][k]
        obj.close()
        after = clicase.snapshot(".")
        a, b = {k: v[3] for k, v in after.items()}, {k: v[3] for k, v in before.items()}
        other = [k for k in set(a) | set(b) if os.path.normpath(k) != os.path.normpath(n) and a.get(k) != b.get(k)]
        mon.check("unchanged", not other, f"other files were changed: {other}")
        if mode in ("r", None):
            mon.check("unchanged", a == b, f"{n} was changed by reading")
        compare(mon, n, m)
    for n in names:
        mon.check("not-created", os.path.exists(n) == (n in files), f"{n} exists: {os.path.exists(n)}")
        if files.get(n):
            compare(mon, n, files[n])
        mon.note(sorted(files))


def with_h5(obj):
    """underlying h5py file"""
    return obj["/"]
