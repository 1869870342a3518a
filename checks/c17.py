"""C17 XMF description of a packed series: external XDMF readers get the mesh and the values of each instant"""
import os
import random
import xml.etree.ElementTree as ET
from pathlib import Path

import h5py
import numpy as np
import pyvista as pv
from vtkmodules.vtkIOXdmf2 import vtkXdmfReader

from cfdtools.vtk import vtkList

from c15 import VT, grid_cells
from c16 import shuffled, write
from vmon import core, gen

ID = "C17"
RULE = (
    "random series of VTK files packed with their XMF file, in the current or another folder, relative or absolute paths, with and "
    "without existing files; XML parsed and each item compared with the HDF5 file, then read by the XDMF reader of VTK; distinct by values"
)
REQUIRED = ["xml-items", "xml-names", "xdmf-cells", "xdmf-points", "xdmf-values", "xdmf-times", "existing-untouched", "pack-structure"]


def cases(tier, rng):
    n = 270 if tier == "quick" else 900
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 8 == 0
        if i % 4 == 0:
            spec = gen.spec2(rng, 4 if not big else 14, kinds=["tri", "quad"])
        else:
            spec = gen.spec3(rng, 3 if not big else 6, kinds=["hex", "prism", "tet", "kuhn", "pyra"])
        spec["jitter"] = rng.choice([0.0, 0.1])
        out.append({"spec": spec, "seed": rng.randrange(10**9), "nfile": rng.choice([1, 2, 3, 4]), "exists": rng.random() < 0.4})
    for i in range(3):
        spec = gen.spec3(rng, 2, kinds=["mixed"])
        spec.update(weights={"hex": 1, "prism": 1, "pyra": 1}, n=[2, 2, 2], jitter=0.0)
        out.append({"spec": spec, "seed": rng.randrange(10**9), "nfile": 2, "exists": False, "finding": "xmf-mixed"})
    return gen.widen(out, rng)


def xdmf_read(path):
    r = vtkXdmfReader()
    r.SetFileName(path)
    r.UpdateInformation()
    info = r.GetOutputInformation(0)
    key = r.GetExecutive().TIME_STEPS()
    times = list(info.Get(key)) if info.Has(key) else []
    out = []
    for t in times:
        r.UpdateTimeStep(t)
        o = pv.wrap(r.GetOutputDataObject(0)).copy()
        out.append(o)
    return times, out


def run(case, mon):
    r = random.Random(case["seed"])
    g = gen.make(case["spec"])
    if "finding" not in case and len(g.types()) != 1:
        raise core.Skip("several types")
    if "finding" in case and len(g.types()) < 2:
        raise core.Skip("one type")
    os.chdir(mon.workdir)
    mon.stat("types", "+".join(g.types()))
    names = r.sample(["P", "U V", "rho&co", "T<0>", 'say "x"', "Q_AVG", "k'", "a>b", "∂P/∂x", "p%dé x"], r.randint(1, 4))
    shape = {n: r.choice([(), (3,), (9,), (2,)]) for n in names}
    kind = {n: r.choice(["f8", "f8", "f4", "i4", "i8"]) for n in names}
    files, paths = [], []
    vary = case["nfile"] > 1 and len(names) > 1 and r.random() < 0.25  # files of a series may have other fields
    for i in range(case["nfile"]):
        h, ids = shuffled(g, r, i > 0 and r.random() < 0.5, i > 0 and r.random() < 0.5)
        data = {n: np.array([r.randrange(-8000, 8000) / (8 if kind[n][0] == "f" else 1) for _ in range(g.ncell * int(np.prod(shape[n])))], dtype=kind[n]).reshape((g.ncell,) + shape[n]) for n in names}
        if vary:
            data = {n: data[n] for n in r.sample(names, r.randint(1, len(names)))}
        write(f"f{i}.vtk", h, ids, data, r.choice([None, 0.5 * i]))
        files.append(data)
        paths.append(f"f{i}.vtk")  # VTU files cannot hold any name
    os.makedirs("some/where")
    os.makedirs("A&B")
    base = r.choice(["pack", "pack.v1", "a b", "x&y", "packé%s v"])
    ext = r.choice([".h5", ".hdf", ".hdf5"])
    folder = r.choice(["", "some", "some/where", "./", "A&B", mon.path("some"), mon.workdir])
    target = os.path.join(folder, base + ext)
    old = {}
    if case["exists"]:
        for k in range(r.choice([1, 2])):
            old[os.path.join(folder, base + (f"({k})" if k else "") + ext)] = os.urandom(40)
        for p, b in old.items():
            open(p, "wb").write(b)
    L = vtkList(paths)
    L.read()
    arg = Path(target) if r.random() < 0.4 else target
    out = L.dumphdf(arg, xdmf=True)
    for p, b in old.items():
        mon.check("existing-untouched", open(p, "rb").read() == b, f"{p} changed")
    if not old:
        mon.check("existing-untouched", os.path.samefile(out, target), f"{out} instead of {target}")
    if r.random() < 0.3:
        # asked for: replaced, same names
        out2 = L.dumphdf(out, xdmf=True, overwrite=True)
        mon.check("existing-untouched", os.path.samefile(out, out2), f"{out2} instead of {out}")
    out = str(out)
    xmf = os.path.splitext(out)[0] + ".xmf"
    mon.stat("folder", folder.replace(mon.workdir, "ABS"))
    with h5py.File(out) as h:
        mon.check("pack-structure", h.attrs["cfd_datatype"] == "datalist" and h["mesh"].attrs["meshtype"] == "unsmesh", "type of file")
    here = os.getcwd()
    if r.random() < 0.5:
        os.chdir("/")  # XMF files are read from anywhere
        xmf = os.path.join(here, xmf)
    check_xml(mon, xmf, g, files, shape, case)
    times, grids = xdmf_read(xmf)
    mon.check("xdmf-times", times == [float(i) for i in range(case["nfile"])], f"times {times}")
    where = {(t, n): i for i, (t, n) in enumerate(g.cells)}
    for i, o in enumerate(grids):
        # single precision: no precision is declared in the file
        mon.check("xdmf-cells", o.n_cells == g.ncell, f"{o.n_cells} cells of {g.ncell}")
        mon.check("xdmf-points", o.points.shape == g.xyz.shape and np.abs(o.points - g.xyz).max() <= 1e-6 * max(1.0, np.abs(g.xyz).max()), "points")
        ids = [where.get((t, tuple(n)), -1) for t, n in grid_cells(o)]
        mon.check("xdmf-cells", sorted(ids) == list(range(g.ncell)), "cells")
        # readers may keep, with no value, the fields of the other instants
        mon.check("xdmf-values", set(files[i]) <= set(o.cell_data.keys()) and (vary or len(o.cell_data.keys()) == len(names)), f"fields {o.cell_data.keys()} expected {list(files[i])}")
        for n in files[i]:
            if shape[n] == (2,):
                continue
            mon.check("xdmf-values", np.array_equal(np.asarray(o.cell_data[n]), files[i][n][ids].astype(np.float32)), lambda: f"step {i} field {n}: {o.cell_data[n].ravel()[:5]} expected {files[i][n][ids].ravel()[:5]}")
            mon.note(files[i][n])


def check_xml(mon, xmf, g, files, shape, case):
    root = ET.parse(xmf).getroot()
    mon.check("xml-items", root.tag == "Xdmf", root.tag)
    coll = [e for e in root.iter("Grid") if e.get("GridType") == "Collection" and e.get("CollectionType") == "Temporal"]
    mon.check("xml-items", len(coll) == 1, "one temporal collection")
    steps = [e for e in coll[0] if e.tag == "Grid"]
    mon.check("xml-items", len(steps) == case["nfile"], f"{len(steps)} instants for {case['nfile']} files")
    folder = os.path.dirname(xmf)
    for s, names in zip(steps, files):
        att = [e for e in s.iter("Attribute")]
        mon.check("xml-names", sorted(e.get("Name") for e in att) == sorted(names), f"names {[e.get('Name') for e in att]} expected {names}")
        for e in att:
            n = e.get("Name")
            mon.check("xml-names", e.get("Center") == "Cell" and e.get("AttributeType") == ("Scalar" if shape[n] == () else "Vector"), f"kind of {n}")
        for item in s.iter("DataItem"):
            file, path = item.text.strip().split(":", 1)
            full = os.path.join(folder, file)
            mon.check("xml-items", os.path.exists(full), f"{file} of the XMF file {xmf} does not exist")
            with h5py.File(full) as h:
                mon.check("xml-items", path in h, f"{path} does not exist")
                dims = [int(x) for x in item.get("Dimensions").split()]
                mon.check("xml-items", int(np.prod(dims)) == h[path].size, f"{path} has {h[path].shape}, described as {dims}")
        tp = [e for e in s.iter("Topology")]
        mon.check("xml-items", sum(int(e.get("NumberOfElements")) for e in tp) == g.ncell, "number of cells")
