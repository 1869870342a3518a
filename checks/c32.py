"""C32 what is displayed about meshes, fields, series and planes is what was read or written"""
import contextlib
import io
import os
import random
import re

import numpy as np
import pyvista as pv

import cfdtools._cli as cli
import cfdtools.api as api
import cfdtools.ic3 as ic3
import cfdtools.ic3.readerV4 as readerV4
from cfdtools.vtk import vtkList, vtkMesh

import c09
import c11
import c16
import c18
import c24
from c20 import logged
from vmon import clicase, gen, ic3case, ic3io, rig

ID = "C32"
RULE = (
    "messages logged or printed while files are read and written, meshes described, series packed and planes averaged; every number of the "
    "messages (sizes, ranges, statistics of fields, numbers of faces by type, zones, instants, planes) is recomputed from independent models; distinct by messages"
)
REQUIRED = ["sizes", "field-stats", "face-types", "endian", "printed", "mesh-types", "mesh-bounds", "mesh-marks", "written-sizes", "written-zones", "written-state", "probe-stats", "probe-step", "pack-count", "pack-fields", "planes", "plane-fields", "cgns", "tool-file", "silent"]
NAMES = {v: k for k, v in ic3io.KIND.items()}
NUM = r"[+-]?(?:nan|inf|\d+\.?\d*(?:[eE][+-]?\d+)?)"


def cases(tier, rng):
    n = 700 if tier == "quick" else 8000
    out = []
    for i in range(n):
        kind = ["ic3", "mesh", "v4", "probe", "pack", "zconv", "cgns", "ic3", "tool", "write"][i % 10]
        spec = gen.spec2(rng, 4) if kind in ("zconv",) or rng.random() < 0.3 else gen.spec3(rng, 3)
        spec["jitter"] = rng.choice([0.05, 0.15])
        out.append({"kind": kind, "spec": spec, "seed": rng.randrange(10**9), "endian": rng.choice("<>"), "version": rng.choice([2, 3]), "ndof": rng.choice([1, 1, 3]),
                    "checks": rng.random() < 0.7, "order": rng.randrange(len(c09.ORDERS)), "extra": False, "facedata": rng.random() < 0.4, "anyzone": rng.random() < 0.3})  # fmt: skip
    return out


def numbers(text):
    return [float(x) for x in re.findall(NUM, text)]


def near(x, want, scale):
    """x is want as it is displayed"""
    if np.isnan(want) or np.isnan(x):
        return np.isnan(want) and np.isnan(x)
    if np.isinf(want) or np.isinf(x):
        return x == want
    return abs(x - want) <= 2e-5 * abs(want) + 1e-12 * scale


def field_stats(mon, text, fields):
    """lines of statistics of fields: name -> list of arrays (same name at several locations)"""
    shown = {}
    for line in text:
        if "(min/mean/max)" in line:
            head, _, tail = line.rpartition(": ")
            shown.setdefault(head.strip(), []).append(numbers(tail)[:3])
    want = {}
    for name, arrays in fields.items():
        for a in arrays:
            if a.ndim == 2:
                for c in range(a.shape[1]):
                    want.setdefault(f"{name}-{c}", []).append(a[:, c])
            else:
                want.setdefault(name, []).append(a)
    for label, arrays in want.items():
        for a in arrays:
            with np.errstate(all="ignore"):
                big = float(np.abs(a.astype(float)).max())
                ref = (float(a.min()), float(np.mean(a)), float(a.max()))
            if not np.isfinite(ref[1]) and np.all(np.isfinite(a)) or big > 1e300:
                continue  # sum overflows
            ok = any(len(s) == 3 and all(near(x, y, big) for x, y in zip(s, ref)) for s in shown.get(label, ()))
            mon.check("field-stats", ok, lambda: f"{label}: shown {shown.get(label)} instead of {ref}")
    mon.check("field-stats", not fields or set(shown) <= set(want), lambda: f"statistics of {sorted(set(shown) - set(want))}")


def has(text, *words):
    """lines which have all these words"""
    return [line for line in text if all(w in line for w in words)]


def read_sizes(mon, text, g, nface, types):
    line = has(text, "cells", "faces", "nodes")
    mon.check("sizes", any(numbers(t)[:3] == [g.ncell, nface, g.nnode] for t in line), lambda: f"sizes {g.ncell} {nface} {g.nnode} shown {line}")
    got = {}
    for t in has(text, "faces of", "nodes"):
        n = numbers(t)
        got[int(n[-1])] = int(n[-2])
    mon.check("face-types", got == types, lambda: f"faces {got} instead of {types}")


def run(case, mon):
    r = random.Random(case["seed"])
    mon.stat("kind", case["kind"])
    {"ic3": ic3_read, "v4": v4_read, "mesh": mesh_info, "probe": probe, "pack": pack, "zconv": zconv, "cgns": cgns, "tool": tool, "write": write}[case["kind"]](case, mon, r)


def nfaces(g):
    types = {}
    fm = g.facemap()
    for f in fm:
        types[len(f)] = types.get(len(f), 0) + 1
    return len(fm), types


def ic3_read(case, mon, r):
    _, g, spec, model = c09.build(case)
    path = mon.path("a.ic3")
    ic3io.write(path, spec, case["endian"], case["version"], list(c09.ORDERS[case["order"]]), case["checks"], [r])
    rd = ic3.reader(path, cIntegrity=case["checks"] and r.random() < 0.5)
    if r.random() < 0.3:
        _, text = logged(cli.cfdinfo, [path])
        rd.read_data()
    else:
        _, text = logged(rd.read_data)
    nf, types = nfaces(g)
    read_sizes(mon, text, g, nf, types)
    end = {"<": "little", ">": "big"}[case["endian"]]
    other = {"<": "big", ">": "little"}[case["endian"]]
    lines = has(text, "version")
    mon.check("endian", any(str(case["version"]) in t and end in t for t in lines) and not any(other in t for t in lines), lambda: f"{end} endian version {case['version']} shown {lines}")
    fields = {}
    for loc in ("nodes", "cells", "faces"):
        for k, a in model[loc].items():
            fields.setdefault(k, []).append(a)
    field_stats(mon, text, fields)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        rd.printinfo()
    said = out.getvalue().split("\n")
    for key, v in (("no_count", g.nnode), ("fa_count", nf), ("cv_count", g.ncell), ("noofa_count", sum(k * n for k, n in types.items()))):
        lines = has(said, f"params.{key}")
        mon.check("printed", any(numbers(t)[-1:] == [v] for t in lines), lambda: f"{key} {v} printed {lines}")
    mon.note(text)


def v4_read(case, mon, r):
    c = {**case, "sol": True, "hostile": False, "index": "range", "mode": "sides", "keep": 1.0, "perio": 0.0, "part": False, "foreign": True, "legacy": None}
    paths = c11.foreign(c, mon, r)[:2]
    rd = readerV4.reader(str(paths[0]), str(paths[1]) if paths[1] else None)
    _, text = logged(rd.read_data)
    g = gen.make(case["spec"])
    nf, types = nfaces(g)
    read_sizes(mon, text, g, nf, types)
    if paths[1]:
        import h5py

        fields = {}
        with h5py.File(paths[1], "r") as h:
            def add(k, d):
                a = np.array(d)
                n = a.size // g.ncell
                fields.setdefault(k.upper(), []).append(a.reshape(g.ncell, n) if n > 1 else a)

            for k in [k for k in ("rho", "rhou", "rhoe") if k in h]:
                add(k, h[k])
            for k, d in (h["VolumeStats"].items() if "VolumeStats" in h else ()):
                add(k, d)
        field_stats(mon, text, fields)
    mon.note(text)


def described(mon, text, g, types, nface):
    """sizes, cells by type, ranges of coordinates"""
    for key, v in (("nnode", g.nnode), ("ncell", g.ncell), ("nface", nface)):
        lines = has(text, key)
        mon.check("sizes", any(numbers(t)[:1] == [v] for t in lines), lambda: f"{key} {v} shown {lines}")
    for i, c in enumerate("xyz"):
        lines = [t for t in text if t.strip().startswith(c + " ") and "min:avg:max" in t]
        x = g.xyz[:, i]
        want = [x.min(), np.average(x), x.max()]
        got = numbers(lines[0].split("=")[1]) if len(lines) == 1 else []
        mon.check("mesh-bounds", len(got) == 3 and np.allclose(got, want, rtol=1e-9, atol=6e-4), lambda: f"{c}: {want} shown {lines}")
    for t, (n, k) in types.items():
        lines = [x for x in text if x.strip(" .").startswith(t + ":")]
        mon.check("mesh-types", any(numbers(x.split(":", 1)[1])[:2] == [n, k] for x in lines), lambda: f"{t} ({n}, {k}) shown {lines}")


def shown_index(mon, what, line, index):
    index = list(index)
    tail = line.split("): ", 1)[1] if "): " in line else line
    n = numbers(tail)
    if "range" in tail:
        ok = n == [index[0], index[-1]] and index == list(range(index[0], index[-1] + 1))
    else:
        ok = n == [min(index), max(index), len(index)]
    mon.check(what, ok, lambda: f"indices {sorted(index)[:20]} shown {line}")


def mesh_info(case, mon, r):
    case["hostile"], case["index"], case["mode"] = False, r.choice(["range", "position", "split"]), "sides"
    m, model = ic3case.make_mesh(case)
    g = model["g"]
    if r.random() < 0.5:
        sc = [r.choice([1.0, 100.0, 0.5, -2.0]) for _ in range(3)]
        m.scale(sc)
        g.xyz = g.xyz * np.array(sc)
    types = {t: (len(pos), np.shape(c)[1]) for t, (pos, c) in g.by_type().items()}
    nface = 0
    if r.random() < 0.7:
        m.make_face_connectivity()
        if r.random() < 0.6 and model["marks"]:
            m.bocomarks_set_node_to_face()
            if r.random() < 0.7:
                m.make_unmarked_BC("rest")
                m.reindex_boundaryfaces()
        nface = nfaces(g)[0]
        inner = {}
        for where in ("internal", "boundary"):
            for t, f in m._faces[where]["face2node"].items():
                inner.setdefault(t, []).append((np.shape(f["elem2node"]), where))
    before = {n: (b.geodim, b.index.list()) for n, b in m._bocos.items()}
    _, text = logged(m.printinfo)
    described(mon, text, g, types, nface)
    if nface:
        for t, l in inner.items():
            for shape, where in l:
                lines = [numbers(x.split(":", 1)[1])[:2] for x in text if x.strip(" .").startswith(t + ":")]
                mon.check("mesh-types", list(shape) in lines, lambda: f"{where} {t} {shape} shown {lines}")
    lines = has(text, "bocos:")
    mon.check("mesh-marks", len(lines) == 1 and all(n in lines[0] for n in before), lambda: f"marks {list(before)} shown {lines}")
    for n, (dim, index) in before.items():
        lines = [t for t in text if t.strip().startswith("BC " + n) and f"({dim})" in t]
        mon.check("mesh-marks", len(lines) >= 1, lambda: f"mark {n} {dim} not in {text}")
        if len(lines) == 1 and index:
            shown_index(mon, "mesh-marks", lines[0], index)
    mon.note(text)


def write(case, mon, r):
    """what writers tell about the file"""
    version = case["version"]
    case.update(hostile=r.random() < 0.5, index="range", mode="sides", keep=r.choice([1.0, 0.5]), perio=0.2, ndof=1)
    m, model = ic3case.make_mesh(case, data=True, version=version)
    path = mon.path("w.ic3")
    cls = {2: ic3.writerV2.writer, 3: ic3.writerV3.writer}[version]
    _, text = logged(lambda: cls(m).write_data(path))
    F = ic3case.parse(mon, path)
    lines = has(text, "sizes", "nodes", "faces", "cells")
    mon.check("written-sizes", any(numbers(t)[:3] == [F.counts[0], F.counts[1], F.counts[2]] for t in lines), lambda: f"{F.counts} shown {lines}")
    for name, kind, a, b, _ in F.zones:
        if kind == 6:
            lines = has(text, "internal faces")
        else:
            lines = [t for t in text if f") {name}: " in t and f"({NAMES[kind]})" in t]
        mon.check("written-zones", len(lines) == 1 and lines[0].endswith(f"{a}-{b}"), lambda: f"zone {name} {a}-{b} shown {lines}")
    for key in ("step", "dt", "time"):
        lines = [t for t in text if key.upper() in t and "parameter" in t]
        v = model["params"][key]
        got = numbers(lines[0].split(":")[-1]) if len(lines) == 1 else []
        mon.check("written-state", len(got) == 1 and near(got[0], float(v), 0), lambda: f"{key} {v} shown {lines}")
    for loc, what in (("nodes", "node"), ("cells", "cell")):
        for name, a in model[loc].items():
            kind = {1: "scalar", 2: "vector", 3: "tensor"}[a.ndim]
            lines = [t for t in text if t.endswith(" " + name) and what in t and kind in t]
            mon.check("written-state", len(lines) == 1, lambda: f"{what} {kind} {name} not in {text}")
    mon.note(text)


def probe(case, mon, r):
    from cfdtools.probes.data import phydata
    import cfdtools.probes.plot as plot

    n, m = r.randint(2, 12), r.randint(1, 6)
    folder, prefix, t, xyz, d, it0, fmt = c24.build(r, mon, n, m)
    for k in c24.COMP:
        c24.write(r, prefix, k, t, d[k], it0, fmt)
    p = phydata(prefix, verbose=r.random() < 0.5)
    want = {**d, **{c: xyz[c] for c in "XYZ"}}
    for k in r.sample(c24.COMP + sorted(c24.DERIVED) + list("XYZ"), 4):
        _, text = logged(p.check_data, k, prefix)
        a = want[k] if k in want else c24.formula(k, d)
        lines = [x for x in text if x.startswith(f"- {k} ") and "min:avg:max" in x]
        got = [numbers(x.split("=")[1]) for x in lines]
        ref = [a.min(), np.average(a), a.max()]
        mon.check("probe-stats", len(got) == 1 and len(got[0]) == 3 and np.allclose(got[0], ref, rtol=1e-9, atol=6e-4), lambda: f"{k} {ref} shown {lines}")
        if p.verbose and k in d:
            files = has(text, " read ", k)
            mon.check("probe-stats", all(x.endswith(f"{prefix}.{k}") for x in files), lambda: f"{files}")
        mon.note(text)
    if r.random() < 0.3:
        n = r.choice([600, 640])
        dt = r.choice([1.0, 0.125, 2.5])
        t = dt * np.arange(n)
        a = np.array([[np.sin(0.1 * i * (1 + j)) for j in range(3)] for i in range(n)])
        data = phydata("tool")
        data.alldata.update({"X": np.array([0.0, 1.0, 3.0]), "time": t, "P": a})
        kw = {"prefix": "tool", "axis": "X", "datalist": ["P"], "cmap": "turbo", "nlevels": 5, "verbose": True, "check": True}
        _, text = logged(lambda: plot.plot_freqmap(data, **kw))
        lines = has(text, "dt min:avg:max")
        mon.check("probe-step", any(np.allclose(numbers(x.split("=")[1]), [dt] * 3, atol=6e-4) for x in lines), lambda: f"dt {dt} shown {lines}")
        lines = has(text, "t min:max")
        mon.check("probe-step", any(np.allclose(numbers(x.split("=")[1]), [0, t[-1]], atol=6e-4) for x in lines), lambda: f"{t[-1]} shown {lines}")
        lines = has(text, "saving figure")
        mon.check("probe-step", len(lines) == 1 and os.path.exists(lines[0].split("figure ")[1]), lambda: f"{lines}")


def pack(case, mon, r):
    g = gen.make(case["spec"])
    names = ["P", "U V", "rho"][: r.randint(1, 3)]
    paths, moved = [], 0
    for i in range(r.randint(1, 4)):
        cells = i > 0 and r.random() < 0.5
        h, ids = c16.shuffled(g, r, cells, False)
        c16.write(mon.path(f"f{i}.vtu"), h, ids, {k: np.arange(g.ncell) + 0.5 for k in names}, None)
        paths.append(mon.path(f"f{i}.vtu"))
        moved += ids != list(range(g.ncell))
    L = vtkList(paths, verbose=True)
    same, text = logged(L.check_order)
    lines = has(text, "coincident")
    mon.check("pack-count", len(lines) == 1 and numbers(lines[0])[:2] == [moved, len(paths)], lambda: f"{moved} of {len(paths)} shown {lines}")
    sel = r.choice([None, names[:1]])
    _, text = logged(lambda: L.read(filterdata=sel))
    lines = has(text, "coincident")
    mon.check("pack-count", len(lines) == 1 and numbers(lines[0])[:2] == [moved, len(paths)], lambda: f"{moved} of {len(paths)} shown {lines}")
    mon.check("pack-fields", all(has(text, f"- {p}") for p in paths), lambda: f"files not in {text}")
    lines = has(text, "select only")
    mon.check("pack-fields", bool(lines) == bool(sel) and (not sel or sel[0] in lines[0]), lambda: f"{sel} shown {lines}")
    mon.check("silent", not has(text, "above tolerance"), lambda: f"{has(text, 'above tolerance')}")
    if r.random() < 0.5:
        out, text = logged(cli.vtkpack, paths)
        lines = has(text, "number of files")
        mon.check("pack-count", len(lines) == 1 and numbers(lines[0]) == [len(paths)], lambda: f"{len(paths)} shown {lines}")
        lines = has(text, "dumped to")
        mon.check("pack-fields", len(lines) == 1 and lines[0].endswith(str(out)) and os.path.exists(str(out)), lambda: f"{out} shown {lines}")
    mon.note(moved, len(paths), sel)


def zconv(case, mon, r):
    g = gen.make(case["spec"])
    nz, dz = r.randint(2, 6), r.choice([1.0, 0.25, 0.5])
    pts, cells = c18.extrude(g, dz * np.arange(nz + 1), False)
    r.shuffle(cells)
    by = {}
    for t, nodes, c, k in cells:
        by.setdefault(t, []).append(nodes)
    from cfdtools.vtk._vtk import vtktype_ele

    grid = pv.UnstructuredGrid({vtktype_ele[t]: np.array(v) for t, v in by.items()}, pts)
    opts = {k: r.random() < 0.5 for k in ("rms", "phase", "snapshot")}
    nmode = r.choice([0, 1])
    grid.cell_data["P"] = np.arange(grid.n_cells) * 1.0
    grid.cell_data["U"] = np.ones((grid.n_cells, 3))
    sel = r.choice([None, {"U": ["rms", "no_avg"]}])
    _, text = logged(lambda: vtkMesh(pvmesh=grid).vtk_zconvolution(nmode=nmode, select=sel, **opts))
    lines = has(text, "chunks found")
    mon.check("planes", len(lines) == 1 and numbers(lines[0]) == [nz, g.ncell, g.ncell], lambda: f"{nz} planes of {g.ncell} shown {lines}")
    lines = has(text, "distance", "between planes")
    mon.check("planes", len(lines) == 1 and np.allclose(numbers(lines[0]), [dz, 0], rtol=1e-2, atol=1e-6), lambda: f"{dz} shown {lines}")
    for name, shape in (("P", (nz, g.ncell)), ("U", (nz, g.ncell, 3))):
        lines = [t for t in text if t.strip().startswith(name + " ") and "mode" in t]
        if sel and name not in sel:
            mon.check("plane-fields", not lines, lambda: f"{lines}")
            continue
        on = {**opts, "avg": True, "nmode": bool(nmode)}
        if sel:
            on.update(rms=True, avg=False)
        mon.check("plane-fields", len(lines) == 1 and numbers(lines[0].split(":")[1].split("+")[0]) == [nmode, *shape], lambda: f"{name} {nmode} {shape} shown {lines}")
        words = lines[0].split("+")[1].replace(",", " ").split()
        mon.check("plane-fields", sorted(words) == sorted(k for k, v in on.items() if v), lambda: f"{name} {on} shown {lines}")
    mon.note(nz, dz, g.ncell, text)


def cgns(case, mon, r):
    g, groups = clicase.source("cgns", case["spec"], case["seed"], mon.path("a.cgns"))
    rd = api._fileformat_map["CGNS"]["reader"](mon.path("a.cgns"))
    rd.read_data()
    _, text = logged(lambda: (rd.printinfo(), rd.export_mesh()))
    import h5py

    with h5py.File(mon.path("a.cgns"), "r") as h:
        ver = float(h["CGNSLibraryVersion"][" data"][0])
        bases = [b for b in h if h[b].attrs.get("label") == b"CGNSBase_t"]
        zones = [z for b in bases for z in h[b] if h[b][z].attrs.get("label") == b"Zone_t"]
    lines = has(text, "CGNS version")
    mon.check("cgns", len(lines) == 1 and np.allclose(numbers(lines[0]), [ver], rtol=1e-5), lambda: f"{ver} shown {lines}")
    mon.check("cgns", all(any(b in t for t in has(text, "bases:")) for b in bases) and all(any(z in t for t in has(text, "zones:")) for z in zones), lambda: f"{bases} {zones} shown {text}")
    lines = has(text, "ncell:", "nnode:")
    mon.check("cgns", any(numbers(t.split("ncell:")[1])[:2] == [g.ncell, g.nnode] and f"({g.dim}D)" in t for t in lines), lambda: f"{g.ncell} cells {g.nnode} nodes {g.dim}D shown {lines}")
    lines = has(text, "add boco")
    mon.check("cgns", all(has(lines, "add boco " + n) for n in groups), lambda: f"{list(groups)} shown {lines}")
    mon.note(text)


def tool(case, mon, r):
    """files which tools announce are those which are written"""
    kind = r.choice(["gmsh2", "gmsh4", "cgns"])
    fmt, ext = clicase.FMT[kind]
    stem = r.choice(["mesh", "mesh.v1", "my mesh"])
    g, groups = clicase.source(kind, case["spec"], case["seed"], stem + ext)
    n = r.choice([None, 1, 3]) if g.dim == 2 else None
    if not clicase.unambiguous(*(clicase.extruded(g, groups, n) if n else (g, groups))):
        return mon.note("ambiguous")
    opts = ["--extrude", str(n)] if n else []
    if r.random() < 0.5:
        os.makedirs("out")
        opts += ["--outpath", "out"]
    seen = set()
    fn, e = clicase.TOOLS[r.choice(["v2", "v3", "vtk"])]
    for k in range(r.randint(1, 3)):
        out, text = logged(fn, [stem + ext] + opts)
        lines = has(text, "file", "written")
        mon.check("tool-file", len(lines) == 1 and f" {out} " in lines[0] and os.path.exists(out) and out not in seen, lambda: f"{out} announced {lines}")
        lines = has(text, "safe new name")
        mon.check("tool-file", bool(lines) == (k > 0) and (not lines or lines[0].endswith(str(out))), lambda: f"{out} announced {lines}")
        lines = has(text, "extrusion")
        mon.check("tool-file", bool(lines) == bool(n) and (not n or numbers(lines[0].split("nz")[1]) == [n, n * g.ncell]), lambda: f"{n} {g.ncell} announced {lines}")
        lines = has(text, "read mesh file")
        mon.check("tool-file", len(lines) == 1 and lines[0].endswith(stem + ext), lambda: f"{lines}")
        seen.add(out)
    mon.note(text, sorted(seen))
