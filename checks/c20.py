"""C20 command-line conversions: output is the input mesh with the requested extrusion and scaling, at the announced place"""
import contextlib
import io
import logging
import os
import random
import re

import numpy as np
import pyvista as pv

import cfdtools._cli as cli

import c11
from c09 import ORDERS, build
from c15 import grid_cells
from vmon import clicase, gen, ic3case, ic3io, rig

ID = "C20"
RULE = (
    "GMSH, CGNS and IC3 files of random meshes and names, converted by the command-line tools to IC3 v2, v3 and VTU with random "
    "options (format, output folder, scale, extrusion, information), outputs parsed independently and compared with the "
    "transformed model; information tools compared with the mesh; distinct by outputs"
)
REQUIRED = ["out-place", "out-nodes", "face-complete", "zone-faces", "vtu-cells", "ic3-data", "info", "info-out", "brief", "headers", "no-format", "cube", "vtk-from-faces"]


def cases(tier, rng):
    n = 450 if tier == "quick" else 1500
    out = []
    for i in range(n):
        kind = ["gmsh2", "gmsh4", "cgns", "ic3", "ic3", "cube", "v4"][i % 7]
        big = tier == "thorough" and i % 8 == 0
        spec = gen.spec2(rng, 4 if not big else 10) if rng.random() < 0.5 else gen.spec3(rng, 3 if not big else 5)
        spec["jitter"] = rng.choice([0.05, 0.15])
        out.append({"kind": kind, "spec": spec, "seed": rng.randrange(10**9), "tool": rng.choice(["v2", "v3", "vtk"]),
                    "endian": rng.choice("<>"), "version": rng.choice([2, 3]), "ndof": 1, "checks": True, "order": rng.randrange(len(ORDERS)), "extra": False, "facedata": rng.random() < 0.3})  # fmt: skip
    out.append({"kind": "corner", "seed": 0, "finding": "corner-triangle"})
    return gen.widen(out, rng)


def corner(mon):
    """extruded mesh with a triangle which has two edges on the same boundary"""
    nodes = [(i % 3, i // 3) for i in range(9)]
    edges = [(1, 2), (2, 3), (3, 6), (6, 9), (9, 8), (8, 7), (7, 4), (4, 1)]
    cells = [(1, 2, 5, 4), (2, 3, 6, 5), (4, 5, 8, 7), (5, 6, 8), (6, 9, 8)]
    lines = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat", "$PhysicalNames", "2", '1 1 "sides"', '2 3 "fluid"', "$EndPhysicalNames", "$Nodes", "9"]
    lines += [f"{i + 1} {x} {y} 0" for i, (x, y) in enumerate(nodes)] + ["$EndNodes", "$Elements", str(len(edges) + len(cells))]
    for i, e in enumerate(edges + cells):
        lines.append(f"{i + 1} {[1, 2, 3][len(e) - 2]} 2 {1 if len(e) == 2 else 3} 1 " + " ".join(map(str, e)))
    with open("corner.msh", "w") as f:
        f.write("\n".join(lines + ["$EndElements", ""]))
    out = cli.cfdwrite_ic3v2(["corner.msh", "--extrude", "2"])
    F = ic3case.parse(mon, str(out))
    zones = {z[0]: z[3] - z[2] + 1 for z in F.zones if z[1] != 6}
    mon.check("zone-faces", zones == {"sides": 16, "fluid0": 5, "fluid1": 5}, f"{zones}")


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


def logged(fn, *args):
    """messages of the tool"""
    lg = logging.getLogger("cfdtools")
    h, level = Collect(), lg.level
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    try:
        ret = fn(*args)
    finally:
        lg.removeHandler(h)
        lg.setLevel(level)
    return ret, h.text


def tokens(lines):
    return " ".join(lines).replace(":", " ").replace("=", " ").replace(",", " ").split()


def place(r, mon, kind, stem):
    """input path and options about format"""
    fmt, ext = clicase.FMT[kind]
    folder = r.choice(["", "in put", mon.path("abs"), "../" + os.path.basename(os.getcwd())])
    if folder:
        os.makedirs(folder, exist_ok=True)
    args = []
    if r.random() < 0.3:
        ext = r.choice([".dat", "", ".MSH", ".vtu", ext])
        args = ["--fmt", fmt]
    elif r.random() < 0.2:
        args = ["--fmt", fmt]
    return os.path.join(folder, stem + ext), args


def run(case, mon):
    r = random.Random(case["seed"])
    os.makedirs(mon.path("w/out dir/x"))
    os.chdir(mon.path("w"))
    if case["kind"] == "corner":
        return corner(mon)
    if case["kind"] == "cube":
        return cube(case, mon, r)
    stem = r.choice(["mesh", "mesh.v1", "my mesh", "mesh(1)", "M-2.50"])
    path, args = place(r, mon, case["kind"], stem)
    model = None
    if case["kind"] == "ic3":
        _, g, spec, model = build(case)
        ic3io.write(path, spec, case["endian"], case["version"], list(ORDERS[case["order"]]), True, [r])
        headers(mon, path, args)
    elif case["kind"] == "v4":
        model = {}
        os.replace(c11.foreign({**case, "sol": False}, mon, r)[0], path)
        g = gen.make(case["spec"])
    else:
        g, groups = clicase.source(case["kind"], case["spec"], case["seed"], path)
    if not args and r.random() < 0.15:
        # unknown type of file
        for bad in (mon.path("w/file.unknown"), mon.path("w/file")):
            os.link(path, bad)
            before = set(os.listdir("."))
            for tool in (cli.cfdinfo, cli.cfdwrite_ic3v3, cli.cfdwrite_vtk):
                try:
                    tool([bad])
                except (Exception, SystemExit):
                    mon.check("no-format", set(os.listdir(".")) == before, "file written")
                else:
                    mon.check("no-format", False, "file of unknown format accepted")
            os.unlink(bad)
    mon.stat("kind", case["kind"])
    info(mon, r, path, args, g, None if model is not None else groups, case)
    tool = case["tool"]
    if case["kind"] in ("ic3", "v4"):
        if tool == "vtk":
            return vtk_from_faces(mon, path, args, g)
        simple = case["kind"] == "v4" or not any(a.dtype.kind == "i" for loc in ("nodes", "cells") for a in model[loc].values())
        tool = tool if simple else "v3"
    fn, ext = clicase.TOOLS[tool]
    opts, outdir = list(args), "."
    scale = n = None
    if r.random() < 0.6:
        outdir = r.choice(["out dir", "out dir/x", mon.path("w/out dir"), "."])
        opts += ["--outpath", outdir]
    if r.random() < 0.6:
        scale = [r.choice([1.0, 0.5, 1e-3, 2.54, 1000.0]) for _ in range(3)]
        opts += ["--scale"] + [repr(s) for s in scale]
    if g.dim == 2 and case["kind"] not in ("ic3", "v4") and r.random() < 0.7:
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 9])
        opts += ["--extrude", str(n)]
    if r.random() < 0.3:
        opts.append("--info")
    if r.random() < 0.2:
        opts.append("--check")
    argv = [path] + opts if r.random() < 0.6 or opts[-4:-3] == ["--scale"] else opts + [path]
    mon.stat("tool", tool)
    mon.stat("options", "+".join(o for o in opts if o.startswith("--")))
    want = clicase.safe_name(outdir, os.path.splitext(os.path.basename(path))[0], ext)
    if case["kind"] not in ("ic3", "v4") and tool != "vtk" and not clicase.unambiguous(*(clicase.extruded(g, groups, n) if n else (g, groups))):
        # marks are given by nodes: a face may be in two marks, which may be refused
        mon.stat("ambiguous", 1)
        return
    ret, text = logged(fn, argv)
    mon.check("out-place", os.path.exists(want) and os.path.samefile(str(ret), want), f"{ret} instead of {want}")
    if "--info" in opts:  # about the mesh which is written
        h = clicase.extruded(g, groups, n)[0] if n else g
        shown(mon, "info-out", text, len(h.xyz), len(h.cells), h.xyz * np.array(scale or [1.0, 1.0, 1.0]))
    sc = np.array(scale or [1.0, 1.0, 1.0])
    if case["kind"] == "v4":
        return same_v4(mon, path, want, sc)
    if case["kind"] == "ic3":
        return same_ic3(mon, path, want, sc, model)
    if n:
        g, groups = clicase.extruded(g, groups, n)
    xyz = g.xyz * sc
    if tool == "vtk":
        grid = pv.read(want)
        nm = clicase.nodemap(mon, "out-nodes", xyz, np.asarray(grid.points, dtype=float))
        got = sorted((t, tuple(int(nm[k]) for k in nodes)) for t, nodes in grid_cells(grid))
        mon.check("vtu-cells", got == sorted((t, tuple(c)) for t, c in g.cells) or n and same_cells(got, g), lambda: f"cells of the VTU file: {got[:4]}")
        mon.note(np.asarray(grid.points), got)
        brief(mon, r, want)
        return
    F = ic3case.parse(mon, want)
    nm = clicase.nodemap(mon, "out-nodes", xyz, F.xyz)
    faces = {i: (tuple(int(nm[k]) for k in f), lr) for i, (f, lr) in ic3io.facemap(F).items()}
    # cells of the file: numbered by their nodes
    cellnodes = {}
    for f, lr in faces.values():
        for c in lr:
            if c >= 0:
                cellnodes.setdefault(c, set()).update(f)
    bynodes = {frozenset(v): k for k, v in cellnodes.items()}
    ids = np.array([bynodes.get(frozenset(c), -1) for _, c in g.cells])
    mon.check("face-complete", sorted(ids) == list(range(g.ncell)), "cells of the IC3 file")
    rig.check_faces(mon, g, ids, faces, what="converted")
    zones = {z[0]: sorted(sorted(faces[i][0]) for i in range(z[2], z[3] + 1)) for z in F.zones if z[1] != 6}
    allb = {f for f, s in g.facemap().items() if len(s) == 1}
    left = allb - {f for fs in groups.values() for f in fs}
    mon.check("zone-faces", set(groups) <= set(zones) and len(zones) == len(groups) + bool(left), lambda: f"zones {sorted(zones)} expected {sorted(groups)}")
    for name, fs in groups.items():
        mon.check("zone-faces", zones[name] == sorted(map(sorted, set(fs) & allb)), f"zone {name}")
    for z in F.zones:  # there is nothing periodic in these formats
        mon.check("zone-faces", z[1] in (1, 6) and not np.any(z[4]), f"zone {z}")
    mon.note(F.xyz, F.cvofa)


def same_cells(got, g):
    """extruded cells are given up to a rotation"""
    a = sorted((t, tuple(sorted(n))) for t, n in got)
    return a == sorted((t, tuple(sorted(n))) for t, n in g.cells)


def same_ic3(mon, src, out, sc, model):
    F1, F2 = ic3io.parse(src, unknown=True), ic3case.parse(mon, out)
    mon.check("ic3-data", F2.counts == F1.counts, "sizes")
    mon.close("out-nodes", F2.xyz, F1.xyz * sc, 1e-14 * (1 + np.abs(F1.xyz * sc).max()), "coordinates")
    mon.check("face-complete", F2.faces == F1.faces and np.array_equal(F2.cvofa, F1.cvofa), "faces")
    za = [(None if z[1] == 6 else z[0],) + tuple(z[1:4]) for z in F1.zones]
    zb = [(None if z[1] == 6 else z[0],) + tuple(z[1:4]) for z in F2.zones]
    mon.check("zone-faces", za == zb, f"zones {za} {zb}")
    for a, b in zip(F1.zones, F2.zones):
        mon.check("zone-faces", a[1] == 6 or ic3io.same(a[4], b[4]), f"transform of {a[0]}")
    ic3case.check_file_data(mon, F2, model, "converted")
    mon.seen("ic3-data")
    mon.note(F2.xyz, F2.cvofa)


def same_v4(mon, src, out, sc):
    F1, F2 = c11.parse(mon, src, "source"), ic3case.parse(mon, out)
    mon.check("ic3-data", F2.counts[:3] == tuple(F1.counts), "sizes")
    mon.close("out-nodes", F2.xyz, F1.xyz * sc, 1e-14 * (1 + np.abs(F1.xyz * sc).max()), "coordinates")
    mon.check("face-complete", F2.faces == F1.faces and np.array_equal(F2.cvofa, F1.cvofa), "faces")
    za = {(None if z[0] == 6 else n): z[:3] for n, z in F1.zones.items()}
    zb = {(None if z[1] == 6 else z[0]): tuple(z[1:4]) for z in F2.zones}
    mon.check("zone-faces", za == zb, f"zones {za} {zb}")
    mon.note(F2.xyz, F2.cvofa)


def vtk_from_faces(mon, path, args, g):
    """IC3 files hold no cells: there is no VTK result rather than another mesh"""
    before = clicase.snapshot(".")
    try:
        out = cli.cfdwrite_vtk([path] + args)
    except (Exception, SystemExit):
        mon.check("vtk-from-faces", clicase.snapshot(".") == before, "files changed")
        return
    grid = pv.read(out)
    mon.check("vtk-from-faces", grid.n_cells == g.ncell and grid.n_points == g.nnode, f"{grid.n_cells} cells, {grid.n_points} points of {g.ncell}, {g.nnode}")


def shown(mon, what, text, nnode, ncell, xyz):
    tok = tokens(text)
    for name, v in (("nnode", nnode), ("ncell", ncell)):
        mon.check(what, any(a == name and b == str(v) for a, b in zip(tok, tok[1:])), lambda: f"{name} {v} not in {text[:12]}")
    for c in range(3):
        lo, hi = (f"{x:.3f}" for x in (xyz[:, c].min(), xyz[:, c].max()))
        mon.check(what, any(lo in line and hi in line for line in text), lambda: f"bounds {lo} {hi} not in {text[:20]}")


def brief(mon, r, path):
    """information about a VTK file, with data"""
    grid = pv.read(path)
    names = [r.sample(["U", "P_avg", "rho e", "x1", "Q"], r.randint(0, 3)) for _ in range(2)]
    for k in names[0]:
        grid.cell_data[k] = np.zeros(grid.n_cells)
    for k in names[1]:
        grid.point_data[k] = np.zeros((grid.n_points, 3))
    grid.save("brief file.vtu")
    before = clicase.snapshot(".")
    _, text = logged(cli.vtkbrief, ["brief file.vtu"])
    mon.check("brief", clicase.snapshot(".") == before, "information tool changed files")
    tok = tokens(text)
    for name, v in (("ncells", grid.n_cells), ("npoints", grid.n_points)):
        mon.check("brief", any(a == name and b == str(v) for a, b in zip(tok, tok[1:])), lambda: f"{name} {v} not in {text}")
    for c in range(3):
        b = [float(x) for x in grid.bounds[2 * c : 2 * c + 2]]
        lines = [line for line in text if "bounds" in line and "XYZ"[c] in line.upper()]
        got = [float(x) for line in lines for x in re.findall(r"-?\d[\d.]*(?:[eE][-+]?\d+)?", line)]
        mon.check("brief", len(got) == 2 and np.allclose(got, b, rtol=1e-3, atol=1e-12), lambda: f"bounds {b} shown {lines}")
    for where, ns in zip(("cell", "point"), names):
        lines = [line for line in text if where in line and "names" in line]
        for k in ("U", "P_avg", "rho e", "x1", "Q"):
            mon.check("brief", any(f"'{k}'" in line for line in lines) == (k in ns), lambda: f"{where} data {ns} shown {lines}")


def info(mon, r, path, args, g, groups, case):
    opts = args + (["--check"] if r.random() < 0.5 else [])
    before = clicase.snapshot(".")
    ret, text = logged(cli.cfdinfo, [path] + opts)
    mon.check("info", clicase.snapshot(".") == before, "information tool changed files")
    shown(mon, "info", text, g.nnode, g.ncell, g.xyz)
    for name in groups or ():
        mon.check("info", any(name in line for line in text), f"mark {name} not shown")


def headers(mon, path, args):
    """sections of an IC3 file shown in their order, with their sizes"""
    before, out = clicase.snapshot("."), io.StringIO()
    lg = logging.getLogger("cfdtools")
    h, level = logging.StreamHandler(out), lg.level
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    try:
        with contextlib.redirect_stdout(out):
            cli.ic3brief([path] + args)
    finally:
        lg.removeHandler(h)
        lg.setLevel(level)
    mon.check("headers", clicase.snapshot(".") == before, "information tool changed files")
    _, _, secs = ic3io.sections(path, unknown=True)
    text, at = out.getvalue(), 0
    for s in secs:
        if s.code not in ic3io.NAME:
            continue
        m = re.compile(r"(?<![^\s'\"])" + re.escape(s.name) + r"(?![^\s'\",])").search(text, at)
        mon.check("headers", m is not None, lambda: f"section {s.name} is not shown in its place")
        at = m.end()
        if ic3io.NAME[s.code] in ("COUNTS", "NOOFA", "CVOFA", "X_NO", "FA_ZONE", "CV_PART"):
            sizes = [int(x) for x in re.findall(r"(?<![\w.+-])-?\d+(?![\w.])", text[at : at + 600])]
            n = {"COUNTS": 4, "FA_ZONE": 3}.get(ic3io.NAME[s.code], 2)
            want = list(s.idata[:n])
            mon.check("headers", any(sizes[i : i + n] == want for i in range(len(sizes))), lambda: f"sizes {want} of {s.name} not in {text[at:at + 600]!r}")
    mon.stat("sections", len(secs))


def cube(case, mon, r):
    n = [r.choice([1, 2, 3, 4]) for _ in range(3)]
    ext = r.choice([".ic3", ".vtu"])
    name = r.choice(["cube", "c.1", "my cube"]) + ext
    argv, folder = [name], "."
    if r.random() < 0.3:  # sizes which are not given are 10
        for i in r.sample(range(3), r.choice([1, 1, 2])):
            n[i] = None
    opt = [(k, v) for k, v in zip(("--nx", "--ny", "--nz"), n) if v is not None]
    r.shuffle(opt)
    for k, v in opt:
        argv += [k, str(v)]
    n = [10 if v is None else v for v in n]
    if r.random() < 0.5:
        folder = r.choice(["out dir", mon.path("w/out dir/x")])
        argv += ["--outpath", folder]
    if ext == ".ic3" and r.random() < 0.3:
        argv += ["--fmt", "IC3"]
    ret = cli.cfdwritecube(argv)
    want = os.path.join(folder, name)
    mon.check("cube", os.path.exists(want) and os.path.samefile(str(ret), want), f"{ret} instead of {want}")
    ax = [np.linspace(0.0, 1.0, k + 1) for k in n]
    pts = np.array([(x, y, z) for x in ax[0] for y in ax[1] for z in ax[2]])
    nid = lambda i, j, k: (i * (n[1] + 1) + j) * (n[2] + 1) + k
    cells = []
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                b = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
                cells.append(("hexa8", tuple(nid(a, c, k) for a, c in b) + tuple(nid(a, c, k + 1) for a, c in b)))
    g = gen.GMesh(3, pts, cells, {})
    if ext == ".vtu":
        grid = pv.read(want)
        nm = clicase.nodemap(mon, "cube", pts, np.asarray(grid.points, dtype=float))
        mon.check("cube", same_cells([(t, tuple(int(nm[k]) for k in c)) for t, c in grid_cells(grid)], g), "cells")
        mon.check("cube", bool((np.asarray(grid.compute_cell_sizes().cell_data["Volume"]) > 0).all()), "volumes")
        mon.note(np.asarray(grid.points))
        return
    F = ic3case.parse(mon, want)
    nm = clicase.nodemap(mon, "cube", pts, F.xyz)
    faces = {i: (tuple(int(nm[k]) for k in f), lr) for i, (f, lr) in ic3io.facemap(F).items()}
    cellnodes = {}
    for f, lr in faces.values():
        for c in lr:
            if c >= 0:
                cellnodes.setdefault(c, set()).update(f)
    bynodes = {frozenset(v): k for k, v in cellnodes.items()}
    ids = np.array([bynodes.get(frozenset(c), -1) for _, c in g.cells])
    mon.check("cube", sorted(ids) == list(range(g.ncell)), "cells")
    rig.check_faces(mon, g, ids, faces, what="cube")
    side = {}
    for c, (lo, hi) in enumerate((("imin", "imax"), ("jmin", "jmax"), ("kmin", "kmax"))):
        side[lo], side[hi] = (c, 0.0), (c, 1.0)
    zones = {z[0]: [faces[i][0] for i in range(z[2], z[3] + 1)] for z in F.zones if z[1] != 6}
    mon.check("cube", set(zones) == set(side), f"zones {sorted(zones)}")
    for name, fs in zones.items():
        c, v = side[name]
        mon.check("cube", len(fs) == int(np.prod(n)) // n[c] and all(abs(pts[k][c] - v) < 1e-12 for f in fs for k in f), f"zone {name}")
    mon.note(F.xyz, F.cvofa)
