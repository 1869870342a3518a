"""Input files of all formats for the command-line tools, with the model of what they hold."""
import os

import numpy as np
from scipy.spatial import cKDTree

import cfdtools._cli as cli

from vmon import cgnsio, gen, gmshio, ic3io

TOOLS = {"v2": (cli.cfdwrite_ic3v2, ".ic3"), "v3": (cli.cfdwrite_ic3v3, ".ic3"), "vtk": (cli.cfdwrite_vtk, ".vtu")}
FMT = {"gmsh2": ("GMSH", ".msh"), "gmsh4": ("GMSH", ".msh"), "cgns": ("CGNS", ".cgns"), "ic3": ("IC3", ".ic3"), "v4": ("IC3V4", ".h5")}


def source(kind, spec, seed, path):
    """writes the file, returns (mesh, faces of each boundary group)"""
    g = gen.make(spec)
    if kind == "cgns":
        groups, _ = cgnsio.write(path, g, seed)
        return g, {k: [frozenset(f) for f in fs] for k, fs in groups.items()}
    p = gmshio.plan(g, seed, True, 0.0, inner=0.2)
    groups = {x["name"]: [frozenset(f) for _, fs in x["entities"] for f in fs] for x in p["groups"]}
    gmshio.write(path, p, "2.2" if kind == "gmsh2" else "4.1")
    return g, groups


def unambiguous(g, groups):
    """each boundary face whose nodes all belong to the group is in the group (which may have faces inside of the domain)"""
    allb = {f for f, s in g.facemap().items() if len(s) == 1}
    seen = set()
    for fs in groups.values():
        nodes = set().union(*fs)
        clo = {f for f in allb if f <= nodes}
        if clo != set(fs) & allb or clo & seen:
            return False
        seen |= clo
    return True


def extruded(g, groups, n):
    """the 3D mesh made of n layers between z and z+1"""
    nn = g.nnode
    xyz = np.vstack([g.xyz + np.array([0.0, 0.0, k / n]) for k in range(n + 1)])
    cells = []
    for t, nodes in g.cells:
        for k in range(n):
            cells.append(({"tri3": "prism6", "quad4": "hexa8"}[t], tuple(a + k * nn for a in nodes) + tuple(a + (k + 1) * nn for a in nodes)))
    out = {}
    for name, fs in groups.items():
        out[name] = [frozenset([a + k * nn for a in f] + [a + (k + 1) * nn for a in f]) for f in fs for k in range(n)]
    out["fluid0"] = [frozenset(c) for _, c in g.cells]
    out["fluid1"] = [frozenset(a + n * nn for a in c) for _, c in g.cells]
    return gen.GMesh(3, xyz, cells, {}), out


def nodemap(mon, name, want, got):
    """got node -> want node, by position"""
    mon.check(name, got.shape == want.shape, f"{got.shape} points instead of {want.shape}")
    d, i = cKDTree(want).query(got)
    tol = 1e-12 * (1 + np.abs(want).max())
    mon.check(name, bool((d <= tol).all()) and len(set(i.tolist())) == len(want), lambda: f"positions of nodes differ by {d.max()}: bounds {got.min(axis=0)} {got.max(axis=0)} expected {want.min(axis=0)} {want.max(axis=0)}")
    return i


def snapshot(folder):
    """state of all files of a folder"""
    out = {}
    for d, _, files in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            s = os.lstat(p)
            with open(p, "rb") as fid:
                out[p] = (s.st_ino, s.st_mtime_ns, s.st_size, fid.read())
    return out


def safe_name(folder, stem, ext):
    p, i = os.path.join(folder, stem + ext), 0
    while os.path.exists(p):
        i += 1
        p = os.path.join(folder, f"{stem}({i}){ext}")
    return p
