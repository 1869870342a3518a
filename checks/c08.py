"""C08 IC3 v2/v3 write and read keep fields, simulation state and averaging weights, bit for bit"""
import os
import random

import numpy as np

import cfdtools.data as _data
from vmon import gen, ic3case, ic3io

ID = "C08"
RULE = (
    "random meshes carrying random scalar/vector/tensor/integer node and cell data (several dof per cell in v3) and "
    "simulation state, written in versions 2/3 and the three byte orders, parsed independently, read back, rewritten; "
    "and the restart files of the repository; distinct by the bytes of the first file"
)
REQUIRED = [
    "well-formed", "file-names", "file-data", "file-ndof", "file-params", "file-weights", "read-names", "read-data",
    "read-ndof", "read-params", "read-weights", "equal-sizes", "long-names",
]  # fmt: skip
DATA = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tests", "data")


def cases(tier, rng):
    n = 660 if tier == "quick" else 2400
    out = []
    for i in range(n):
        spec = gen.spec2(rng, 5) if i % 5 == 0 else gen.spec3(rng, 3 if tier == "quick" or i % 12 else 6)
        if i % 9 == 0:  # as many cells as nodes, or as faces, is a size like another
            spec = {"equal": rng.choice([4, 6, 8]), "dim": 3}
        va = rng.choice([2, 3])
        ndof = rng.choice([1, 1, 2, 4, 8]) if va == 3 else 1
        vb = rng.choice([2, 3]) if ndof == 1 else 3
        out.append(
            {
                "spec": spec,
                "index": rng.choice(["range", "position", "split"]),
                "seed": rng.randrange(10**6),
                "perio": 0.2,
                "part": rng.random() < 0.5,
                "va": va,
                "vb": vb,
                "ndof": ndof,
                "ea": rng.choice(ic3case.ENDIANS),
                "eb": rng.choice(ic3case.ENDIANS),
            }
        )
    for i in range(24 if tier == "quick" else 120):
        out.append({"long": rng.choice(["nodes", "cells", "mark", "weight", "two"]), "spec": gen.spec3(rng, 2), "seed": rng.randrange(10**6), "va": rng.choice([2, 3])})
    for f in ("Box3x3x2v2.ic3", "Box3x3x2v3.ic3", "nrg-tinycube-v2.ic3", "nrg-o1hllc-vf-v3.ic3"):
        for e in ic3case.ENDIANS:
            out.append({"file": f, "eb": e})
    return gen.widen(out, rng)


def run_long(case, mon):
    """a name which the format cannot hold: it is not replaced by another one, which may be the one of another field"""
    r = random.Random(case["seed"])
    m, model = ic3case.make_mesh(dict(case, mode="sides"), data=True, version=case["va"])
    kind = case["long"]
    stem = "".join(r.choice("abcdefgh_ Z.") for _ in range(r.choice([52, 51, 50, 44]))).strip().ljust(52, "x")
    if r.random() < 0.3:
        stem = stem[:26].replace(" ", "é") + "é" * 20 + "y" * 6
    tails = ["1", "2"] if kind == "two" else [r.choice(["1", "12", "_" + "k" * 60])]
    names = [stem + t for t in tails]
    n = {"nodes": m.nnode}.get(kind, m.ncell)
    if kind == "mark":
        old = r.choice(sorted(model["marks"]))
        b = m.seekmark(old)
        m.remove_boco(old)
        new = type(b)(names[0])
        new.geodim, new.type, new.index = b.geodim, b.type, b.index
        m.add_boco(new)
    elif kind == "weight":
        m.update_params({names[0].lower() + "_wgt": 0.5})
    else:
        loc = "nodes" if kind == "nodes" else "cells"
        ds = _data.DataSet("nodal" if loc == "nodes" else "cellaverage")
        for i, k in enumerate(names):
            ds.add_data(k, np.arange(n * (3 if len(names[0]) % 2 else 1), dtype=float).reshape((n, 3) if len(names[0]) % 2 else (n,)) + i)
        (m.set_nodedata if loc == "nodes" else m.set_celldata)(ds)
    f = mon.path("long.ic3")
    mon.seen("long-names")
    mon.note(kind, case["va"], names)
    try:
        ic3case.WRITER[case["va"]](m, "native").write_data(f)
    except Exception as e:
        mon.stat("long names", "refused: " + type(e).__name__)
        return
    F = ic3io.parse(f)
    if kind == "mark":
        got = [z[0] for z in F.zones]
    elif kind == "weight":
        got = [k.lower()[:-4] for k in F.params]
        names = [k.lower() for k in names]
    else:
        got = list(F.data["nodes" if kind == "nodes" else "cells"])
    mon.check("long-names", set(names) <= set(got), lambda: f"{kind} written as {got}, not {names}")


def run(case, mon):
    if "long" in case:
        return run_long(case, mon)
    W = ic3case.WRITER
    f1, f2, f3 = (mon.path(f"f{i}.ic3") for i in range(3))
    if "file" in case:
        src = os.path.join(DATA, case["file"])
        if not os.path.exists(src):
            from vmon.core import Skip

            raise Skip("no such file")
        F1 = ic3io.parse(src)
        model = {
            "nodes": F1.data["nodes"],
            "cells": F1.data["cells"],
            "ndof": max([1] + [F1.ndof[k] for k in F1.data["cells"]]),
            "params": {k: F1.params.get(k.upper(), 0) for k in ("step", "dt", "time")},
            "wgt": {k: v for k, v in F1.params.items() if k.endswith("_WGT")},
        }
        m = ic3case.read(src)
        ic3case.check_mesh_data(mon, m, model, case["file"])
        W[F1.version](m, case["eb"]).write_data(f2)
        ic3case.check_file_data(mon, ic3case.parse(mon, f2), model, case["file"])
        mon.note(case["file"], case["eb"])
        return
    if "equal" in case["spec"]:
        # the same number of cells and nodes
        case = dict(case, spec=equal_spec(case["spec"]["equal"], case["seed"]))
        mon.seen("equal-sizes")
    m, model = ic3case.make_mesh(case, data=True, version=case["va"] if case["vb"] == 3 or case["va"] == 2 else 2)
    W[case["va"]](m, case["ea"]).write_data(f1)
    F1 = ic3case.parse(mon, f1)
    ic3case.check_file_mesh(mon, F1, model)
    ic3case.check_file_data(mon, F1, model)
    for loc, ds in (("nodes", m._nodedata), ("cells", m._celldata)):
        for name, a in model[loc].items():
            mon.check("source-untouched", ic3io.same(ds[name], a), f"{name} modified by the writer")
    m2 = ic3case.read(f1)
    ic3case.check_mesh_data(mon, m2, model)
    W[case["vb"]](m2, case["eb"]).write_data(f2)
    F2 = ic3case.parse(mon, f2, "rewritten")
    ic3case.check_file_data(mon, F2, model, "rewritten")
    m3 = ic3case.read(f2)
    ic3case.check_mesh_data(mon, m3, model, "read again")
    W[case["vb"]](m3, case["eb"]).write_data(f3)
    mon.check("rewrite-bytes", ic3case.filebytes(f2) == ic3case.filebytes(f3), "rewriting is not stable")
    mon.note(ic3case.filebytes(f1))
    for loc in ("nodes", "cells"):
        for a in model[loc].values():
            mon.stat("data", f"{loc} v{case['va']} {a.dtype} {a.shape[1:]}")
    mon.stat("ndof", case["ndof"])
    if F1.counts[0] == F1.counts[2] or F1.counts[1] == F1.counts[2] or F1.counts[0] == F1.counts[1]:
        mon.stat("equal sizes", str(F1.counts[:3]))


def equal_spec(k, seed):
    """2D and 3D meshes where numbers of nodes, faces or cells coincide"""
    if k == 4:  # split hexahedra into tetrahedra: more cells than nodes, look for the equality
        base = {"dim": 3, "kind": "kuhn", "seed": seed, "size": [1, 1, 1], "uniform": True, "jitter": 0, "relabel": True, "permute": True, "shuffle": True}
        # one cube: 8 nodes 6 cells; (a+1)(b+1)(c+1) == 6abc has no small solution: pyramids have
        base["kind"] = "pyra"
        for n in ([1, 1, 1], [1, 1, 2], [1, 2, 2], [2, 2, 2], [1, 1, 3]):
            g = gen.make(dict(base, n=n))
            if g.nnode in (g.ncell, len(g.facemap())):
                return dict(base, n=n)
        base["kind"] = "kuhn"
        return dict(base, n=[1, 1, 1])
    best = None
    for nx in range(1, 5):
        for ny in range(1, 5):
            for kind in ("tri", "mixed", "quad"):
                spec = {"dim": 2, "n": [nx, ny], "kind": kind, "seed": seed, "size": [1, 1, 1], "uniform": True, "jitter": 0, "relabel": True, "permute": True, "shuffle": True, "z": 0.0}
                g = gen.make(spec)
                c = (g.nnode, len(g.facemap()), g.ncell)
                if len(set(c)) < 3:
                    best = spec
                    if (nx + ny + k + seed) % 3 == 0:
                        return spec
    return best
