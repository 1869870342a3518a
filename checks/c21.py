"""C21 removing data removes exactly what is named"""
import contextlib
import io
import os
import random
import re

import numpy as np

import cfdtools._cli as cli

from c09 import ORDERS, build
from c20 import logged
from vmon import core, gen, ic3case, ic3io

ID = "C21"
RULE = (
    "random IC3 files with node, cell and face data converted with lists of names to remove (existing, of the other location, "
    "missing, repeated, all of them, similar names), by the tools and by the API; names and values left in the output compared "
    "with the model; distinct by names and values left"
)
REQUIRED = ["file-names", "file-data", "mesh-kept", "missing-reported", "api-popped", "api-left", "input-untouched"]
NOT = re.compile(r"\b(not|cannot|can't|no|none|missing|unknown|unable|absent|ignored|skipped|fail\w*)\b", re.I)


def cases(tier, rng):
    n = 450 if tier == "quick" else 1500
    return [
        {"spec": gen.spec2(rng, 4) if i % 3 == 0 else gen.spec3(rng, 2), "seed": rng.randrange(10**9), "endian": rng.choice("<>"), "version": rng.choice([2, 3]),
         "ndof": rng.choice([1, 1, 1, 3]), "facedata": rng.random() < 0.3, "api": i % 3 == 0}
        for i in range(n)
    ]  # fmt: skip


def run(case, mon):
    r, g, spec, model = build(case)
    os.chdir(mon.workdir)
    os.makedirs("out")
    # more data, with similar names and the same name at both locations
    n0 = len(spec["data"])
    for name, code in (("P", "CV_D1"), ("P", "NO_D1"), ("P_AVG", "CV_D1"), ("p", "NO_D1"), ("PP", "CV_D3"), ("U", "NO_D3"), ("P,U", "CV_D1"), ("P*", "NO_D1"), ("P U", "CV_D1"), ("P;p", "NO_D3"), ("P[1]", "CV_D1")):
        loc = {"NO": "nodes", "CV": "cells"}[code[:2]]
        if r.random() < 0.5 and name not in model[loc] and not any(d[0] == name for d in spec["data"][:n0]):
            n = g.nnode if loc == "nodes" else g.ncell * model["ndof"]
            a = ic3case.hostile(r, n * (3 if code.endswith("3") else 1))
            a = a.reshape(-1, 3) if code.endswith("3") else a
            spec["data"].append((name, code, a, model["ndof"] if loc == "cells" else 1))
            model[loc][name] = a
    c = r.random()
    if c < 0.2:  # no data at all at one of the locations
        code, loc = ("CV", "cells") if c < 0.12 else ("NO", "nodes")
        spec["data"] = [d for d in spec["data"] if not d[1].startswith(code)]
        model[loc] = {}
    ic3io.write("in.ic3", spec, case["endian"], case["version"], ORDERS[0], True, [r])
    raw = ic3case.filebytes("in.ic3")
    F1 = ic3io.parse("in.ic3", unknown=True)
    names = {loc: list(model[loc]) for loc in ("nodes", "cells")}
    ask = {}
    for loc in ("nodes", "cells"):
        other = names["cells" if loc == "nodes" else "nodes"]
        pool = names[loc] + [n for n in other if n not in names[loc]] + ["NONE", "p", "P_", "AVG", "P AVG", "P,U", "P,p", "P*", "*", "P?", "P[1]", "P;p", "p,P"]
        k = r.choice([0, 1, 1, 2, 4])
        ask[loc] = r.sample(pool, min(k, len(pool)))
        if r.random() < 0.15:
            ask[loc] = list(names[loc])
        if ask[loc] and r.random() < 0.15:
            ask[loc].append(ask[loc][0])
    left = {loc: {k: v for k, v in model[loc].items() if k not in ask[loc]} for loc in names}
    if case["api"]:
        return api(case, mon, r, model, ask, left, F1)
    opts = {"--remove-node-data": ask["nodes"], "--remove-cell-data": ask["cells"]}
    if r.random() < 0.3:
        opts["--remove-face-data"] = r.choice([["x"], [d[0] for d in spec["data"] if d[1].startswith("FA")] or ["y"]])
    argv = []
    keys = [k for k in opts if opts[k]]
    r.shuffle(keys)
    for k in keys:
        argv += [k] + opts[k]
    if r.random() < 0.5 or not argv:
        argv = ["in.ic3", "--outpath", "out"] + argv
    else:
        argv = ["--outpath", "out"] + argv + ["--", "in.ic3"] if r.random() < 0.5 else argv + ["--outpath", "out", "in.ic3"]
    vout = case["version"]
    if model["ndof"] > 1 or any(a.dtype.kind == "i" for loc in left for a in left[loc].values()):
        vout = 3
    ret, text = logged(cli.cfdwrite_ic3v2 if vout == 2 else cli.cfdwrite_ic3v3, argv)
    F = ic3case.parse(mon, ret)
    check(mon, F, F1, left, model)
    for loc in ask:
        missing = [n for n in ask[loc] if n not in model[loc]]
        for n in missing:
            mon.check("missing-reported", any(n in line and NOT.search(line.replace(n, "")) for line in text), f"nothing said about {n!r}")
    if not any(n not in model[loc] for loc in ask for n in ask[loc]):
        mon.seen("missing-reported", 0)
    mon.check("input-untouched", ic3case.filebytes("in.ic3") == raw, "input file modified")
    mon.note(sorted(left["nodes"]), sorted(left["cells"]), raw)


def check(mon, F, F1, left, model):
    mon.check("mesh-kept", F.counts == F1.counts and ic3io.same(F.xyz, F1.xyz) and F.faces == F1.faces and np.array_equal(F.cvofa, F1.cvofa), "mesh changed")
    za = [(None if z[1] == 6 else z[0],) + tuple(z[1:4]) for z in F1.zones]
    zb = [(None if z[1] == 6 else z[0],) + tuple(z[1:4]) for z in F.zones]
    mon.check("mesh-kept", za == zb, f"zones {za} {zb}")
    ic3case.check_file_data(mon, F, {**model, **left}, "output")


def api(case, mon, r, model, ask, left, F1):
    m = ic3case.read("in.ic3")
    m2 = ic3case.read("in.ic3")
    todo = [("nodes", n) for n in ask["nodes"]] + [("cells", n) for n in ask["cells"]]
    r.shuffle(todo)
    present = {loc: dict(model[loc]) for loc in model if loc in ("nodes", "cells")}
    for loc, n in todo:
        got = (m.pop_nodedata if loc == "nodes" else m.pop_celldata)(n)
        ref = present[loc].pop(n, None)
        if ref is None:
            mon.check("api-popped", got is None, f"{n!r} was not in {loc} data")
        else:
            mon.check("api-popped", got is not None and ic3io.same(np.asarray(got), ref), f"{loc} {n!r}: not the removed values")
    ic3case.check_mesh_data(mon, m, {**model, **left}, "after removal")
    mon.seen("api-left")
    ic3case.check_mesh_data(mon, m2, model, "other mesh")
    ic3case.WRITER[3](m).write_data("o.ic3")
    check(mon, ic3case.parse(mon, "o.ic3"), F1, left, model)
    mon.note(sorted(left["nodes"]), sorted(left["cells"]), F1.xyz)
