"""C09 IC3 files written by somebody else are read for what they hold"""
import contextlib
import io
import random

import numpy as np

import cfdtools._cli as cli

from vmon import gen, ic3case, ic3io

ID = "C09"
RULE = (
    "IC3 v2/v3 files written by an independent writer (both byte orders, sections in several orders, with or without check "
    "sections, unknown sections, face data, interleaved parameters and data, several dof) read, listed by the header tool, "
    "and converted; distinct by the bytes of the file"
)
REQUIRED = [
    "read-xyz", "read-faces", "read-zones", "read-zonekind", "read-periodic", "read-part", "read-data", "read-params",
    "read-ndof", "well-formed", "convert-mesh", "file-data", "headers-listed", "foreign-section", "huge-section",
]  # fmt: skip


def cases(tier, rng):
    n = 510 if tier == "quick" else 1800
    out = []
    for i in range(n):
        out.append(
            {
                "spec": gen.spec2(rng, 5) if i % 4 == 0 else gen.spec3(rng, 3 if tier == "quick" or i % 10 else 6),
                "seed": rng.randrange(10**6),
                "endian": rng.choice("<>"),
                "version": rng.choice([2, 3]),
                "ndof": rng.choice([1, 1, 2, 5]),
                "checks": rng.random() < 0.7,
                "order": rng.randrange(5),
                "anyzone": rng.random() < 0.3,
                "images": i % 3 == 0,
                "emptyzone": i % 7 == 0,
                "extra": rng.random() < 0.4,
                "facedata": rng.random() < 0.4,
                "huge": i % 40 == 0,
                "out": rng.choice([2, 3]),
                "eout": rng.choice(ic3case.ENDIANS),
            }
        )
    return gen.widen(out, rng)


def build(case):
    """the file contents"""
    r = random.Random(case["seed"])
    g = gen.make(case["spec"])
    fm = g.facemap()
    zones, faces, cvofa = [], [], []
    marks = list(gen.node_marks(g, case["seed"], r.choice(["sides", "groups"])).items())
    left = {f for f, s in fm.items() if len(s) == 1}
    groups = []
    for name, (fs, _) in marks:
        groups.append((name, list(fs)))
        left -= set(fs)
    if left:
        groups.append(("rest", list(left)))
    r.shuffle(groups)
    for name, fs in groups:
        fs = sorted(fs, key=sorted)
        r.shuffle(fs)
        kind = r.choice([1, 1, 1, 2, 3, 4, 5])
        zones.append((name, kind, len(faces), len(faces) + len(fs) - 1, ic3case.hostile(r, 16).tolist() if kind != 1 and r.random() < 0.8 else [0.0] * 16))
        for f in fs:
            c, o = fm[f][0]
            faces.append(o)
            # in the files of the solver a periodic face knows its image as a negative number
            cvofa.append((c, -1 if kind == 1 or not case.get("images") else -2 - r.randrange(50)))
    inner = sorted((f for f, s in fm.items() if len(s) == 2), key=sorted)
    r.shuffle(inner)
    for f in inner:
        (a, oa), (b, ob) = fm[f]
        if r.random() < 0.5:
            a, b, oa = b, a, ob
        faces.append(oa)
        cvofa.append((a, b))
    if case.get("emptyzone"):
        k = r.choice([0, len(faces) - len(inner)] + [z[2] for z in zones])
        zones.append(("no face", 1, k, k - 1, [0.0] * 16))
    zones.append(("internal", 6, len(faces) - len(inner), len(faces) - 1, [0.0] * 16))
    if case.get("anyzone") and len(inner) > 1 and r.random() < 0.5:  # several internal zones
        k = len(faces) - r.randint(1, len(inner) - 1)
        zones[-1:] = [("fluid", 6) + (zones[-1][2], k - 1, [0.0] * 16), ("solid", 6) + (k, len(faces) - 1, [0.0] * 16)]
    if case.get("anyzone"):  # zones are not listed in the order of faces
        r.shuffle(zones)
    npart = r.randint(1, 4)
    ndof = case["ndof"] if case["version"] == 3 else 1
    data, model = [], {"nodes": {}, "cells": {}, "ndof": ndof, "faces": {}}
    used = set()
    for _ in range(r.randint(0, 7)):
        code = r.choice(["NO_D1", "NO_D3", "NO_II1", "CV_D1", "CV_D3", "CV_D33", "CV_II1"] + (["FA_D1", "FA_D3", "FA_II1"] * 2 if case["facedata"] else []))
        loc = {"NO": "nodes", "CV": "cells", "FA": "faces"}[code[:2]]
        n = {"NO": g.nnode, "CV": g.ncell * ndof, "FA": len(faces)}[code[:2]]
        name = ic3case.varname(r, used)
        typ = code.split("_")[1]
        if typ == "II1":
            a = np.array([r.choice([0, -1, 2**61, r.randrange(10**6)]) for _ in range(n)], dtype=np.int64)
        else:
            a = ic3case.hostile(r, n * {"D1": 1, "D3": 3, "D33": 9}[typ])
            a = a.reshape({"D1": (-1,), "D3": (-1, 3), "D33": (-1, 3, 3)}[typ])
        data.append((name, code, a, ndof if code[:2] == "CV" else 1))
        if code != "FA_II1":  # integers on faces are not read
            model[loc][name] = a
    params = [("STEP", r.choice([0, 7, 2**33])), ("DT", abs(float(ic3case.hostile(r, 1)[0]))), ("TIME", float(ic3case.hostile(r, 1)[0]))]
    model["wgt"] = {}
    for k in ("RHO_WGT", "STATS_WGT"):
        if r.random() < 0.5:
            v = float(ic3case.hostile(r, 1)[0])
            params.append((k, v))
            model["wgt"][k] = v
    r.shuffle(params)
    params = [p for p in params if r.random() < 0.9 or p[0].endswith("WGT")]
    model["params"] = {k: dict(params).get(k.upper(), 0) for k in ("step", "dt", "time")}
    spec = dict(
        xyz=g.xyz, faces=faces, cvofa=cvofa, ncv=g.ncell, zones=zones, npart=npart,
        part=[r.randrange(npart) for _ in range(g.ncell)], params=params, data=data,
    )  # fmt: skip
    return r, g, spec, model


ORDERS = [
    ["checks", "noofa", "cvofa", "zones", "part", "xyz", "head", "params", "data"],
    ["checks", "noofa", "cvofa", "zones", "part", "xyz", "head", "mixed"],
    ["noofa", "cvofa", "zones", "part", "xyz", "checks", "head", "data", "params"],
    ["xyz", "part", "checks", "noofa", "cvofa", "zones", "head", "mixed"],
    ["xyz", "zones", "part", "cvofa", "noofa", "head", "mixed", "checks"],
]


def run(case, mon):
    r, g, spec, model = build(case)
    f1, f2 = mon.path("foreign.ic3"), mon.path("out.ic3")
    order = list(ORDERS[case["order"]])
    if case["extra"]:
        for _ in range(r.randint(1, 3)):
            order.insert(r.randint(0, len(order)), "extra")
            mon.seen("foreign-section")
    if case["facedata"]:
        mon.seen("foreign-section")
    ic3io.write(f1, spec, case["endian"], case["version"], order, case["checks"], [r])
    F1 = ic3io.parse(f1, unknown=True)
    before = ic3case.filebytes(f1)
    huge = case.get("huge", False)
    if huge:  # the same file with a very large section (a hole) to skip
        order.insert(r.randint(0, len(order)), "huge")
        if "mixed" in order:
            order[order.index("mixed")] = "data"
            order.insert(order.index("data"), "params")
        ic3io.write(f1, spec, case["endian"], case["version"], order, case["checks"], [r])
        mon.seen("huge-section")
    reader, m = ic3case.read(f1, check=r.random() < 0.5, both=True)
    ic3case.check_mesh_is_file(mon, m, F1, "foreign")
    ic3case.check_mesh_data(mon, m, model, "foreign")
    for key, want in (("nfa_b", int((F1.cvofa[:, 1] == -1).sum())), ("nfa_bp", int((F1.cvofa[:, 1] < -1).sum()))):
        val = getattr(reader, "mesh", {}).get("params", {}).get(key)
        if val is not None:  # numbers of boundary faces, periodic ones apart
            mon.check("read-params", int(val) == want, lambda: f"{key} {val} expected {want}")
    got = getattr(reader, "variables", {}).get("faces")
    if got is not None:  # face data stay with the reader
        mon.check("face-data", set(got) == set(model["faces"]), lambda: f"face data {sorted(got)} expected {sorted(model['faces'])}")
        for name, a in model["faces"].items():
            v = np.asarray(got[name])
            mon.check("face-data", ic3io.same(v, a), lambda: f"face data {name} {v.shape} differ from {a.shape}")
    if not huge:
        mon.check("source-untouched", ic3case.filebytes(f1) == before, "input file modified")
    # headers
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        cli.ic3brief([f1])
    names = [line.split(":", 1)[1].strip() for line in buf.getvalue().splitlines() if line.startswith("Name")]
    want = [s.name for s in F1.sections if s.code in ic3io.NAME]
    if huge:  # parameters and data may be in another order
        names, want = sorted(names), sorted(w.strip() for w in want)
    mon.check("headers-listed", names == [w.strip() for w in want], lambda: f"sections listed {names} expected {want}")
    # conversion
    vout = case["out"] if model["ndof"] == 1 and not any(a.dtype.kind == "i" for l in ("nodes", "cells") for a in model[l].values()) else 3
    ic3case.WRITER[vout](m, case["eout"]).write_data(f2)
    F2 = ic3case.parse(mon, f2, "converted")
    mon.check("convert-mesh", F2.counts == F1.counts and ic3io.same(F2.xyz, F1.xyz), "sizes or coordinates")
    mon.check("convert-mesh", F2.faces == F1.faces and np.array_equal(F2.cvofa, F1.cvofa), "faces")
    za, zb = (sorted((z for z in F.zones if z[1] != 6), key=lambda z: z[2:4]) for F in (F1, F2))
    mon.check("convert-mesh", [z[:4] for z in za] == [z[:4] for z in zb], f"zones {za} {zb}")
    mon.check("convert-mesh", all(ic3io.same(a[4], b[4]) for a, b in zip(za, zb)), "transforms")
    ia, ib = (sorted(i for z in F.zones if z[1] == 6 for i in range(z[2], z[3] + 1)) for F in (F1, F2))
    mon.check("convert-mesh", ia == ib, "internal faces")
    mon.check("convert-mesh", F1.npart == F2.npart and np.array_equal(F1.part, F2.part), "partition")
    ic3case.check_file_data(mon, F2, model, "converted")
    mon.stat("order", case["order"])
    mon.stat("format", f"v{case['version']}{case['endian']}")
    mon.note(before)
