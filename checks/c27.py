"""C27 modules can be imported first, alone and in any order, and give the same formats and results"""
import json
import os
import random
import subprocess
import sys

ID = "C27"
RULE = (
    "fresh interpreters which import one module, or several in a random order and by several forms of import, then run the same small conversions "
    "(cube, IC3 v2 and v3, extrusion, HDF5, polynomial, elements); results and lists of formats compared between interpreters; distinct by order"
)
REQUIRED = ["import", "silent", "formats", "result", "readable"]

MODULES = [
    "cfdtools", "cfdtools.api", "cfdtools.data", "cfdtools.plot", "cfdtools._cli", "cfdtools.meshbase", "cfdtools.meshbase.simple",
    "cfdtools.meshbase._mesh", "cfdtools.meshbase._connectivity", "cfdtools.meshbase._elements", "cfdtools.ic3", "cfdtools.ic3.reader_legacy",
    "cfdtools.ic3.readerV4", "cfdtools.ic3.writerV2", "cfdtools.ic3.writerV3", "cfdtools.ic3.writerV4", "cfdtools.gmsh", "cfdtools.gmsh.reader", "cfdtools.cgns",
    "cfdtools.hdf5", "cfdtools.vtk", "cfdtools.probes.data", "cfdtools.probes.plot", "cfdtools.physics.dicovar", "cfdtools.utils.polybase", "cfdtools.utils.maths",
]  # fmt: skip

SCRIPT = '''
import importlib, json, sys, os, io, logging
order, forms = json.loads(sys.argv[1])
done = []
for m, form in zip(order, forms):
    if form == 0 or "." not in m:
        importlib.import_module(m)
    elif form == 1:
        exec("import " + m + " as mod")
    else:
        pkg, name = m.rsplit(".", 1)
        exec("from " + pkg + " import " + name)
    done.append(m)
before = os.listdir(".")
out = {"files": before}
if order[0] != "-":
    import hashlib
    import cfdtools._cli as cli
    import cfdtools.api as api
    logging.getLogger("cfdtools").setLevel(logging.CRITICAL)
    out["formats"] = sorted((k, v.get("ext"), v["reader"].__module__ + "." + v["reader"].__name__ if "reader" in v else None, v["writer"].__module__ + "." + v["writer"].__name__ if "writer" in v else None) for k, v in api._fileformat_map.items())
    from cfdtools.meshbase.simple import Cube
    from cfdtools.utils.polybase import poly1d
    import cfdtools.ic3.writerV2 as w2, cfdtools.ic3.writerV3 as w3, cfdtools.ic3.reader_legacy as rl
    import numpy as np
    mesh = Cube(2, 3, 2).export_mesh()
    w2.writer(mesh).write_data("v2.ic3")
    w3.writer(mesh).write_data("v3.ic3")
    r = rl.reader("v3.ic3")
    r.read_data()
    back = r.export_mesh()
    out["sizes"] = [int(back.ncell), int(back.nnode), sorted(back._bocos)]
    out["xyz"] = hashlib.sha1(np.ascontiguousarray(back.nodescoord(ndarray=True)).tobytes()).hexdigest()
    out["poly"] = [float(x) for x in poly1d(3).interp_weights(0.25)]
    cli.cfdwrite_ic3v2(["gm.msh", "--extrude", "2", "--scale", "1", "2", "3"])
    cli.cfdwrite_vtk(["gm.msh"])
    for f in sorted(os.listdir(".")):
        if f.endswith((".ic3", ".vtu")):
            out[f] = hashlib.sha1(open(f, "rb").read()).hexdigest()
json.dump(out, open(sys.argv[2], "w"))
'''


MSH = """$MeshFormat
2.2 0 8
$EndMeshFormat
$PhysicalNames
2
1 1 "sides"
2 3 "fluid"
$EndPhysicalNames
$Nodes
9
1 0 0 0
2 1 0 0
3 2 0 0
4 0 1 0
5 1 1 0
6 2 1 0
7 0 2 0
8 1 2 0
9 2 2 0
$EndNodes
$Elements
12
1 1 2 1 1 1 2
2 1 2 1 1 2 3
3 1 2 1 1 3 6
4 1 2 1 1 6 9
5 1 2 1 1 9 8
6 1 2 1 1 8 7
7 1 2 1 1 7 4
8 1 2 1 1 4 1
9 3 2 3 1 1 2 5 4
10 3 2 3 1 2 3 6 5
11 3 2 3 1 4 5 8 7
12 3 2 3 1 5 6 9 8
$EndElements
"""


def interpreter(order, forms, folder):
    """imports the modules in a fresh interpreter and runs the conversions"""
    os.makedirs(folder)
    with open(os.path.join(folder, "gm.msh"), "w") as f:
        f.write(MSH)
    out = os.path.abspath(folder + ".json")
    env = {k: v for k, v in os.environ.items() if k != "PYTHONDONTWRITEBYTECODE"}  # compiled once, in the scratch folder
    p = subprocess.run([sys.executable, "-c", SCRIPT, json.dumps([order, forms]), out], cwd=folder, capture_output=True, text=True, timeout=200, env=env)
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
    return p, res


def cases(tier, rng):
    ref = os.path.join(os.environ.get("VMON_SCRATCH", "/tmp"), "ref27")
    p, res = interpreter(["cfdtools._cli"], [0], ref)
    return [dict(c, ref=res) for c in orders(tier, rng)]


def orders(tier, rng):
    out = [{"order": [m], "seed": rng.randrange(10**9)} for m in MODULES]
    v4 = ["cfdtools.ic3.readerV4", "cfdtools.ic3.writerV4"]
    out += [{"order": o, "seed": rng.randrange(10**9)} for o in (v4, v4[::-1])]
    for _ in range(14 if tier == "quick" else 300):
        out.append({"order": rng.sample(MODULES, rng.randint(2, len(MODULES))), "seed": rng.randrange(10**9)})
    return out


def run(case, mon):
    r = random.Random(case["seed"])
    order = case["order"]
    forms = [r.randrange(3) for _ in order]
    p, res = interpreter(order, forms, mon.path("run"))
    mon.check("import", p.returncode == 0 and res is not None, lambda: f"import of {order} ({forms}): {p.stderr[-1200:]}")
    mon.check("silent", res["files"] == ["gm.msh"], lambda: f"files {res['files']} after imports")
    mon.check("import", case["ref"] is not None, "reference order fails")
    fmt = {k: (e, rd is not None, wr is not None) for k, e, rd, wr in res["formats"]}
    used = {"cfdtools.ic3.readerV4": "reader", "cfdtools.ic3.writerV4": "writer"}
    v4 = {k for f in res["formats"] if f[0] == "IC3V4" for k, x in (("reader", f[2]), ("writer", f[3])) if x}
    mon.check("formats", {used[m] for m in order if m in used} <= v4, lambda: f"IC3V4 is known as {v4} after imports of {order}")
    for k, want in (("GMSH", (".msh", True)), ("CGNS", (".cgns", True)), ("IC3", (".ic3", True)), ("VTK", (".vtu", False))):
        mon.check("formats", k in fmt and fmt[k][:2] == want, lambda: f"format {k}: {fmt}")
    base = lambda x: [f for f in x["formats"] if f[0] != "IC3V4"]  # known once its module is imported
    mon.check("formats", base(res) == base(case["ref"]), lambda: f"formats {res['formats']} expected {case['ref']['formats']}")
    mon.check("readable", res["sizes"][:2] == [12, 36] and {"imax", "imin", "jmax", "jmin", "kmax", "kmin"} <= set(res["sizes"][2]), lambda: f"{res['sizes']}")
    mon.check("readable", {"gm.ic3", "v2.ic3", "v3.ic3"} <= set(res), lambda: f"{sorted(res)}")
    for k in case["ref"]:
        mon.check("result", k == "formats" or res.get(k) == case["ref"][k], lambda: f"{k}: {res.get(k)} expected {case['ref'][k]}")
    mon.note(order, forms)
