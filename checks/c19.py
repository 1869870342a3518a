"""C19 tools never change an existing file: inputs and former outputs are left as they are, results take a free name"""
import os
import random

import numpy as np

import cfdtools._cli as cli

import c11
from c09 import ORDERS, build
from c16 import write as vtkwrite
from vmon import clicase, gen, ic3io

ID = "C19"
RULE = (
    "random histories of command-line tools (conversions, packing, information, failing ones) run in folders holding inputs and "
    "files with the names of the outputs; all files are recorded (content, inode, date) before and after each command; distinct by "
    "the sequence of commands and names"
)
REQUIRED = ["untouched", "one-new-file", "free-name", "info-writes-nothing", "failure-writes-nothing"]


def cases(tier, rng):
    n = 270 if tier == "quick" else 900
    return [{"seed": rng.randrange(10**9), "nrun": rng.choice([3, 5, 7] if tier == "quick" else [5, 9, 14])} for _ in range(n)]


STEMS = ["mesh", "mesh.v1", "my mesh", "mesh(1)", "a.b.c"]


def make_input(r, mon, folder):
    kind = r.choice(["gmsh2", "gmsh4", "cgns", "ic3", "ic3", "v4"])
    spec = gen.spec2(r, 2) if r.random() < 0.5 else gen.spec3(r, 1, kinds=["hex", "tet", "prism"])
    spec["jitter"] = 0.05
    fmt, ext = clicase.FMT[kind]
    args = []
    if r.random() < 0.2:
        ext, args = r.choice([".dat", ".vtu", ".h5", ".ic3"]), ["--fmt", fmt]
    path = os.path.join(folder, r.choice(STEMS) + ext)
    if os.path.exists(path):
        return None
    case = {"seed": r.randrange(10**9), "spec": spec, "version": r.choice([2, 3]), "ndof": 1, "facedata": False}
    if kind == "ic3":
        rr, g, fspec, _ = build(case)
        ic3io.write(path, fspec, "<", case["version"], ORDERS[0], True, [rr])
    elif kind == "v4":
        os.replace(c11.foreign({**case, "sol": False}, mon, r)[0], path)
        g = gen.make(spec)
    else:
        g, groups = clicase.source(kind, spec, case["seed"], path)
        if not clicase.unambiguous(g, groups):
            os.unlink(path)
            return None
    # the input may be the only copy
    return dict(path=path, kind=kind, args=args, g=g)


def run(case, mon):
    r = random.Random(case["seed"])
    top = mon.path("top")
    for d in ("w", "in", "w/out", "other", "w/v1.", "w/res.ic3", "w/..."):
        os.makedirs(os.path.join(top, d))
    os.chdir(os.path.join(top, "w"))
    inputs = []
    while len(inputs) < 3:
        x = make_input(r, mon, r.choice([".", ".", "../in", "out", os.path.join(top, "in")]))
        if x:
            inputs.append(x)
    vtks = []
    g = gen.make(gen.spec2(r, 2))
    for i in range(2):
        p = f"../in/f{i}.vtu"
        vtkwrite(p, g, list(range(g.ncell)), {"P": np.arange(g.ncell) + float(i)}, None)
        vtks.append(p)
    # files of somebody else which hold the names
    for _ in range(r.randint(0, 5)):
        x = r.choice(inputs)
        stem = os.path.splitext(os.path.basename(x["path"]))[0]
        p = os.path.join(r.choice([".", "out", "../other"]), stem + r.choice(["", "(1)", "(2)"]) + r.choice([".ic3", ".vtu"]))
        if not os.path.exists(p):
            if r.random() < 0.15:
                os.makedirs(p)
            else:
                open(p, "wb").write(os.urandom(r.choice([0, 7, 300])))
    if r.random() < 0.5:
        open("dumped.h5", "wb").write(b"precious")
    if r.random() < 0.2:
        open("dumped(1).h5", "wb").write(b"precious too")
    for ext in (".ic3", ".cgns", ".msh"):
        if r.random() < 0.6:
            x = [i for i in inputs if i["path"].endswith(ext) and not i["args"]]
            data = open(x[0]["path"], "rb").read() if x and ext != ".msh" else os.urandom(2000)
            open(os.path.join("..", "other", "broken" + ext), "wb").write(data[: r.randrange(len(data) - 4)])
    for step in range(case["nrun"]):
        what = r.choice(["convert", "convert", "convert", "pack", "info", "fail"])
        before = clicase.snapshot(top)
        dirs = {d for d, _, _ in os.walk(top)}
        want = ret = None
        mon.stat("command", what)
        if what == "convert":
            x = r.choice(inputs)
            tool = r.choice(["v3", "vtk"]) if x["kind"] not in ("ic3", "v4") else "v3"
            fn, ext = clicase.TOOLS[tool]
            outdir, opts = ".", list(x["args"])
            if r.random() < 0.6:
                outdir = r.choice(["out", "../other", os.path.join(top, "other"), os.path.dirname(x["path"]) or "."])
                if r.random() < 0.4:  # names made of dots and with extensions
                    outdir = r.choice(["..", ".", "./", "../", "out/..", "out/", "v1.", "res.ic3", "...", "../w/out/."])
                opts += ["--outpath", outdir]
            if r.random() < 0.3:
                opts += ["--scale", "1", "2", "0.5"]
            if r.random() < 0.2:
                opts += ["--info"]
            want = clicase.safe_name(outdir, os.path.splitext(os.path.basename(x["path"]))[0], ext)
            ret = fn([x["path"]] + opts)
            mon.note(tool, os.path.relpath(want, top))
        elif what == "pack":
            want = clicase.safe_name(".", "dumped", ".h5")
            ret = cli.vtkpack(list(vtks))
            mon.note("pack", want)
        elif what == "info":
            x = r.choice(inputs)
            if x["kind"] == "ic3" and r.random() < 0.5:
                cli.ic3brief([x["path"]])
            elif r.random() < 0.3:
                cli.vtkbrief([r.choice(vtks)])
            else:
                cli.cfdinfo([x["path"]] + x["args"])
        else:
            failing(r, mon, inputs, vtks)
        after = clicase.snapshot(top)
        if what in ("info", "fail"):
            name = "info-writes-nothing" if what == "info" else "failure-writes-nothing"
            mon.check(name, after == before and {d for d, _, _ in os.walk(top)} == dirs, lambda: f"{what}: files before {sorted(before)} after {sorted(after)}")
        changed = [p for p in before if after.get(p) != before[p]]
        mon.check("untouched", not changed, f"{what}: existing files changed or removed: {changed}")
        if want is not None:
            new = sorted(set(after) - set(before))
            mon.check("one-new-file", len(new) == 1, f"{what}: new files {new}")
            mon.check("free-name", os.path.samefile(new[0], want) and os.path.samefile(str(ret), want), f"{what}: {new[0]}, {ret} instead of {want}")


def failing(r, mon, inputs, vtks):
    x = r.choice(inputs)
    how = r.choice(["nofile", "nofmt", "garbage", "badopt", "packmissing", "nofolder", "badscale", "packother"])
    mon.stat("failure", how)
    bad = os.path.join("..", "other", "broken" + r.choice([".ic3", ".cgns", ".msh"]))
    if how == "garbage":
        if not os.path.exists(bad):
            return
        argv = [bad]
    tools = [cli.cfdwrite_ic3v2, cli.cfdwrite_ic3v3, cli.cfdwrite_vtk]
    fn = r.choice(tools)
    if how == "nofile":
        argv = ["../in/none" + r.choice([".ic3", ".msh", ".cgns", ".h5"])]
    elif how == "nofmt":
        argv = [r.choice(vtks)] if r.random() < 0.5 else ["none.xyz"]
    elif how == "badopt":
        argv = [x["path"], "--fmt", "NASTRAN"]
    elif how == "packmissing":
        fn, argv = cli.vtkpack, vtks + ["../in/f7.vtu"]
    elif how == "packother":
        fn, argv = cli.vtkpack, [vtks[0], x["path"]]
    elif how == "nofolder":
        fn, argv = r.choice([cli.cfdwrite_ic3v2, cli.cfdwrite_ic3v3]), [x["path"]] + x["args"] + ["--outpath", "none/at/all"]
    elif how == "badscale":
        argv = [x["path"]] + x["args"] + ["--scale", "1", "two", "3"]
    try:
        fn(argv)
    except (Exception, SystemExit):
        return
    mon.check("failure-writes-nothing", False, f"{how}: {argv} accepted")
