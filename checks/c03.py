"""C03 boundary marks: node marks become face marks, every boundary face in exactly one contiguous mark"""
import random

import numpy as np

import cfdtools.meshbase._connectivity as _conn
import cfdtools.meshbase._mesh as _mesh
from cfdtools.ic3 import writerV2, writerV3, writerV4

from vmon import gen, rig

ID = "C03"
RULE = (
    "random conforming meshes with node marks (sides, groups of sides, some left out) or random face marks, pushed "
    "through face extraction, node-to-face conversion, unmarked collection and reindexing, directly and through the "
    "IC3 writers; distinct by the final mark table"
)
REQUIRED = ["mark-faces", "mark-kept", "unmarked-faces", "range", "cover-once", "face-unique", "overlap-refused", "boundary-adjacency", "face-orientation"]


def cases(tier, rng):
    n = 720 if tier == "quick" else 2200
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 10 == 0
        spec = gen.spec2(rng, 5 if not big else 12) if i % 3 == 0 else gen.spec3(rng, 3 if not big else 6)
        out.append(
            {
                "spec": spec,
                "index": rng.choice(["range", "position", "split"]),
                "seed": rng.randrange(10**6),
                "mode": rng.choice(["sides", "groups", "sides", "faces", "overlap"]),
                "nodes": rng.random() < 0.5,
                "keep": rng.choice([1.0, 1.0, 0.6, 0.0]),
                "via": rng.choice(["api", "api", "v2", "v3", "v4"]),
                "again": rng.choice([0, 0, 1, 2]),
                "named": rng.random() < 0.15,
            }
        )
    return gen.widen(out, rng)


def overlap(case, mon, g, r, allb):
    """marks which share faces, or have the same ones: each holds its faces, others are collected, no numbering is given"""
    fl = sorted(allb, key=sorted)
    marks = {}
    for k in range(r.randint(2, 4)):
        fs = set(r.sample(fl, r.randint(1, len(fl)))) if k == 0 or r.random() < 0.6 else set(r.choice(list(marks.values())))
        nodes = set().union(*fs)
        marks[f"m{k}"] = {f for f in allb if f <= nodes} if case["nodes"] else fs
    m, ids = rig.to_mesh(g, case["index"], case["seed"])
    m.make_face_connectivity()
    where = {frozenset(v[0]): k for k, v in rig.mesh_faces(m).items()}
    for name, fs in marks.items():
        b = _mesh.submeshmark(name)
        b.geodim = "bdnode" if case["nodes"] else "bdface"
        b.type = "boundary"
        idx = sorted(set().union(*fs)) if case["nodes"] else [where[f] for f in sorted(fs, key=sorted)]
        r.shuffle(idx)
        b.index = _conn.indexlist(ilist=idx)
        m.add_boco(b)
    m.bocomarks_set_node_to_face()
    for name, fs in marks.items():
        got = rig.mark_faces(m, name)
        mon.check("mark-faces", len(got) == len(fs) and set(got) == fs, f"mark {name}: {len(got)} faces, expected {len(fs)}")
    left = allb - set().union(*marks.values())
    m.make_unmarked_BC(name="unmarked")
    names = rig.marknames(m)
    mon.check("unmarked-name", ("unmarked" in names) == bool(left) and set(names) - {"unmarked"} == set(marks), f"marks {names}")
    if left:
        got = rig.mark_faces(m, "unmarked")
        mon.check("unmarked-faces", len(got) == len(left) and set(got) == left, f"unmarked holds {len(got)} faces, {len(left)} are in no mark")
    if sum(map(len, marks.values())) + len(left) > len(allb):
        try:
            m.reindex_boundaryfaces()
        except (Exception, SystemExit):
            mon.check("overlap-refused", True)
        else:
            mon.check("overlap-refused", False, "boundary faces of several marks are renumbered")
    mon.stat("mode", "overlap")
    mon.note([sorted(map(sorted, fs)) for fs in marks.values()])


def run(case, mon):
    g = gen.make(case["spec"])
    r = random.Random(case["seed"])
    allb = {f for fs in g.sides.values() for f in fs}
    if case["mode"] == "overlap":
        return overlap(case, mon, g, r, allb)
    if case["mode"] == "faces":
        m, ids = rig.to_mesh(g, case["index"], case["seed"])
        m.make_face_connectivity()
        where = {frozenset(v[0]): k for k, v in rig.mesh_faces(m).items()}
        fl = sorted(allb, key=sorted)
        r.shuffle(fl)
        marks = {}
        while fl and len(marks) < 5:
            k = r.randint(1, len(fl))
            marks[f"m{len(marks)}"] = (set(fl[:k]), None)
            fl = fl[k:]
            if r.random() > case["keep"]:
                break
        for name, (fs, _) in marks.items():
            b = _mesh.submeshmark(name)
            b.geodim = "bdface"
            b.type = "boundary"
            idx = [where[f] for f in sorted(fs, key=sorted)]
            r.shuffle(idx)
            b.index = _conn.indexlist(ilist=idx)
            m.add_boco(b)
    else:
        marks = gen.node_marks(g, case["seed"], case["mode"], case["keep"], empty=0.25)
        m, ids = rig.to_mesh(g, case["index"], case["seed"], marks)
    if case["named"] and marks:  # one has the name of the mark of unmarked faces
        old = r.choice(sorted(marks))
        marks = {("unmarked" if n == old else n): v for n, v in marks.items()}
        b = m.seekmark(old)
        m.remove_boco(old)
        new = _mesh.submeshmark("unmarked")
        new.geodim, new.type, new.index = b.geodim, b.type, b.index
        m.add_boco(new)
        marks["unmarked"] = marks.pop("unmarked")
    if case["via"] == "api":
        if case["mode"] != "faces":
            m.make_face_connectivity()
            m.bocomarks_set_node_to_face()
            for name, (fs, _) in marks.items():
                got = rig.mark_faces(m, name)
                mon.check("mark-faces", len(got) == len(fs) and set(got) == fs, f"mark {name}: {len(got)} faces, expected {len(fs)}")
        m.make_unmarked_BC(name="unmarked")
        m.reindex_boundaryfaces()
    else:
        w = {"v2": writerV2, "v3": writerV3, "v4": writerV4}[case["via"]].writer(m)
        fn = mon.path("out." + ("h5" if case["via"] == "v4" else "ic3"))
        w.write_data(fn)
    faces = rig.mesh_faces(m)
    rig.check_faces(mon, g, ids, faces)
    marked = set().union(*[fs for fs, _ in marks.values()]) if marks else set()
    names = rig.marknames(m)
    table = {}
    for name, (fs, _) in marks.items():
        mon.check("mark-kept", name in names, f"mark {name} lost, have {names}")
        got = rig.mark_faces(m, name)
        mon.check("mark-faces", len(got) == len(fs) and set(got) == fs, f"mark {name}: {len(got)} faces, expected {len(fs)}")
        table[name] = sorted(m.seekmark(name).index.list())
    extra = [n for n in names if n not in marks]
    if case["named"]:
        mon.check("unmarked-name", len(extra) == int(marked != allb), f"extra marks {extra}")
    else:
        mon.check("unmarked-name", extra == (["unmarked"] if marked != allb else []), f"extra marks {extra}")
    if extra:
        got = rig.mark_faces(m, extra[0])
        mon.check("unmarked-faces", len(got) == len(set(got)) and set(got) == allb - marked, f"unmarked holds {len(got)} of {len(allb - marked)}")
        mon.check("unmarked-type", m.seekmark(extra[0]).type == "boundary", m.seekmark(extra[0]).type)
    else:
        mon.seen("unmarked-faces")
    every = []
    for n in names:
        b = m.seekmark(n)
        mon.check("range", b.index.type == "range" and b.facebased(), f"mark {n}: {b.index.type} {b.geodim}")
        lo, hi = b.index.range()
        mon.check("range", b.index.list() == list(range(int(lo), int(hi) + 1)), f"mark {n}")
        every += b.index.list()
    mon.check("cover-once", sorted(every) == list(range(len(allb))), "boundary faces not covered exactly once")
    # marks are removed and the mesh is completed again
    for k in range(case["again"]):
        names = rig.marknames(m)
        for n in r.sample(names, r.randint(1, max(1, len(names) - 1))):
            m.remove_boco(n)
        kept = {n: set(rig.mark_faces(m, n)) for n in rig.marknames(m)}
        left = allb - set().union(*kept.values()) if kept else allb
        if case["via"] == "api":
            m.make_unmarked_BC(name="unmarked")
            m.reindex_boundaryfaces()
        else:
            {"v2": writerV2, "v3": writerV3, "v4": writerV4}[case["via"]].writer(m).write_data(fn)
        names = rig.marknames(m)
        for n, fs in kept.items():
            mon.check("mark-kept", n in names, f"mark {n} lost, have {names}")
            got = rig.mark_faces(m, n)
            mon.check("mark-faces", len(got) == len(fs) and set(got) == fs, f"mark {n}: {len(got)} faces, expected {len(fs)} after marks are removed")
        extra = [n for n in names if n not in kept]
        mon.check("unmarked-name", len(extra) == int(bool(left)), f"extra marks {extra} for {len(left)} faces")
        if extra:
            got = rig.mark_faces(m, extra[0])
            mon.check("unmarked-faces", len(got) == len(left) and set(got) == left, f"{extra[0]} holds {len(got)} of {len(left)}")
        every = [i for n in names for i in m.seekmark(n).index.list()]
        mon.check("cover-once", sorted(every) == list(range(len(allb))), "boundary faces not covered exactly once after marks are removed")
        mon.check("range", all(m.seekmark(n).index.type == "range" for n in names), "marks are no ranges")
        rig.check_faces(mon, g, ids, rig.mesh_faces(m))
    mon.stat("mode", case["mode"] + "/" + case["via"])
    mon.stat("marks", len(names))
    mon.note(sorted(faces.items()), sorted(table.items()))
