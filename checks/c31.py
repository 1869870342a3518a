"""C31 consistency checks accept sound objects, refuse broken ones, and change nothing"""
import random

import numpy as np

import cfdtools.meshbase._connectivity as _conn
import cfdtools.meshbase._mesh as _mesh

from vmon import gen, rig

ID = "C31"
RULE = (
    "random index rows, connectivity tables and meshes, sound or with one fault (offsets, numbers, sizes, marks, types of marks), checked "
    "twice and compared with copies made before; marks which leave faces out or share some, renumbered; distinct by content"
)
REQUIRED = ["rows-sound", "rows-broken", "table-sound", "table-broken", "mesh-sound", "mesh-broken", "unchanged", "renumber-refused", "renumber-sound"]


def cases(tier, rng):
    n = 900 if tier == "quick" else 6000
    out = []
    for i in range(n):
        kind = ["rows", "table", "mesh", "renumber"][i % 4]
        big = 6 if tier == "thorough" and i % 9 == 0 else 3
        out.append({"kind": kind, "seed": rng.randrange(10**9), "spec": gen.spec2(rng, 2 * big) if i % 3 == 0 else gen.spec3(rng, big), "index": rng.choice(["range", "position", "split"])})
    return out


def verdict(f):
    """does it accept?"""
    try:
        got = f()
    except (Exception, SystemExit):
        return False
    return got is None or bool(got)


def judge(mon, name, f, sound, state, what):
    before = state()
    for k in range(2):
        got = verdict(f)
        mon.check(name, got == sound, lambda: f"{what}: {'accepted' if got else 'refused'} (call {k + 1})")
        after = state()
        mon.check("unchanged", after == before, lambda: f"{what}: changed by a check\n{before}\n{after}"[:900])
    mon.stat(name, what)
    mon.note(what, repr(before))


# ---------------------------------------------------------------- index rows
def rows(case, mon, r):
    n = r.randint(1, 12)
    lens = [r.choice([0, 1, 3, 4, 4, 8]) for _ in range(n)]
    if sum(lens) < 2:
        lens.append(3)
    index = np.concatenate(([0], np.cumsum(lens))).astype(r.choice(["i4", "i8"]))
    value = np.array([r.randrange(100) for _ in range(sum(lens))], dtype=r.choice(["i4", "i8"]))

    def obj(i, v):
        if r.random() < 0.5:
            return _conn.compressed_listofindex(i, v)
        o = _conn.compressed_listofindex(np.array([0, 1]), np.array([5]))
        o.set(i, v)
        return o

    def test(sound, what, i, v):
        i, v = np.array(i), np.array(v)
        o = obj(i, v)
        judge(mon, "rows-sound" if sound else "rows-broken", o.check, sound, lambda: (i.tolist(), v.tolist(), int(o.size)), what)

    test(True, "rows", index, value)
    k = r.randint(1, len(value) - 1)
    test(False, "values missing", index, value[:k])
    test(False, "values left", index, np.concatenate((value, value[:k])))
    first = index.copy()
    first[0] = r.choice([1, -1, 3])
    test(False, "first offset", first, value)
    test(False, "offsets shifted", index + 1, value)
    if len(lens) > 1:
        test(False, "last offset lost", index[: 1 + int(np.searchsorted(index, index[-1])) - 1], value)
    inner = [j for j in range(1, len(index) - 1) if index[j + 1] < len(value)]
    if inner:  # an offset goes back, the extent is right
        bad = index.copy()
        j = r.choice(inner)
        bad[j] = bad[j + 1] + r.randint(1, len(value) - bad[j + 1])
        test(False, "offsets not increasing", bad, value)
    if len(index) > 2:  # before the first one
        bad = index.copy()
        bad[r.randint(1, len(index) - 2)] = -r.randint(1, 3)
        test(False, "negative offset", bad, value)
    bad = index.copy()
    bad[-1] = bad[-1] - 1 if len(index) == 2 or bad[-2] < bad[-1] else bad[-1] + 1
    test(False, "last offset", bad, value)


# ---------------------------------------------------------------- tables
def fill(con, parts):
    for t, rowsof, idx in parts:
        con.add_elems(t, rowsof, None if idx is None else _conn.indexlist(ilist=list(idx)))
    return con


SIZE = {"tri3": 3, "quad4": 4, "hexa8": 8, "prism6": 6, "bar2": 2}


def tstate(con):
    return [(t, [int(i) for i in e["index"].list()], np.asarray(e["elem2node"]).tolist()) for t, e in con.items()], int(con.nelem)


def table(case, mon, r):
    types = r.sample(list(SIZE), r.randint(1, 4))
    num = [r.randint(1, 5) for _ in types]
    n = sum(num)
    perm = list(range(n))
    r.shuffle(perm)

    def test(sound, what, numbers):
        pos, parts = 0, []
        for t, k in zip(types, num):
            parts.append((t, np.array([[r.randrange(50) for _ in range(SIZE[t])] for _ in range(k)]), numbers[pos : pos + k]))
            pos += k
        split = []
        for t, e, idx in parts:  # in one or two times
            if len(e) > 1 and r.random() < 0.4:
                k = r.randint(1, len(e) - 1)
                split += [(t, e[:k], idx[:k]), (t, e[k:], idx[k:])]
            else:
                split.append((t, e, idx))
        if r.random() < 0.5:
            r.shuffle(split)
        con = fill(_conn.elem_connectivity(), split)
        judge(mon, "table-sound" if sound else "table-broken", con.check, sound, lambda: tstate(con), what)

    test(True, "any numbering", perm)
    test(True, "in order", list(range(n)))
    con = fill(_conn.elem_connectivity(), [(t, np.zeros((k, SIZE[t]), dtype=int), None) for t, k in zip(types, num)])
    judge(mon, "table-sound", con.check, True, lambda: tstate(con), "default numbering")
    if n > 1:
        a, b = r.sample(range(n), 2)
        bad = list(perm)
        bad[a] = bad[b]
        test(False, "number twice", bad)
        if n > 2:  # extrema are right
            bad = list(range(n))
            bad[r.randint(1, n - 2)] = r.choice([0, n - 1])
            r.shuffle(bad)
            test(False, "number twice inside", bad)
        if n > 3:  # extrema and total are right
            bad = list(range(n))
            a = r.randint(0, n - 4)
            b = r.randint(a + 3, n - 1)
            bad[a + 1] -= 1
            bad[b - 1] += 1
            if r.random() < 0.5:
                r.shuffle(bad)
            test(False, "numbers twice, same total", bad)
    bad = list(perm)
    bad[bad.index(n - 1)] = n + r.choice([0, 1, 10])
    test(False, "number missing", bad)
    bad = list(perm)
    bad[bad.index(0)] = r.choice([-1, -3])
    test(False, "negative number", bad)
    test(False, "from one", [i + 1 for i in perm])
    # more or less numbers than elements
    t = types[0]
    k = r.choice([-1, 1]) if num[0] > 1 else 1
    con = fill(_conn.elem_connectivity(), [(t, np.zeros((num[0], SIZE[t]), dtype=int), list(range(num[0] + k)))])
    judge(mon, "table-broken", con.check, False, lambda: tstate(con), "numbers and elements")


# ---------------------------------------------------------------- meshes
def mstate(m):
    marks = [(n, b.geodim, dict(b.properties).get("type"), b.index.type, [int(i) for i in b.index.list()]) for n, b in m._bocos.items()]
    faces = []
    for t, f in m._faces.items():
        c = f["face2cell"]
        faces.append((t, tstate(f["face2node"]), None if c is None else np.asarray(c.conn).tolist()))
    cells = None if m._cell2node is None else tstate(m._cell2node)
    return m.ncell, m.nnode, int(m.nface), marks, faces, cells, sorted(m._params), m.nodescoord(ndarray=True).tolist() if m._nodes else None


def marked(case, r, keep=1.0, nodes=False, share=False):
    """a mesh whose faces are extracted and its marks, given by faces"""
    g = gen.make(case["spec"])
    m, ids = rig.to_mesh(g, case["index"], case["seed"])
    m.make_face_connectivity()
    every = [int(i) for i in m._faces["boundary"]["face2node"].all_index()]
    r.shuffle(every)
    held = every[: max(1, int(keep * len(every)))] if keep < 1.0 else every
    if keep < 1.0 and len(held) == len(every):
        held = held[:-1]
    cuts = sorted(r.sample(range(1, len(held)), min(len(held) - 1, r.randint(0, 4)))) if len(held) > 1 else []
    for k, (a, b) in enumerate(zip([0] + cuts, cuts + [len(held)])):
        mark = _mesh.submeshmark(f"m{k}")
        mark.geodim, mark.type = "bdface", r.choice(["boundary", "perio_cart"])
        idx = held[a:b]
        if share and k == 0:
            idx = idx + [r.choice([i for i in every if i not in idx] or idx)]
        mark.index = _conn.indexlist(ilist=list(idx))
        m.add_boco(mark)
    return g, m, every, held


def mesh(case, mon, r):
    g = gen.make(case["spec"])
    m, ids = rig.to_mesh(g, case["index"], case["seed"], gen.node_marks(g, case["seed"]))
    judge(mon, "mesh-sound", m.check, True, lambda: mstate(m), "cells and marks of nodes")
    m1 = rig.to_mesh(g, case["index"], case["seed"])[0]
    judge(mon, "mesh-sound", m1.check, True, lambda: mstate(m1), "cells only")
    # numbers of cells
    m1._cell2node.add_elems("tri3", np.array([[0, 1, 2]]))
    judge(mon, "mesh-broken", m1.check, False, lambda: mstate(m1), "cells added after")
    for nc, nn in ((0, 5), (3, 0), (0, 0), (-1, 4)):
        m2 = _mesh.Mesh(ncell=nc, nnode=nn)
        judge(mon, "mesh-broken", m2.check, False, lambda: mstate(m2), "no cells or nodes")
    # marks and faces
    _, m3, every, _ = marked(case, r)
    judge(mon, "mesh-sound", m3.check, True, lambda: mstate(m3), "every face marked")
    for keep in (0.5, r.random(), 0.99):
        if len(every) > 1:
            _, m4, _, _ = marked(case, r, keep=keep)
            judge(mon, "mesh-broken", m4.check, False, lambda: mstate(m4), "faces without mark")
    m5 = rig.to_mesh(g, case["index"], case["seed"])[0]
    m5.make_face_connectivity()
    judge(mon, "mesh-broken", m5.check, False, lambda: mstate(m5), "faces without any mark")
    m.make_face_connectivity()
    if m._bocos:
        judge(mon, "mesh-broken", m.check, False, lambda: mstate(m), "marks of nodes on extracted faces")


def renumber(case, mon, r):
    _, m, every, held = marked(case, r, keep=r.choice([0.3, 0.7, 0.99]))
    if len(every) > 1 and r.random() < 0.5:  # marks hold the first faces only
        for n in list(m._bocos):
            m.remove_boco(n)
        k = r.randint(1, len(every) - 1)
        first = list(range(k))
        r.shuffle(first)
        for j, part in enumerate((first[: k // 2], first[k // 2 :])):
            if part:
                b = _mesh.submeshmark(f"p{j}")
                b.geodim, b.type = "bdface", "boundary"
                b.index = _conn.indexlist(ilist=part)
                m.add_boco(b)
    judge(mon, "renumber-refused", m.reindex_boundaryfaces, False, lambda: mstate(m), "faces without mark")
    _, m, every, held = marked(case, r, share=True)
    if sum(len(b.index.list()) for b in m._bocos.values()) > len(every):
        judge(mon, "renumber-refused", m.reindex_boundaryfaces, False, lambda: mstate(m), "faces of several marks")
    g = gen.make(case["spec"])
    m, _ = rig.to_mesh(g, case["index"], case["seed"], gen.node_marks(g, case["seed"]))
    judge(mon, "renumber-refused", m.reindex_boundaryfaces, False, lambda: mstate(m), "no faces")
    m.make_face_connectivity()
    if m._bocos:
        judge(mon, "renumber-refused", m.reindex_boundaryfaces, False, lambda: mstate(m), "marks of nodes")
    _, m, every, _ = marked(case, r)
    mon.check("renumber-sound", verdict(m.reindex_boundaryfaces) and verdict(m.check), "sound marks are refused")


def run(case, mon):
    r = random.Random(case["seed"])
    {"rows": rows, "table": table, "mesh": mesh, "renumber": renumber}[case["kind"]](case, mon, r)
