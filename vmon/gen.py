"""Generators of conforming meshes, independent of cfdtools.

A GMesh is described by coordinates and, per cell, (type, nodes); from it the
reference face map and geometric quantities are computed with tables written
here from the definition of the elements (not taken from the code under test).
"""
import random

import numpy as np

NNODE = {"tri3": 3, "quad4": 4, "tetra4": 4, "pyra5": 5, "prism6": 6, "hexa8": 8, "bar2": 2}
FACES = {
    "tri3": [(0, 1), (1, 2), (2, 0)],
    "quad4": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "tetra4": [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
    "pyra5": [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    "prism6": [(0, 2, 1), (3, 4, 5), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5)],
    "hexa8": [(0, 3, 2, 1), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)],
}
FACETYPE = {2: "bar2", 3: "tri3", 4: "quad4"}

# orientation preserving relabelings (generators) of each element
_SYM = {
    "tri3": [(1, 2, 0)],
    "quad4": [(1, 2, 3, 0)],
    "tetra4": [(1, 2, 0, 3), (0, 2, 3, 1)],
    "pyra5": [(1, 2, 3, 0, 4)],
    "prism6": [(1, 2, 0, 4, 5, 3), (4, 3, 5, 1, 0, 2)],
    "hexa8": [(1, 2, 3, 0, 5, 6, 7, 4), (3, 2, 6, 7, 0, 1, 5, 4)],
}


class GMesh:
    """cells: list of (type, tuple of node ids); sides: dict name -> list of faces (tuples)"""

    def __init__(self, dim, xyz, cells, sides):
        self.dim, self.xyz, self.cells, self.sides = dim, xyz, cells, sides

    @property
    def nnode(self):
        return len(self.xyz)

    @property
    def ncell(self):
        return len(self.cells)

    def by_type(self):
        """type -> (list of cell positions, connectivity array)"""
        out = {}
        for i, (t, nodes) in enumerate(self.cells):
            out.setdefault(t, ([], []))
            out[t][0].append(i)
            out[t][1].append(nodes)
        return {t: (ids, np.array(c, dtype=np.int64)) for t, (ids, c) in out.items()}

    def facemap(self):
        """frozenset(nodes) -> list of (cell, ordered nodes as seen from that cell, outward)"""
        fm = {}
        for i, (t, nodes) in enumerate(self.cells):
            for f in FACES[t]:
                o = tuple(nodes[k] for k in f)
                fm.setdefault(frozenset(o), []).append((i, o))
        return fm

    def types(self):
        return sorted({t for t, _ in self.cells})


def _cross(a, b):
    return np.array((a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]))


def face_area_vector(xyz, face):
    p = xyz[list(face)]
    if len(face) == 3:
        return 0.5 * _cross((p[1] - p[0]).tolist(), (p[2] - p[0]).tolist())
    if len(face) == 4:
        return 0.5 * _cross((p[2] - p[0]).tolist(), (p[3] - p[1]).tolist())
    raise ValueError(len(face))


def _triple(a, b, c):
    """a.(b x c)/6, of vectors or of arrays of vectors (components first)"""
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0])) / 6.0


def _flux(p):
    if len(p) == 3:
        return _triple(*p)
    return 0.5 * (_triple(p[0], p[1], p[2]) + _triple(p[0], p[2], p[3]) + _triple(p[0], p[1], p[3]) + _triple(p[1], p[2], p[3]))


def face_volume_flux(xyz, face):
    """(1/3) int x.n over the face; a quadrangle is the average of its two triangulations,
    so the value only depends on the node cycle, and flips with it"""
    return _flux(xyz[list(face)].tolist())


def cell_volumes(g):
    vol = np.zeros(g.ncell)
    if g.dim == 3:
        for t, (pos, nodes) in g.by_type().items():
            loc = g.xyz[nodes]
            loc = np.moveaxis(loc - loc.mean(axis=1, keepdims=True), 0, 2)  # node, component, cell
            vol[pos] = sum(_flux([loc[k] for k in f]) for f in FACES[t])
    else:
        for i, (t, nodes) in enumerate(g.cells):
            v = face_area_vector(g.xyz, nodes)
            vol[i] = np.linalg.norm(v)
    return vol


def _spacing(n, r, uniform):
    if uniform:
        return np.linspace(0.0, 1.0, n + 1)
    d = np.array([r.uniform(0.5, 1.5) for _ in range(n)])
    x = np.concatenate(([0.0], np.cumsum(d)))
    return x / x[-1]


def structured3d(spec):
    """spec: nx ny nz, kind in hex/prism/pyra/tet/kuhn/mixed, jitter, uniform, seed,
    periodic nothing; returns a GMesh with sides imin..kmax"""
    r = random.Random(spec["seed"])
    nx, ny, nz = spec["n"]
    kind = spec["kind"]
    L = spec.get("size", [1.0, 1.0, 1.0])
    gx, gy, gz = (_spacing(n, r, spec.get("uniform", False)) * l for n, l in zip((nx, ny, nz), L))
    h = min(np.diff(gx).min(), np.diff(gy).min(), np.diff(gz).min())
    jit = spec.get("jitter", 0.12) * h

    def nid(i, j, k):
        return i + (nx + 1) * (j + (ny + 1) * k)

    xyz = []
    for k in range(nz + 1):
        for j in range(ny + 1):
            for i in range(nx + 1):
                xyz.append(
                    [gx[i] + r.uniform(-jit, jit), gy[j] + r.uniform(-jit, jit), gz[k] + r.uniform(-jit, jit)]
                )
    cells = []
    decided = {}  # frozenset of 4 corner nodes -> None (quad) or the pair of nodes of its diagonal
    boxes = [(i, j, k) for k in range(nz) for j in range(ny) for i in range(nx)]

    def corners(i, j, k):
        return [
            nid(i, j, k), nid(i + 1, j, k), nid(i + 1, j + 1, k), nid(i, j + 1, k),
            nid(i, j, k + 1), nid(i + 1, j, k + 1), nid(i + 1, j + 1, k + 1), nid(i, j + 1, k + 1),
        ]  # fmt: skip

    def quads(c):
        return [tuple(c[q] for q in f) for f in FACES["hexa8"]]

    wanted = {}
    weights = spec.get("weights", {"hex": 3, "prism": 3, "pyra": 3})
    for b in boxes:
        if kind == "mixed":
            wanted[b] = r.choices(list(weights), list(weights.values()))[0]
        else:
            wanted[b] = {"hex": "hex", "prism": "prism", "pyra": "pyra", "tet": "pyra", "kuhn": "kuhn"}[kind]
    centered = []
    order = list(boxes)
    if kind == "mixed":
        r.shuffle(order)
    onediag = spec.get("onediag", False)
    pdiag = r.random() < 0.5
    for b in order:
        c = corners(*b)
        q = quads(c)
        w = wanted[b]
        if w == "hex" and all(decided.get(frozenset(f), None) is None for f in q):
            for f in q:
                decided[frozenset(f)] = None
            cells.append(("hexa8", tuple(c)))
        elif w == "prism":
            d = decided.get(frozenset(q[0]), "free")
            e = decided.get(frozenset(q[1]), "free")
            lateral = all(decided.get(frozenset(f), None) is None for f in q[2:])
            pick = None
            for first in (pdiag, not pdiag) if kind == "prism" else ((True, False) if r.random() < 0.5 else (False, True)):
                lo = frozenset((c[0], c[2])) if first else frozenset((c[1], c[3]))
                hi = frozenset((c[4], c[6])) if first else frozenset((c[5], c[7]))
                if d in ("free", lo) and e in ("free", hi):
                    pick = first
                    decided_lo, decided_hi = lo, hi
                    break
            if lateral and pick is not None:
                decided[frozenset(q[0])] = decided_lo
                decided[frozenset(q[1])] = decided_hi
                for f in q[2:]:
                    decided[frozenset(f)] = None
                if pick:
                    cells.append(("prism6", (c[0], c[1], c[2], c[4], c[5], c[6])))
                    cells.append(("prism6", (c[0], c[2], c[3], c[4], c[6], c[7])))
                else:
                    cells.append(("prism6", (c[0], c[1], c[3], c[4], c[5], c[7])))
                    cells.append(("prism6", (c[1], c[2], c[3], c[5], c[6], c[7])))
            else:
                centered.append(b)
        elif w == "kuhn":
            for path in ((1, 2), (1, 4), (2, 1), (2, 4), (4, 1), (4, 2)):
                # bits: 1 = x, 2 = y, 4 = z
                v = [0, path[0], path[0] | path[1], 7]
                loc = {0: 0, 1: 1, 3: 2, 2: 3, 4: 4, 5: 5, 7: 6, 6: 7}
                cells.append(("tetra4", tuple(c[loc[m]] for m in v)))
        else:
            centered.append(b)
    xyz = [list(p) for p in xyz]
    pd = spec.get("pdiag", {"pyra": 0.0, "tet": 1.0}.get(kind, 0.5))
    for b in centered:
        c = corners(*b)
        m = len(xyz)
        p = np.mean([xyz[k] for k in c], axis=0)
        xyz.append([p[0] + r.uniform(-jit, jit) * 0.5, p[1] + r.uniform(-jit, jit) * 0.5, p[2] + r.uniform(-jit, jit) * 0.5])
        for f in quads(c):
            key = frozenset(f)
            if key not in decided:
                if r.random() < pd:
                    decided[key] = frozenset((f[0], f[2])) if (onediag or r.random() < 0.5) else frozenset((f[1], f[3]))
                else:
                    decided[key] = None
            dg = decided[key]
            if dg is None:
                cells.append(("pyra5", (f[0], f[3], f[2], f[1], m)))
            elif dg == frozenset((f[0], f[2])):
                cells.append(("tetra4", (f[0], f[2], f[1], m)))
                cells.append(("tetra4", (f[0], f[3], f[2], m)))
            else:
                cells.append(("tetra4", (f[0], f[3], f[1], m)))
                cells.append(("tetra4", (f[1], f[3], f[2], m)))
    xyz = np.array(xyz)
    # orientation: make every cell positive
    fixed = []
    for t, nodes in cells:
        if t == "tetra4":
            p = xyz[list(nodes)]
            if np.dot(np.cross(p[1] - p[0], p[2] - p[0]), p[3] - p[0]) < 0:
                nodes = (nodes[1], nodes[0], nodes[2], nodes[3])
        elif t == "pyra5":
            p = xyz[list(nodes)]
            if np.dot(np.cross(p[2] - p[0], p[3] - p[1]), p[4] - p[0]) < 0:
                nodes = (nodes[0], nodes[3], nodes[2], nodes[1], nodes[4])
        fixed.append((t, nodes))
    cells = fixed
    g = GMesh(3, xyz, cells, {})
    # sides from the grid index of the corner nodes
    ijk = {nid(i, j, k): (i, j, k) for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)}
    sides = {s: [] for s in ("imin", "imax", "jmin", "jmax", "kmin", "kmax")}
    for key, sup in g.facemap().items():
        if len(sup) == 1:
            for s, (ax, val) in {
                "imin": (0, 0), "imax": (0, nx), "jmin": (1, 0), "jmax": (1, ny), "kmin": (2, 0), "kmax": (2, nz),
            }.items():  # fmt: skip
                if all(n in ijk and ijk[n][ax] == val for n in key):
                    sides[s].append(key)
                    break
            else:
                raise AssertionError("generator: non conforming mesh")
        elif len(sup) != 2:
            raise AssertionError("generator: face with 3 cells")
    g.sides = sides
    return _finish(g, spec, r)


def structured2d(spec):
    r = random.Random(spec["seed"])
    nx, ny = spec["n"][:2]
    kind = spec["kind"]
    L = spec.get("size", [1.0, 1.0, 1.0])
    gx, gy = (_spacing(n, r, spec.get("uniform", False)) * l for n, l in zip((nx, ny), L))
    h = min(np.diff(gx).min(), np.diff(gy).min())
    jit = spec.get("jitter", 0.12) * h

    def nid(i, j):
        return i + (nx + 1) * j

    zval = spec.get("z", 0.0)
    xyz = np.array(
        [
            [gx[i] + r.uniform(-jit, jit), gy[j] + r.uniform(-jit, jit), zval]
            for j in range(ny + 1)
            for i in range(nx + 1)
        ]
    )
    cells = []
    for j in range(ny):
        for i in range(nx):
            c = (nid(i, j), nid(i + 1, j), nid(i + 1, j + 1), nid(i, j + 1))
            if kind == "quad" or (kind == "mixed" and r.random() < 0.5):
                cells.append(("quad4", c))
            elif r.random() < 0.5:
                cells += [("tri3", (c[0], c[1], c[2])), ("tri3", (c[0], c[2], c[3]))]
            else:
                cells += [("tri3", (c[0], c[1], c[3])), ("tri3", (c[1], c[2], c[3]))]
    g = GMesh(2, xyz, cells, {})
    sides = {s: [] for s in ("imin", "imax", "jmin", "jmax")}
    ij = {nid(i, j): (i, j) for j in range(ny + 1) for i in range(nx + 1)}
    for key, sup in g.facemap().items():
        if len(sup) == 1:
            for s, (ax, val) in {"imin": (0, 0), "imax": (0, nx), "jmin": (1, 0), "jmax": (1, ny)}.items():
                if all(ij[n][ax] == val for n in key):
                    sides[s].append(key)
                    break
            else:
                raise AssertionError("generator 2d")
        else:
            assert len(sup) == 2
    g.sides = sides
    return _finish(g, spec, r)


def _finish(g, spec, r):
    """random relabeling of elements, renumbering of nodes, shuffling of cells"""
    cells = g.cells
    if spec.get("relabel", True):
        out = []
        for t, nodes in cells:
            for _ in range(r.randrange(6)):
                s = r.choice(_SYM[t])
                nodes = tuple(nodes[k] for k in s)
            out.append((t, nodes))
        cells = out
    if spec.get("permute", True):
        perm = list(range(g.nnode))
        r.shuffle(perm)  # old -> new
        xyz = np.zeros_like(g.xyz)
        xyz[perm] = g.xyz
        g.xyz = xyz
        cells = [(t, tuple(perm[n] for n in nodes)) for t, nodes in cells]
        g.sides = {s: [frozenset(perm[n] for n in f) for f in fs] for s, fs in g.sides.items()}
    if spec.get("shuffle", True):
        cells = list(cells)
        r.shuffle(cells)
    g.cells = cells
    return g


def lonely(g, seed, where):
    """the same mesh with nodes which are in no cell, numbered at the end or anywhere"""
    r = random.Random(seed)
    k = r.randint(1, 4)
    n = g.nnode + k
    new = list(range(g.nnode)) if where == "end" else sorted(r.sample(range(n), g.nnode))
    z = (lambda: r.uniform(-3, 3)) if g.dim == 3 else (lambda: g.xyz[0, 2])
    xyz = np.array([[r.uniform(-3, 3), r.uniform(-3, 3), z()] for _ in range(n)])
    xyz[new] = g.xyz
    cells = [(t, tuple(new[i] for i in nodes)) for t, nodes in g.cells]
    sides = {k: [frozenset(new[i] for i in f) for f in fs] for k, fs in g.sides.items()}
    return GMesh(g.dim, xyz, cells, sides)


def make(spec):
    g = structured2d(spec) if spec.get("dim", 3) == 2 else structured3d(spec)
    alone = spec.get("alone", {0: "end", 11: "any"}.get(spec["seed"] % 22))  # some meshes have nodes in no cell
    return lonely(g, spec["seed"], alone) if alone else g


KINDS3 = ["hex", "prism", "pyra", "tet", "kuhn", "mixed"]
KINDS2 = ["quad", "tri", "mixed"]


def spec3(r, maxn=4, kinds=None, **kw):
    kind = r.choice(kinds or KINDS3 + ["mixed", "mixed"])
    m = {"hex": maxn, "prism": maxn, "pyra": maxn - 1, "tet": max(1, maxn - 2), "kuhn": max(1, maxn - 1), "mixed": maxn - 1}[kind]
    n = [r.randint(1, max(1, m)) for _ in range(3)]
    s = {
        "dim": 3, "n": n, "kind": kind, "seed": r.randrange(10**9), "uniform": r.random() < 0.3,
        "jitter": r.choice([0.0, 0.05, 0.15]), "relabel": r.random() < 0.8, "permute": r.random() < 0.8,
        "shuffle": r.random() < 0.8, "size": [round(r.uniform(0.3, 4.0), 3) for _ in range(3)],
    }  # fmt: skip
    if kind == "mixed":
        s["weights"] = {k: r.randint(0, 3) for k in ("hex", "prism", "pyra")}
        if not any(s["weights"].values()):
            s["weights"]["pyra"] = 1
        s["pdiag"] = r.choice([0.0, 0.3, 0.7, 1.0])
    s.update(kw)
    return s


def spec2(r, maxn=6, kinds=None, **kw):
    s = {
        "dim": 2, "n": [r.randint(1, maxn), r.randint(1, maxn)], "kind": r.choice(kinds or KINDS2),
        "seed": r.randrange(10**9), "uniform": r.random() < 0.3, "jitter": r.choice([0.0, 0.05, 0.15]),
        "relabel": r.random() < 0.8, "permute": r.random() < 0.8, "shuffle": r.random() < 0.8,
        "size": [round(r.uniform(0.3, 4.0), 3) for _ in range(3)], "z": r.choice([0.0, 0.0, -1.5, 0.25]),
    }  # fmt: skip
    s.update(kw)
    return s


# ------------------------------------------------------------------ marks
def node_marks(g, spec_seed, mode="sides", keep=1.0, disjoint_faces=True, empty=0.0):
    """dict name -> (set of faces, sorted list of nodes). A face belongs to a node mark iff all
    its nodes do; groupings for which some boundary face would belong to two marks, or to a mark
    it was not assigned to, are repaired by falling back to single sides, then dropped."""
    r = random.Random(spec_seed)
    sides = {s: f for s, f in g.sides.items() if f}
    names = list(sides)
    r.shuffle(names)
    groups = []
    if mode == "groups":
        while names:
            k = r.randint(1, min(3, len(names)))
            groups.append(names[:k])
            names = names[k:]
    else:
        groups = [[n] for n in names]
    marks = {}
    allb = {f for fs in sides.values() for f in fs}
    used = set()

    def closure(faces):
        nodes = set().union(*faces)
        return nodes, {f for f in allb if f <= nodes}

    todo = list(groups)
    while todo:
        grp = todo.pop(0)
        if r.random() > keep:
            continue
        faces = {f for s in grp for f in sides[s]}
        nodes, clo = closure(faces)
        if clo != faces or clo & used:
            if len(grp) > 1:
                todo = [[s] for s in grp] + todo
            continue
        used |= clo
        name = _markname(r, len(marks), marks)
        marks[name] = (faces, sorted(nodes))
    while r.random() < empty:  # a mark which has no complete boundary face
        nodes = set(r.sample(range(g.nnode), r.randint(0, g.nnode)))
        nodes -= {r.choice(sorted(f & nodes)) for f in allb if f <= nodes}
        marks = list(marks.items())
        marks.insert(r.randint(0, len(marks)), (_markname(r, 50 + len(marks), ()), (set(), sorted(nodes))))
        marks = dict(marks)
    return marks


def _markname(r, i, marks):
    base = r.choice(["inlet", "outlet", "wall", "sym", "farfield", "perio", "Top", "BC_", "z0"])
    p = r.random()
    if i == 0 and p < 0.05:  # the names which the library gives
        return r.choice(["internal-domain", "int_fluid"])
    if "internal-domain" in marks and p < 0.5:  # and the one given when it is taken
        return "internal-domain_" + "_" * (len(marks) - 1)
    if p < 0.64:
        return f"{base}{i}"
    if p < 0.7:  # characters of several bytes
        return f"{base}{i} " + r.choice(["entrée", "côté", "°C", "Ω", "流入", "вход"])
    if p < 0.85:
        return f"{base}-{i}_x"
    if p < 0.93:
        return f"{base}  (side {i})"
    return (f"{base} of the {i}th part of the secondary cooling duct " + "abcdefghij" * 3)[: r.choice([52, 51, 40, 33])].strip()


# ------------------------------------------------------------------ sizes
def widen(out, rng, mid=8, wide=1, wide3=0, kinds2=None, size=(262, 257)):
    """enlarge the meshes of some of the cases: hundreds of cells and nodes (more than a byte counts), and some with more
    than 65536 of them; these come first as they are the longest"""
    idx = [i for i, c in enumerate(out) if isinstance(c.get("spec"), dict) and "n" in c["spec"] and "finding" not in c]
    rng.shuffle(idx)
    for i in idx[:mid]:
        s = dict(out[i]["spec"])
        if s.get("dim", 3) == 2:
            s["n"] = [rng.randint(12, 30), rng.randint(12, 30)]
        else:
            m = {"hex": 9, "prism": 8}.get(s["kind"], 5)
            s["n"] = [rng.randint(m - 2, m) for _ in range(3)]
        out[i] = dict(out[i], spec=s)
    first = []
    for k, i in enumerate(idx[mid : mid + wide + wide3]):
        s = dict(out[i]["spec"])
        if k < wide:
            s = spec2(rng, 2, kinds=kinds2 or ["quad", "mixed"], jitter=s.get("jitter", 0.05))
            s["n"] = list(size)
        else:
            s = spec3(rng, 2, kinds=["hex"], jitter=s.get("jitter", 0.05))
            s["n"] = [33, 32, 32]
        out[i] = dict(out[i], spec=s)
        first.append(i)
    return [out[i] for i in first] + [c for i, c in enumerate(out) if i not in set(first)]


_H27C = [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (0, 0, 2), (2, 0, 2), (2, 2, 2), (0, 2, 2)]
_H27E = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6), (3, 7), (4, 5), (5, 6), (6, 7), (7, 4)]
_H27F = [(0, 1, 2, 3), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (4, 5, 6, 7)]


def hexa27(n, seed=0):
    """block of quadratic hexahedra (CGNS numbering): coordinates, cells, and sets of the 9 nodes of each face -> cells"""
    pts = [np.array(p) for p in _H27C]
    pts += [(pts[a] + pts[b]) // 2 for a, b in _H27E]
    pts += [sum(pts[i] for i in f) // 4 for f in _H27F]
    pts.append(np.array((1, 1, 1)))
    dims = [2 * k + 1 for k in n]
    nn = dims[0] * dims[1] * dims[2]
    r = random.Random(seed)
    ids = list(range(nn))
    r.shuffle(ids)
    nid = lambda p: ids[int(p[0] + dims[0] * (p[1] + dims[1] * p[2]))]
    blocks = [(i, j, k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]
    r.shuffle(blocks)
    cells = np.array([[nid(p + 2 * np.array(b)) for p in pts] for b in blocks])
    xyz = np.zeros((nn, 3))
    for k in range(dims[2]):
        for j in range(dims[1]):
            for i in range(dims[0]):
                xyz[nid((i, j, k))] = (i / 2, j / 2, k / 2)
    faces = {}
    for c, b in enumerate(blocks):
        for ax in range(3):
            for side in (0, 2):
                key = frozenset(
                    nid([2 * b[d] + (side if d == ax else [u, v][(d - ax) % 3 - 1]) for d in range(3)]) for u in range(3) for v in range(3)
                )
                faces.setdefault(key, []).append(c)
    return xyz, cells, faces
