"""Independent writer of GMSH ASCII meshes (formats 2.2 and 4.1), from a GMesh.

plan(g, r) chooses tags, entities and groups; write(path, plan, version) lays them out.
"""
import random

GTYPE = {"node1": 15, "bar2": 1, "tri3": 2, "quad4": 3, "tetra4": 4, "hexa8": 5, "prism6": 6, "pyra5": 7}
BDTYPE = {2: "bar2", 3: "tri3", 4: "quad4"}


def _tags(r, n, mode):
    if mode == "dense":
        return list(range(1, n + 1))
    if mode == "offset":
        o = r.randint(2, 5000)
        return list(range(o, o + n))
    tags = sorted(r.sample(range(1, 6 * n + 10), n))
    if mode == "gaps":
        return tags
    r.shuffle(tags)
    return tags  # "shuffled"


NAMES = ["inlet", "outlet", "wall", "symmetry plane", "upper wall 2", "Far field", "perio-left", "perio_right", "a", "z=0", "BC.7", "wall (hot)", "hot  wall   1", "int_fluid", "FLUID", "entrée", "paroi n°1 à 20°C"]


def plan(g, seed, named=True, unnamed_part=0.0, inner=0.0, multi=0.0):
    """groups of boundary faces from the sides of g; every boundary face in at most one group"""
    r = random.Random(seed)
    names = NAMES[:]
    r.shuffle(names)
    sides = {s: list(f) for s, f in g.sides.items() if f}
    order = list(sides)
    r.shuffle(order)
    # oriented nodes of each boundary face
    fm = g.facemap()
    groups = []  # dict(name, phys, entities=[(enttag, [faces])])
    d = g.dim
    used = {k: set() for k in range(4)}

    def tag(dim, lo=1, hi=400):
        while True:
            t = r.randint(lo, hi if r.random() < 0.8 else 3000)
            if t not in used[dim]:
                used[dim].add(t)
                return t

    phys_used = set()

    def phystag():
        while True:
            t = r.randint(1, 60 if r.random() < 0.8 else 40000)
            if t not in phys_used:
                phys_used.add(t)
                return t

    while order:
        k = r.randint(1, min(2, len(order)))
        pick, order = order[:k], order[k:]
        faces = [f for s in pick for f in sides[s]]
        r.shuffle(faces)
        nent = r.randint(1, min(3, len(faces)))
        cuts = sorted(r.sample(range(1, len(faces)), nent - 1)) if nent > 1 else []
        parts = [faces[a:b] for a, b in zip([0] + cuts, cuts + [len(faces)])]
        name = names.pop() if (named and r.random() >= unnamed_part) else None
        phys = phystag() if named and (name is not None or r.random() < 0.5) else 0
        ents = [(tag(d - 1), [fm[f][0][1] for f in p]) for p in parts]
        groups.append(dict(name=name, phys=phys, entities=ents))
    if named and r.random() < inner:  # a named surface inside of the domain
        bd = [f for f, s in fm.items() if len(s) == 1]
        faces, nodes = [], set()
        for f in r.sample(sorted((f for f, s in fm.items() if len(s) == 2), key=sorted), k=min(6, sum(len(s) == 2 for s in fm.values()))):
            if not any(b <= nodes | f for b in bd):
                faces.append(f)
                nodes |= f
        if faces:
            groups.append(dict(name=names.pop(), phys=phystag(), entities=[(tag(d - 1), [fm[f][0][1] for f in faces])]))
    cells = list(enumerate(g.cells))
    nent = r.randint(1, min(2, len(cells)))
    vol = []
    cut = r.randint(1, len(cells)) if nent == 2 else len(cells)
    for part in (cells[:cut], cells[cut:]):
        if part:
            vol.append((tag(d), part))
    if named and groups and r.random() < multi:  # entities which are in several groups
        for _ in range(r.randint(1, 2)):
            ents = [e for grp in groups if "again" not in grp and grp["phys"] for e in grp["entities"]]
            if ents:
                ents = r.sample(ents, r.randint(1, len(ents)))
                name = names.pop() if r.random() < 0.8 else None
                groups.append(dict(name=name, phys=phystag(), entities=ents, again=True))
    # volume physical groups may reuse the tag of a boundary group (another dimension)
    volphys = []
    for i, _ in enumerate(vol):
        volphys.append(r.choice([grp["phys"] for grp in groups if grp["phys"]] or [1]) if r.random() < 0.5 else r.randint(61, 90) + i)
    if len(set(volphys)) < len(volphys):
        volphys = [70 + i for i in range(len(vol))]
    volagain = {i: 91 + i for i in range(len(vol)) if named and r.random() < multi}
    return dict(
        volagain=volagain, g=g, seed=r.randrange(10**9), groups=groups, vol=vol, volphys=volphys, volname="fluid" if len(vol) == 1 else None,
        named=named, tagmode=r.choice(["dense", "dense", "offset", "gaps", "shuffled"]), lowdim=r.random() < 0.5, interleave=r.random() < 0.5,
    )


def write(path, p, version):
    r = random.Random(p["seed"])
    g = p["g"]
    d = g.dim
    n = g.nnode
    tags = _tags(r, n, p["tagmode"])  # node position -> tag
    fmt = lambda v: repr(float(v))
    out = ["$MeshFormat", f"{version} 0 8", "$EndMeshFormat"]
    named = p["named"]
    if named:
        lines = [(d - 1, grp["phys"], grp["name"]) for grp in p["groups"] if grp["name"] is not None]
        for i, ph in enumerate(p["volphys"]):
            lines.append((d, ph, "fluid" if len(p["volphys"]) == 1 else f"fluid part {i}"))
        if r.random() < 0.3:
            lines.append((0, r.randint(1, 9), "a corner"))
        r.shuffle(lines)
        out += ["$PhysicalNames", str(len(lines))] + [f'{a} {b} "{c}"' for a, b, c in lines] + ["$EndPhysicalNames"]
    # blocks of elements: (dim, entity, phys, type, list of node tuples)
    blocks = []
    for grp in p["groups"]:
        for ent, faces in grp["entities"]:
            for t in ("bar2", "tri3", "quad4"):
                fs = [f for f in faces if BDTYPE[len(f)] == t]
                if fs:
                    fs = [tuple(reversed(f)) if r.random() < 0.5 else f for f in fs]
                    blocks.append((d - 1, ent, grp["phys"], t, fs) if "again" not in grp else (d - 1, ent, grp["phys"], t, fs, "again"))
    for i, ((ent, cells), ph) in enumerate(zip(p["vol"], p["volphys"] if named else [0] * len(p["vol"]))):
        types = []
        for _, (t, _n) in cells:
            if t not in types:
                types.append(t)
        for t in types:
            blocks.append((d, ent, ph, t, [nodes for _, (tt, nodes) in cells if tt == t]))
            if i in p["volagain"]:
                blocks.append((*blocks[-1][:2], p["volagain"][i], *blocks[-1][3:], "again"))
    points = []
    if p["lowdim"]:
        for _ in range(r.randint(1, 3)):
            k = r.randrange(n)
            e = r.randint(1, 500)
            while e in [q[1] for q in points]:
                e = r.randint(1, 500)
            points.append((0, e, 0, "node1", [(k,)]))
    blocks += points
    if p["interleave"]:
        r.shuffle(blocks)
    else:
        blocks.sort(key=lambda b: b[0])
    again = [b for b in blocks if len(b) == 6]
    if version == "2.2":  # elements are written once for each group
        blocks = [b[:5] for b in blocks]
    else:
        blocks = [b for b in blocks if len(b) == 5]
    ntot = sum(len(b[4]) for b in blocks)
    etags = _tags(r, ntot, r.choice(["dense", "offset", "gaps"]))
    if version == "2.2":
        order = list(range(n))
        if r.random() < 0.3:
            r.shuffle(order)
        out += ["$Nodes", str(n)]
        out += [f"{tags[i]} " + " ".join(fmt(v) for v in g.xyz[i]) for i in order]
        out += ["$EndNodes", "$Elements", str(ntot)]
        flat = [(ent, ph, t, nodes) for dd, ent, ph, t, el in blocks for nodes in el]
        if r.random() < 0.3:
            r.shuffle(flat)
        if r.random() < 0.3:  # files of other tools: elementary tags all null, or those of the physical groups
            k = r.random() < 0.5
            flat = [(0 if k else ph, ph, t, nodes) for ent, ph, t, nodes in flat]
        for et, (ent, ph, t, nodes) in zip(etags, flat):
            extra = "" if r.random() < 0.8 else " 1 1"  # optional partition tags
            nt = 2 if not extra else 4
            out.append(f"{et} {GTYPE[t]} {nt} {ph} {ent}{extra} " + " ".join(str(tags[k]) for k in nodes))
        out += ["$EndElements"]
    else:
        # entities of all dimensions, with decoys
        ents = {0: {}, 1: {}, 2: {}, 3: {}}
        for dd, ent, ph, _t, _e in blocks:
            ents[dd][ent] = [ph] if ph else []
        for dd, ent, ph, *_ in again:
            if ph not in ents[dd][ent]:
                ents[dd][ent].insert(r.randint(0, len(ents[dd][ent])), ph)
        alltags = sorted({e for x in ents.values() for e in x})
        for dd in range(4):
            if dd in (d, d - 1):
                continue
            for e in r.sample(alltags, min(len(alltags), r.randint(0, 3))):
                ents[dd].setdefault(e, r.choice([[], [r.randint(1, 60)]]))
        out += ["$Entities", " ".join(str(len(ents[k])) for k in range(4))]
        for dd in range(4):
            items = sorted(ents[dd].items())
            if r.random() < 0.3:
                r.shuffle(items)
            for e, ph in items:
                phs = " ".join(str(k) for k in (len(ph), *ph))
                if dd == 0:
                    out.append(f"{e} 0. 0. 0. {phs} ")
                else:
                    nb = r.randint(0, 3)
                    out.append(f"{e} 0. 0. 0. 1. 1. 1. {phs} {nb} " + " ".join(str(r.choice([-1, 1]) * r.randint(1, 99)) for _ in range(nb)))
        out += ["$EndEntities"]
        # nodes by blocks
        order = list(range(n))
        if p["tagmode"] != "dense" and r.random() < 0.5:
            r.shuffle(order)
        nb = r.randint(1, min(4, n))
        cuts = sorted(r.sample(range(1, n), nb - 1)) if nb > 1 else []
        if r.random() < 0.3 and n - 1 not in cuts and n > 1:
            cuts.append(n - 1)
        parts = [order[a:b] for a, b in zip([0] + cuts, cuts + [n])]
        if r.random() < 0.3:
            parts.insert(r.randint(0, len(parts) - 1), [])
        out += ["$Nodes", f"{len(parts)} {n} {min(tags)} {max(tags)}"]
        for part in parts:
            dd = r.randint(0, d)
            e = r.choice(list(ents[dd]) or [1])
            out.append(f"{dd} {e} 0 {len(part)}")
            out += [str(tags[i]) for i in part]
            out += [" ".join(fmt(v) for v in g.xyz[i]) for i in part]
        out += ["$EndNodes", "$Elements", f"{len(blocks)} {ntot} {min(etags)} {max(etags)}"]
        it = iter(etags)
        for dd, ent, _ph, t, el in blocks:
            out.append(f"{dd} {ent} {GTYPE[t]} {len(el)}")
            for nodes in el:
                out.append(f"{next(it)} " + " ".join(str(tags[k]) for k in nodes) + " ")
        out += ["$EndElements"]
    with open(path, "w", encoding="utf-8") as f:
        f.write("\n".join(out) + "\n")
