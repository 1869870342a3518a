"""C07 IC3 v2/v3 write and read keep the mesh, bit for bit"""
import os

from vmon import gen, ic3case, ic3io, rig

ID = "C07"
RULE = (
    "random 3D/2D meshes with marks, periodic zones and partition, and the restart files of the repository, written in "
    "versions 2/3 and the three byte orders, parsed by an independent reader, read back, rewritten in another version "
    "and byte order, and again; distinct by bytes of the first file"
)
REQUIRED = [
    "well-formed", "file-xyz", "file-zones", "file-zonekind", "file-periodic", "file-part", "face-complete", "face-orientation",
    "read-xyz", "read-faces", "read-zones", "read-zonekind", "read-periodic", "read-part", "endian", "rewrite-same", "rewrite-bytes",
]  # fmt: skip
DATA = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tests", "data")


def cases(tier, rng):
    n = 600 if tier == "quick" else 2000
    out = []
    for i in range(n):
        big = tier == "thorough" and i % 12 == 0
        two = i % 6 == 0
        spec = gen.spec2(rng, 5) if two else gen.spec3(rng, 3 if not big else 7)
        out.append(
            {
                "spec": spec,
                "index": rng.choice(["range", "position", "split"]),
                "seed": rng.randrange(10**6),
                "mode": rng.choice(["sides", "groups"]),
                "keep": rng.choice([1.0, 1.0, 0.6, 0.0]),
                "perio": rng.choice([0.0, 0.4, 1.0]),
                "part": rng.random() < 0.6,
                "hostile": rng.random() < 0.6,
                "va": rng.choice([2, 3]),
                "vb": rng.choice([2, 3]),
                "ea": rng.choice(ic3case.ENDIANS),
                "eb": rng.choice(ic3case.ENDIANS),
                "check": rng.random() < 0.7,
            }
        )
    for f in ("Box3x3x2v2.ic3", "Box3x3x2v3.ic3", "nrg-tinycube-v2.ic3", "nrg-o1hllc-vf-v3.ic3"):
        for va in (2, 3):
            out.append({"file": f, "vb": va, "eb": rng.choice(ic3case.ENDIANS), "va": 5 - va, "ea": rng.choice(ic3case.ENDIANS), "check": True})
    return gen.widen(out, rng)


def same_mesh(mon, A, B, what):
    """two files hold the same mesh (the internal zone has no user name)"""
    mon.check("rewrite-same", A.counts == B.counts, f"{what}: sizes {A.counts} {B.counts}")
    mon.check("rewrite-same", ic3io.same(A.xyz, B.xyz), f"{what}: coordinates")
    mon.check("rewrite-same", A.faces == B.faces, f"{what}: faces")
    mon.check("rewrite-same", (A.cvofa == B.cvofa).all(), f"{what}: cells of faces")
    za = [(None if z[1] == 6 else z[0],) + tuple(z[1:4]) for z in A.zones]
    zb = [(None if z[1] == 6 else z[0],) + tuple(z[1:4]) for z in B.zones]
    mon.check("rewrite-same", za == zb, f"{what}: zones {za} {zb}")
    mon.check("rewrite-same", all(ic3io.same(a[4], b[4]) for a, b in zip(A.zones, B.zones) if a[1] != 6), f"{what}: transforms")
    mon.check("rewrite-same", A.npart == B.npart and (A.part == B.part).all(), f"{what}: partition")


def run(case, mon):
    W = ic3case.WRITER
    f1, f2, f3, f4 = (mon.path(f"f{i}.ic3") for i in range(4))
    if "file" in case:
        src = os.path.join(DATA, case["file"])
        if not os.path.exists(src):
            from vmon.core import Skip

            raise Skip("no such file")
        f1 = src
        F1 = ic3io.parse(src)
        mon.note(case["file"], case["vb"])
    else:
        m, model = ic3case.make_mesh(case)
        W[case["va"]](m, case["ea"]).write_data(f1)
        F1 = ic3case.parse(mon, f1)
        mon.check("endian", F1.endian == ic3case.endchar(case["ea"]), f"{F1.endian} for {case['ea']}")
        mon.check("version", F1.version == case["va"], f"version {F1.version}")
        ic3case.check_file_mesh(mon, F1, model)
        mon.note(ic3case.filebytes(f1))
        mon.stat("types", "+".join(model["g"].types()))
    m2 = ic3case.read(f1, case["check"])
    ic3case.check_mesh_is_file(mon, m2, F1)
    before = ic3case.filebytes(f1)
    W[case["vb"]](m2, case["eb"]).write_data(f2)
    mon.check("source-untouched", ic3case.filebytes(f1) == before, "the file read was modified")
    F2 = ic3case.parse(mon, f2, "rewritten")
    mon.check("endian", F2.endian == ic3case.endchar(case["eb"]), f"{F2.endian} for {case['eb']}")
    mon.check("version", F2.version == case["vb"], f"version {F2.version}")
    same_mesh(mon, F1, F2, "rewritten")
    m3 = ic3case.read(f2, case["check"])
    ic3case.check_mesh_is_file(mon, m3, F2, "read again")
    W[case["vb"]](m3, case["eb"]).write_data(f3)
    mon.check("rewrite-bytes", ic3case.filebytes(f3) == ic3case.filebytes(f2), "rewriting is not stable")
    if "file" not in case:
        W[case["va"]](ic3case.read(f3, True), case["ea"]).write_data(f4)
        mon.check("rewrite-bytes", ic3case.filebytes(f4) == ic3case.filebytes(f1), "back to the first version: not the first file")
    mon.stat("path", f"v{case['va']}->{case['vb']} {case['ea']}->{case['eb']}")
