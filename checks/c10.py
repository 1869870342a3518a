"""C10 incomplete or inconsistent IC3 files are rejected, failed writes are reported"""
import os
import random
import resource
import signal

import h5py
import numpy as np

import cfdtools._cli as cli
from cfdtools.ic3 import reader_legacy, readerV4, writerV2, writerV3, writerV4

from vmon import gen, ic3case, ic3io
from vmon.core import Skip

ID = "C10"
LEVEL = "fault_enumeration"
RULE = (
    "IC3 files cut at section boundaries and around, inside headers and payloads, at random places (every byte of small "
    "files in thorough), read by the API, the conversion tool and the header tool; check sections corrupted; writes "
    "stopped by the system at a given size; distinct by file and set of faults"
)
REQUIRED = ["cut-rejected", "cut-no-output", "whole-accepted", "check-rejected", "write-failure-reported", "v4-cut-rejected", "inconsistent-rejected"]
DATA = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "tests", "data")


def cases(tier, rng):
    n = 110 if tier == "quick" else 220
    out = []
    for i in range(n):
        what = ["cut", "cut", "checks", "write", "cut4"][i % 5]
        out.append(
            {
                "what": what,
                "spec": gen.spec2(rng, 3) if rng.random() < 0.4 else gen.spec3(rng, 2),
                "index": "range",
                "seed": rng.randrange(10**6),
                "part": rng.random() < 0.5,
                "perio": 0.2,
                "version": rng.choice([2, 3]),
                "ndof": 1,
                "endian": rng.choice(ic3case.ENDIANS),
                "ncut": 120 if tier == "quick" else 600,
                "every": tier != "quick" and i % 6 == 0,
            }
        )
    for f in ("Box3x3x2v2.ic3", "Box3x3x2v3.ic3", "nrg-tinycube-v2.ic3"):
        out.append({"what": "cut", "file": f, "seed": rng.randrange(10**6), "ncut": 80 if tier == "quick" else 600})
    # an integrity check does not depend on the size of the mesh
    out.append({"what": "bigcheck", "seed": rng.randrange(10**6)})
    return out


def rejected(mon, what, fn, *args):
    try:
        fn(*args)
    except Exception as e:
        mon.stat("rejected by", type(e).__name__)
        mon.seen(what)
        return
    mon.check(what, False, f"accepted: {args[1:]}")


def load(path, check, pos):
    r = reader_legacy.reader(path, check)
    r.read_data()
    return r.export_mesh()


def run(case, mon):
    r = random.Random(case["seed"])
    f, g = mon.path("f.ic3"), mon.path("cut.ic3")
    if case["what"] == "bigcheck":
        return bigcheck(case, mon, r, g)
    if "file" in case:
        f = os.path.join(DATA, case["file"])
        if not os.path.exists(f):
            raise Skip("no such file")
    else:
        m, model = ic3case.make_mesh(case, data=True, version=case["version"])
        {2: writerV2, 3: writerV3}[case["version"]].writer(m, case["endian"]).write_data(f)
    with open(f, "rb") as fid:
        whole = fid.read()
    if case["what"] == "cut":
        e, version, secs = ic3io.sections(f)
        pos = {0, 1, 4, 7, 8, 9, len(whole) - 1, len(whole) - 128, len(whole) - 255, len(whole) - 256, len(whole) - 257}
        for s in secs:
            for d in (-8, -1, 0, 1, 52, 64, 255, 256, 257):
                pos.add(s.off + d)
            pos.add(s.off + s.skip // 2)
        pos = sorted(p for p in pos if 0 <= p < len(whole))
        if case.get("every"):
            lo = r.randrange(max(1, len(whole) - 3000))
            pos = sorted(set(pos) | set(range(lo, min(len(whole), lo + 3000))))
        else:
            if len(pos) > case["ncut"]:
                pos = sorted(r.sample(pos, case["ncut"]))
            pos = sorted(set(pos) | {r.randrange(len(whole)) for _ in range(case["ncut"] // 3)})
        for p in pos:
            with open(g, "wb") as fid:
                fid.write(whole[:p])
            rejected(mon, "cut-rejected", load, g, r.random() < 0.5, p)
        os.makedirs(mon.path("o"), exist_ok=True)
        for p in r.sample(pos, min(6, len(pos))):
            with open(g, "wb") as fid:
                fid.write(whole[:p])
            tool = r.choice([cli.cfdwrite_ic3v2, cli.cfdwrite_ic3v3])
            rejected(mon, "cut-rejected", tool, [g, "--outpath", mon.path("o")])
            mon.check("cut-no-output", os.listdir(mon.path("o")) == [], f"cut at {p}: output {os.listdir(mon.path('o'))}")
        with open(g, "wb") as fid:
            fid.write(whole)
        m = load(g, True, None)
        mon.check("whole-accepted", m.ncell > 0, "empty mesh")
        mon.stat("cuts", len(pos))
        mon.note(whole, pos)
    elif case["what"] == "checks":
        # same content, written by somebody else, with the check sections or the sizes altered
        F = ic3io.parse(f)
        e = F.endian
        spec = dict(xyz=F.xyz, faces=F.faces, cvofa=F.cvofa, ncv=F.counts[2], zones=F.zones, npart=F.npart, part=F.part, params=[], data=[])
        ic3io.write(g, spec, e, F.version)
        load(g, True, None)
        mon.seen("whole-accepted")
        b = ic3case.filebytes(g)
        os.makedirs(mon.path("o"), exist_ok=True)
        tools = [cli.cfdinfo, cli.cfdwrite_ic3v2, cli.cfdwrite_ic3v3]
        r.choice(tools)([g, "--check", "--outpath", mon.path("o")])
        for x in os.listdir(mon.path("o")):
            os.unlink(os.path.join(mon.path("o"), x))
        all_secs = ic3io.sections(g)[2]
        secs = {s.name: s for s in all_secs}
        for _ in range(24):
            a = bytearray(b)
            s = secs[r.choice(["NO_CHECK", "FA_CHECK", "CV_CHECK"])]
            n = len(s.payload) // 4
            if n == 0:
                continue
            ids = np.frombuffer(s.payload, dtype=e + "i4").copy()
            k = r.choice(["swap", "off", "zero", "shift"])
            if k == "swap" and n > 1:
                i, j = r.sample(range(n), 2)
                ids[[i, j]] = ids[[j, i]]
            elif k == "shift":
                ids += 1
            elif k == "zero" and n > 1:
                ids[r.randrange(1, n)] = 0
            else:
                ids[r.randrange(n)] += r.choice([-1, 1, 1000])
            a[s.off + 256 : s.off + s.skip] = ids.astype(e + "i4").tobytes()
            with open(g, "wb") as fid:
                fid.write(a)
            rejected(mon, "check-rejected", load, g, True, f"{s.name} {k}")
            if r.random() < 0.3:
                opts = [["--check"], ["--outpath", mon.path("o")]]
                r.shuffle(opts)
                rejected(mon, "check-rejected", lambda argv, _: r.choice(tools)(argv), [g] + sum(opts, []), f"{s.name} {k}")
                mon.check("cut-no-output", os.listdir(mon.path("o")) == [], f"output {os.listdir(mon.path('o'))}")
            mon.note(bytes(a))
        # sizes which do not agree between sections (idata 0 of the header at offset 64)
        for name in ("NOOFA_I_AND_V", "CVOFA", "X_NO"):
            s = secs[name]
            a = bytearray(b)
            v = np.frombuffer(bytes(a[s.off + 64 : s.off + 72]), dtype=e + "i8")[0]
            a[s.off + 64 : s.off + 72] = np.array([v + r.choice([-1, 1])], dtype=e + "i8").tobytes()
            with open(g, "wb") as fid:
                fid.write(a)
            rejected(mon, "check-rejected", load, g, r.random() < 0.5, f"{name} size")
            if name in ("NOOFA_I_AND_V", "CVOFA"):
                a = bytearray(b)
                a[s.off + 72 : s.off + 80] = np.array([s.idata[1] + r.choice([-1, 1])], dtype=e + "i8").tobytes()
                with open(g, "wb") as fid:
                    fid.write(a)
                rejected(mon, "check-rejected", load, g, r.random() < 0.5, f"{name} second size")
            # the section is missing
            with open(g, "wb") as fid:
                fid.write(b[: s.off] + b[s.off + s.skip :])
            rejected(mon, "check-rejected", load, g, r.random() < 0.5, f"{name} missing")
        # faces of other sizes, of nodes or cells which do not exist
        nno, nfa, ncv, nnofa = (int(i) for i in F.counts)
        for name, lo, hi, bad in (
            ("NOOFA_I_AND_V", 0, nfa, lambda v: v + r.choice([-1, 1, 4])),
            ("NOOFA_I_AND_V", nfa, nfa + nnofa, lambda v: r.choice([-1, -nno, nno, nno + r.randrange(1000)])),
            ("CVOFA", 0, 2 * nfa, lambda v: ncv + r.choice([0, 1, r.randrange(10**6)])),
        ):
            s = secs[name]
            for _ in range(3):
                ids = np.frombuffer(s.payload, dtype=e + "i4").copy()
                k = r.choice([lo, hi - 1, r.randrange(lo, hi)])
                ids[k] = bad(int(ids[k]))
                a = bytearray(b)
                a[s.off + 256 : s.off + s.skip] = ids.astype(e + "i4").tobytes()
                with open(g, "wb") as fid:
                    fid.write(a)
                rejected(mon, "inconsistent-rejected", load, g, r.random() < 0.5, f"{name} {k} {ids[k]}")
        # zones of faces which do not exist
        for s in [s for s in all_secs if s.code == ic3io.CODE["FA_ZONE"]]:
            k, v = r.choice([(1, -1), (1, -nfa), (2, nfa), (2, nfa + r.randrange(1, 1000)), (1, int(s.idata[2]) + 2)])
            a = bytearray(b)
            p = s.off + 64 + 8 * k
            a[p : p + 8] = np.array([v], dtype=e + "i8").tobytes()
            with open(g, "wb") as fid:
                fid.write(a)
            rejected(mon, "inconsistent-rejected", load, g, r.random() < 0.5, f"zone {s.name} {k} {v}")
        for name in ("NO_CHECK", "CV_CHECK"):
            s = secs[name]
            a = bytearray(b)
            a[s.off + 64 : s.off + 72] = np.array([s.idata[0] + r.choice([-1, 1])], dtype=e + "i8").tobytes()
            with open(g, "wb") as fid:
                fid.write(a)
            rejected(mon, "check-rejected", load, g, True, f"{name} size")
        for k in range(4):
            s = secs["NO_FA_CV_NOOFA_COUNTS"]
            a = bytearray(b)
            p = s.off + 64 + 8 * k
            a[p : p + 8] = np.array([s.idata[k] + r.choice([-1, 1])], dtype=e + "i8").tobytes()
            with open(g, "wb") as fid:
                fid.write(a)
            rejected(mon, "check-rejected", load, g, r.random() < 0.5, f"count {k}")
    elif case["what"] == "write":
        W = {2: writerV2, 3: writerV3}[case["version"]]
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
        size = len(whole)
        for lim in sorted({0, 1, 8, 264, 4096, 8192, size // 2, size - 1, size - 255, size - 256, size - 300} | {r.randrange(size) for _ in range(12)}):
            if not 0 <= lim < size:
                continue
            m, _ = ic3case.make_mesh(case, data=True, version=case["version"])
            w = W.writer(m, case["endian"])
            out = mon.path(f"w{lim}.ic3")
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
            try:
                failed = None
                try:
                    w.write_data(out)
                except Exception as ex:
                    failed = ex
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))
            mon.check("write-failure-reported", failed is not None, f"file of {size} bytes limited to {lim}: no error")
            if os.path.exists(out):
                rejected(mon, "cut-rejected", load, out, True, lim)
                os.unlink(out)
        mon.note(whole, "write")
    elif case["what"] == "cut4":
        h = mon.path("f.h5")
        m, _ = ic3case.make_mesh(case)
        writerV4.writer(m).write_data(h)
        b = ic3case.filebytes(h)
        c = mon.path("c.h5")

        def load4(path, pos):
            rd = readerV4.reader(path)
            rd.read_data()
            return rd.export_mesh()

        load4(h, None)
        for p in sorted({0, 8, len(b) - 1, len(b) // 2, 512, 2048} | {r.randrange(len(b)) for _ in range(30)}):
            if p >= len(b):
                continue
            with open(c, "wb") as fid:
                fid.write(b[:p])
            rejected(mon, "v4-cut-rejected", load4, c, p)
        with h5py.File(h, "r") as fid:
            nno, nfa, ncv = (int(fid.attrs[k]) for k in ("no_count", "fa_count", "cv_count"))
        face = "Connectivities/Face/"
        for name, bad in (
            (face + "noofa_i", lambda v: v + r.choice([-1, 1, 4])),
            (face + "noofa_v", lambda v: r.choice([-1, -nno, nno, nno + r.randrange(1000)])),
            (face + "cvofa", lambda v: ncv + r.choice([0, 1, r.randrange(10**6)])),
            ("Boundaries/offsets", lambda v: r.choice([-1, nfa + 1, nfa + r.randrange(1, 1000)])),
        ):
            for _ in range(3):
                with open(c, "wb") as fid:
                    fid.write(b)
                with h5py.File(c, "r+") as fid:
                    d = fid[name]
                    v = d[()].ravel()
                    k = r.choice([0, v.size - 1, r.randrange(v.size)])
                    v[k] = bad(int(v[k]))
                    d[...] = v.reshape(d.shape)
                rejected(mon, "inconsistent-rejected", load4, c, f"{name} {k} {v[k]}")
        mon.note(b[:64], len(b), case["seed"])


def bigcheck(case, mon, r, g):
    """check sections of a mesh of many nodes (a long strip of quadrangles)"""
    n = 120000
    x = np.arange(n + 1, dtype=float)
    xyz = np.zeros((2 * n + 2, 3))
    xyz[0::2, 0] = xyz[1::2, 0] = x
    xyz[1::2, 1] = 1.0
    faces, cvofa = [], []
    for i in range(n):
        faces.append((2 * i, 2 * i + 2))
        cvofa.append((i, -1))
    for i in range(n):
        faces.append((2 * i + 3, 2 * i + 1))
        cvofa.append((i, -1))
    faces += [(1, 0), (2 * n, 2 * n + 1)]
    cvofa += [(0, -1), (n - 1, -1)]
    nb = len(faces)
    for i in range(1, n):
        faces.append((2 * i, 2 * i + 1))
        cvofa.append((i - 1, i))
    z = [0.0] * 16
    spec = dict(
        xyz=xyz, faces=faces, cvofa=np.array(cvofa), ncv=n, npart=1, part=np.zeros(n, dtype=int), params=[], data=[],
        zones=[("all", 1, 0, nb - 1, z), ("int", 6, nb, len(faces) - 1, z)],
    )  # fmt: skip
    ic3io.write(g, spec, "<", 2)
    m = load(g, True, None)
    mon.check("whole-accepted", m.ncell == n and m.nface == len(faces), "sizes")
    b = ic3case.filebytes(g)
    secs = {s.name: s for s in ic3io.sections(g)[2]}
    for name in ("NO_CHECK", "FA_CHECK", "CV_CHECK"):
        s = secs[name]
        k = len(s.payload) // 4
        ids = np.frombuffer(s.payload, dtype="<i4").copy()
        i = r.randrange(k - 1 - k // 20, k - 1)
        ids[[i, i + 1]] = ids[[i + 1, i]]
        a = bytearray(b)
        a[s.off + 256 : s.off + s.skip] = ids.tobytes()
        with open(g, "wb") as fid:
            fid.write(a)
        rejected(mon, "check-rejected", load, g, True, f"{name} {i} swapped of {k}")
    mon.note("big", i)
