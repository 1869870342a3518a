"""Independent reader and writer of the IC3 (charlesX restart) binary format, versions 2 and 3.

Written from the format alone (magic, version, then 256-byte headers each followed by a payload); shares
no code with cfdtools, so that what cfdtools writes (reads) is checked by (comes from) somebody else.
"""
import struct

import numpy as np

MAGIC = 123581321
CODE = dict(
    COUNTS=10, I0=11, D0=12, FA_CHECK=20, NOOFA=21, CVOFA=22, FA_ZONE=23, FA_D1=24, FA_D3=25, FA_II1=26,
    NO_CHECK=30, X_NO=31, NO_D1=32, NO_D3=33, NO_II1=34, CV_CHECK=40, CV_PART=41, CV_D1=42, CV_D3=43,
    CV_D33=44, CV_II1=45, DATA=50, EOF=51,
)
NAME = {v: k for k, v in CODE.items()}
KIND = {"boundary": 1, "perio_cart": 2, "perio_cylx": 3, "perio_cyly": 4, "perio_cylz": 5, "internal": 6}
HSIZE = 256


class BadFile(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise BadFile(msg)


class Section:
    def __init__(self, off, name, code, skip, idata, rdata, payload):
        self.off, self.name, self.code, self.skip = off, name, code, skip
        self.idata, self.rdata, self.payload = idata, rdata, payload


def sections(path, unknown=False):
    """endianness, version and the sections; raises BadFile unless the file is exactly a chain up to EOF"""
    with open(path, "rb") as f:
        b = f.read()
    need(len(b) >= 8, "no file header")
    if struct.unpack("<i", b[:4])[0] == MAGIC:
        e = "<"
    elif struct.unpack(">i", b[:4])[0] == MAGIC:
        e = ">"
    else:
        raise BadFile("bad magic number")
    version = struct.unpack(e + "i", b[4:8])[0]
    fmt = e + "52siq8q16d"
    off = 8
    out = []
    while True:
        need(off + HSIZE <= len(b), f"truncated header at {off} of {len(b)}")
        t = struct.unpack(fmt, b[off : off + HSIZE])
        raw = t[0]
        name = raw.split(b"\0")[0]
        need(set(raw[len(name) :]) <= {0}, f"garbage after the name of a section: {raw}")
        code, skip = t[1], t[2]
        need(unknown or code in NAME, f"unknown section {code} {name}")
        need(skip >= HSIZE and off + skip <= len(b), f"section {name} at {off}: skip {skip} out of file")
        out.append(Section(off, name.decode(), code, skip, t[3:11], np.array(t[11:27]), b[off + HSIZE : off + skip]))
        off += skip
        if code == CODE["EOF"]:
            break
    need(off == len(b), f"{len(b) - off} bytes after the end of file section")
    return e, version, out


def _arr(s, e, kind, n, what):
    size = {"i": 4, "q": 8, "d": 8}[kind]
    need(len(s.payload) == size * n, f"{what}: {len(s.payload)} bytes instead of {size * n}")
    return np.frombuffer(s.payload, dtype=e + {"i": "i4", "q": "i8", "d": "f8"}[kind]).astype(
        {"i": np.int64, "q": np.int64, "d": np.float64}[kind]
    )


class IC3File:
    pass


def parse(path, unknown=False):
    e, version, secs = sections(path, unknown)
    secs, every = [s for s in secs if s.code in NAME], secs
    F = IC3File()
    F.endian, F.version, F.sections = e, version, every
    need(version in (2, 3), f"version {version}")
    one = {}
    F.zones, F.params = [], {}
    F.data = {"nodes": {}, "cells": {}, "faces": {}}
    F.ndof = {}
    for s in secs:
        if s.code in (CODE["COUNTS"], CODE["NOOFA"], CODE["CVOFA"], CODE["X_NO"], CODE["CV_PART"]):
            need(s.code not in one, f"section {s.name} written twice")
            one[s.code] = s
    for k in ("COUNTS", "NOOFA", "CVOFA", "X_NO", "CV_PART"):
        need(CODE[k] in one, f"section {k} missing")
    c = one[CODE["COUNTS"]]
    nno, nfa, ncv, nnf = F.counts = tuple(int(i) for i in c.idata[:4])
    s = one[CODE["NOOFA"]]
    need((s.idata[0], s.idata[1]) == (nfa, nnf), f"NOOFA sizes {s.idata[:2]}")
    need(len(s.payload) == 4 * (nfa + nnf), "NOOFA payload")
    a = np.frombuffer(s.payload, dtype=e + "i4").astype(np.int64)
    F.noofa_i, F.noofa_v = a[:nfa], a[nfa:]
    need(F.noofa_i.sum() == nnf, "NOOFA counts")
    off = np.concatenate(([0], np.cumsum(F.noofa_i)))
    F.faces = [tuple(int(i) for i in F.noofa_v[off[i] : off[i + 1]]) for i in range(nfa)]
    need(nnf == 0 or (F.noofa_v.min() >= 0 and F.noofa_v.max() < nno), "NOOFA node out of range")
    s = one[CODE["CVOFA"]]
    need((s.idata[0], s.idata[1]) == (nfa, 2), f"CVOFA sizes {s.idata[:2]}")
    F.cvofa = _arr(s, e, "i", 2 * nfa, "CVOFA").reshape(nfa, 2)
    s = one[CODE["CV_PART"]]
    need(s.idata[0] == ncv, "CV_PART size")
    F.npart, F.part = int(s.idata[1]), _arr(s, e, "i", ncv, "CV_PART")
    s = one[CODE["X_NO"]]
    need((s.idata[0], s.idata[1]) == (nno, 3), f"X_NO sizes {s.idata[:2]}")
    F.xyz = _arr(s, e, "d", 3 * nno, "X_NO").reshape(nno, 3)
    F.order = [s.code for s in secs]
    for s in secs:
        k = NAME[s.code]
        if k in ("NO_CHECK", "FA_CHECK", "CV_CHECK"):
            n = {"NO": nno, "FA": nfa, "CV": ncv}[k[:2]]
            need(s.idata[0] == n, f"{k} size")
            need(np.array_equal(_arr(s, e, "i", n, k), np.arange(n)), f"{k} values")
        elif k == "FA_ZONE":
            need(len(s.payload) == 0, "FA_ZONE payload")
            F.zones.append((s.name, int(s.idata[0]), int(s.idata[1]), int(s.idata[2]), s.rdata))
        elif k == "I0":
            F.params[s.name] = int(s.idata[0])
        elif k == "D0":
            F.params[s.name] = float(s.rdata[0])
        elif k[:3] in ("NO_", "CV_", "FA_") and k.split("_")[1] in ("D1", "D3", "D33", "II1"):
            loc = {"NO": "nodes", "CV": "cells", "FA": "faces"}[k[:2]]
            n = {"NO": nno, "FA": nfa, "CV": ncv}[k[:2]]
            need(s.idata[0] == n, f"{k} {s.name}: {s.idata[0]} values instead of {n}")
            ndof = 1
            if version >= 3 and k[:2] == "CV":
                ndof = int(s.idata[1])
                need(ndof >= 1, f"{s.name}: ndof {ndof}")
            typ = k.split("_")[1]
            if not unknown:  # dimensions which are written in the header
                dims = {"D1": [], "II1": [], "D3": [3], "D33": [3, 3]}[typ]
                if version >= 3 and k[:2] == "CV":
                    dims = [ndof, 3] if typ == "D33" else [ndof]
                need([int(i) for i in s.idata[1 : 1 + len(dims)]] == dims, f"{s.name}: dimensions {s.idata[:4]}")
            width = {"D1": 1, "II1": 1, "D3": 3, "D33": 9}[typ]
            v = _arr(s, e, "q" if typ == "II1" else "d", n * ndof * width, f"{k} {s.name}")
            if typ == "D3":
                v = v.reshape(-1, 3)
            elif typ == "D33":
                v = v.reshape(-1, 3, 3)
            need(s.name not in F.data[loc], f"{s.name} written twice")
            F.data[loc][s.name] = v
            F.ndof[s.name] = ndof
    return F


def facemap(F):
    """face index -> (nodes, (left, right))"""
    return {i: (F.faces[i], (int(F.cvofa[i, 0]), int(F.cvofa[i, 1]))) for i in range(len(F.faces))}


def zone_faces(F, name):
    out = [z for z in F.zones if z[0] == name]
    need(len(out) == 1, f"{len(out)} zones named {name}")
    return [frozenset(F.faces[i]) for i in range(out[0][2], out[0][3] + 1)]


def conforming(F):
    """what a charlesX/IC3 solver expects of a restart; raises BadFile"""
    nno, nfa, ncv, nnf = F.counts
    need(F.order[0] == CODE["COUNTS"], "sizes must come first")
    need(F.order[-1] == CODE["EOF"], "end of file must be last")
    if F.version == 2:
        for k in ("NO_CHECK", "FA_CHECK", "CV_CHECK"):
            need(F.order.count(CODE[k]) == 1, f"{k} missing in version 2")
    need(ncv > 0 and nno > 0 and nfa > 0, "empty mesh")
    need(F.cvofa[:, 0].min() >= 0 and F.cvofa.max() == ncv - 1, "face with no left cell")
    need(set(F.cvofa[:, 0]) | set(F.cvofa[:, 1][F.cvofa[:, 1] >= 0]) == set(range(ncv)), "cell without face")
    zones = sorted(F.zones, key=lambda z: z[2:4])
    need(len({z[0] for z in zones}) == len(zones), "two zones with the same name")
    nxt = 0
    for name, kind, first, last, rdata in zones:
        need(kind in KIND.values(), f"zone {name} kind {kind}")
        need(first == nxt, f"zone {name} starts at {first}, expected {nxt}")
        nxt = last + 1
        for i in range(first, last + 1):
            right = F.cvofa[i, 1]
            if kind == KIND["internal"]:
                need(right >= 0, f"boundary face {i} in the internal zone")
            elif kind == KIND["boundary"]:
                need(right == -1, f"internal face {i} in the boundary zone {name}")
    need(nxt == nfa, f"zones cover {nxt} faces of {nfa}")
    need(zones[-1][1] == KIND["internal"], "the internal zone must be last")
    need(sum(z[1] == KIND["internal"] for z in zones) == 1, "one internal zone expected")
    need(F.zones[-1][1] == KIND["internal"], "the internal zone must be written last")
    need(F.npart >= 1 and F.part.min() >= 0 and F.part.max() < F.npart, f"partition {F.npart} {F.part[:8]}")


# ------------------------------------------------------------------ writer
def _hdr(e, name, code, payload=b"", idata=(), rdata=()):
    i = list(idata) + [0] * (8 - len(idata))
    r = list(rdata) + [0.0] * (16 - len(rdata))
    return struct.pack(e + "52siq8q16d", name.encode(), CODE[code], HSIZE + len(payload), *i, *r) + payload


def write(path, spec, endian="<", version=2, order=None, checks=True, extras=()):
    """spec: dict(xyz, faces, cvofa, zones[(name, kind, first, last, rdata)], npart, part, params, data)

    params: list of (name, value); data: list of (name, type code, array, ndof)
    order: optional permutation of the groups written after the connectivity
    """
    e = endian
    xyz, faces, cvofa = np.asarray(spec["xyz"]), spec["faces"], np.asarray(spec["cvofa"])
    nno, nfa, ncv = len(xyz), len(faces), int(spec["ncv"])
    nnf = sum(len(f) for f in faces)
    i4 = lambda a: np.asarray(a).astype(e + "i4").tobytes()
    f8 = lambda a: np.asarray(a, dtype=float).astype(e + "f8").tobytes()
    g = {}
    g["checks"] = (
        b"".join(_hdr(e, k, k, i4(range(n)), (n,)) for k, n in (("NO_CHECK", nno), ("FA_CHECK", nfa), ("CV_CHECK", ncv)))
        if checks
        else b""
    )
    g["noofa"] = _hdr(
        e, "NOOFA_I_AND_V", "NOOFA", i4([len(f) for f in faces]) + i4([n for f in faces for n in f]), (nfa, nnf)
    )
    g["cvofa"] = _hdr(e, "CVOFA", "CVOFA", i4(cvofa.ravel()), (nfa, 2))
    g["zones"] = b"".join(_hdr(e, n, "FA_ZONE", b"", (k, a, b), r) for n, k, a, b, r in spec["zones"])
    g["part"] = _hdr(e, "CV_PART", "CV_PART", i4(spec["part"]), (ncv, spec["npart"]))
    g["xyz"] = _hdr(e, "X_NO", "X_NO", f8(xyz.ravel()), (nno, 3))
    g["head"] = _hdr(e, "DATA", "DATA")
    g["params"] = b"".join(
        _hdr(e, n, "I0", b"", (v,)) if isinstance(v, int) else _hdr(e, n, "D0", b"", (), (v,)) for n, v in spec["params"]
    )
    d = []
    for name, code, a, ndof in spec["data"]:
        a = np.asarray(a)
        n = {"NO": nno, "FA": nfa, "CV": ncv}[code[:2]]
        payload = a.astype(e + "i8").tobytes() if code.endswith("II1") else f8(a.ravel())
        if code[:2] == "CV" and version >= 3:
            ida = (n, ndof, 3) if code == "CV_D33" else (n, ndof)
        else:
            ida = {"D1": (n,), "II1": (n,), "D3": (n, 3), "D33": (n, 3, 3)}[code.split("_")[1]]
        d.append(_hdr(e, name, code, payload, ida))
    g["data"] = b"".join(d)
    if order and "mixed" in order:  # parameters and data one by one, in a given random order
        parts = [_hdr(e, n, "I0", b"", (v,)) if isinstance(v, int) else _hdr(e, n, "D0", b"", (), (v,)) for n, v in spec["params"]] + d
        extras[0].shuffle(parts)
        g["mixed"] = b"".join(parts)
    r = extras[0] if extras else None

    def extra(size):
        name = r.choice([b"SOMETHING_ELSE", b"X_NO", b"rho", b"", b"n" * 51, b"END", b"two words"])
        code = r.choice([77, 12345, 2**31 - 1, -7])
        idata = r.choice([[7] * 8, [0] * 8, [-1] * 8, [2**62] * 8])
        return struct.pack(e + "52siq8q16d", name, code, HSIZE + size, *idata, *([r.choice([0.5, 0.0, -1e300])] * 16))

    with open(path, "wb") as f:
        f.write(struct.pack(e + "ii", MAGIC, version))
        f.write(_hdr(e, "NO_FA_CV_NOOFA_COUNTS", "COUNTS", b"", (nno, nfa, ncv, nnf)))
        for k in order or ["checks", "noofa", "cvofa", "zones", "part", "xyz", "head", "params", "data"]:
            if k == "extra":  # unknown to the library
                size = r.choice([0, 1, 24, 24, 256, 1000])
                f.write(extra(size) + bytes(r.randrange(256) for _ in range(size)))
            elif k == "huge":  # larger than what 32 bits count
                f.write(extra(5 * 2**30))
                f.seek(5 * 2**30, 1)
            else:
                f.write(g[k])
        f.write(_hdr(e, "EOF", "EOF"))


def same(a, b):
    """bit-exact equality of two float/int arrays"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" or b.dtype.kind == "f":
        return np.array_equal(a.astype(float).view(np.int64), b.astype(float).view(np.int64))
    return np.array_equal(a, b)
