"""C06 index lists and connectivity tables behave as the lists they stand for, whatever the history of operations"""
import random

import numpy as np

import cfdtools.meshbase._connectivity as _conn
import cfdtools.meshbase._elements as _elem

ID = "C06"
RULE = (
    "random histories of operations on index lists (range and list storage), index pairs, connectivity tables and their "
    "compressed form, each step compared with a plain Python list/dict model; distinct by the history of observed states"
)
REQUIRED = [
    "list-value",
    "list-size",
    "range-value",
    "pairs-value",
    "refused",
    "table-rows",
    "compressed-form",
    "compressed-back",
    "merge-rows",
    "check-accepts",
    "check-rejects",
    "nodes-of",
    "source-untouched",
]
NN = {"bar2": 2, "tri3": 3, "quad4": 4, "tetra4": 4, "pyra5": 5, "prism6": 6, "hexa8": 8}


def cases(tier, rng):
    n = 1440 if tier == "quick" else 4000
    kinds = ["list", "pairs", "table", "compressed", "merge", "check"]
    return [
        {"kind": kinds[i % len(kinds)], "seed": rng.randrange(10**9), "steps": rng.randint(3, 14 if tier == "quick" else 30)}
        for i in range(n)
    ]


def rlist(r, lo=0, hi=60, n=None):
    n = r.choice([0, 1, 2, 3, 5, 8]) if n is None else n
    return [r.randint(lo, hi) for _ in range(n)]


def new_index(r):
    """an index list with its model"""
    k = r.randrange(6)
    if k == 4:  # ends of a range, but not one
        a, n = r.randint(0, 30), r.randint(3, 8)
        mid = list(range(a + 1, a + n - 1))
        mid = r.choice([lambda: r.sample(mid, len(mid)), lambda: mid[::-1], lambda: [r.choice(mid) for _ in mid]])()
        v = [a] + mid + [a + n - 1]
        return _conn.indexlist(ilist=list(v)), v
    if k == 5:  # all of a range, in any order
        a, n = r.randint(0, 30), r.randint(2, 6)
        v = r.choice([list(range(a, a + n))[::-1], r.sample(range(a, a + n), n), list(range(a, a + 2 * n, 2))])
        return _conn.indexlist(ilist=np.array(v) if r.random() < 0.5 else list(v)), v
    if k == 0:
        a = r.randint(0, 30)
        b = a + r.randint(0, 8)
        return _conn.indexlist(irange=r.choice([[a, b], (a, b)])), list(range(a, b + 1))
    if k == 1:
        v = rlist(r)
        return _conn.indexlist(ilist=list(v)), v
    if k == 2:
        v = rlist(r, n=r.randint(1, 6))
        return _conn.indexlist(ilist=np.array(v)), v
    a = r.randint(0, 30)
    v = list(range(a, a + r.randint(1, 6)))
    return _conn.indexlist(ilist=list(v)), v


def observe_list(mon, x, model):
    got = x.list()
    mon.check("list-value", [int(i) for i in got] == model and len(got) == len(model), f"{got} expected {model}")
    mon.check("list-size", x.size == len(model), f"size {x.size} expected {len(model)}")
    if x.type == "range":
        a = list(x.range())
        mon.check("range-value", list(range(a[0], a[1] + 1)) == model, f"range {a} of {model}")
    if model:
        i = len(model) // 2
        mon.check("list-item", x[i] == model[i] and x[-1] == model[-1] and list(x[1:3]) == model[1:3], f"items of {model}")
    str(x)
    mon.note(x.type, got)


def contiguous(v):
    return bool(v) and v == list(range(v[0], v[0] + len(v)))


def run_list(case, mon, r):
    pool = [new_index(r) for _ in range(3)]
    for x, m in pool:
        observe_list(mon, x, m)
    for _ in range(case["steps"]):
        i = r.randrange(len(pool))
        x, m = pool[i]
        op = r.choice(["append", "appendnp", "shift", "compress", "compress", "compress", "add", "setlist", "setrange", "mutate", "bad"])
        if op == "append":
            v = rlist(r)
            x.append(list(v))
            pool[i] = (x, m + v)
        elif op == "appendnp":
            v = rlist(r, n=r.randint(1, 4))
            x.append(np.array(v))
            pool[i] = (x, m + v)
        elif op == "shift":
            s = r.choice([0, 1, 7, 100])
            y = x.shift(s)
            observe_list(mon, x, m)
            pool.append((y, [k + s for k in m]))
        elif op == "compress":
            x.compress()
            if contiguous(m):
                mon.check("compress-range", x.type == "range", f"{m} not stored as a range")
            else:
                mon.check("compress-list", x.type == "list", f"{m} stored as a range")
        elif op == "add":
            y, my = r.choice(pool)
            pool.append((x + y, m + my))
        elif op == "setlist":
            v = rlist(r)
            x.set_list(list(v))
            pool[i] = (x, v)
        elif op == "setrange":
            a = r.randint(0, 20)
            b = a + r.randint(0, 5)
            x.set_range([a, b])
            pool[i] = (x, list(range(a, b + 1)))
        elif op == "bad":
            bad = r.choice([(1, 2), None, "12", range(3), 4])
            try:
                x.set_list(bad) if r.random() < 0.5 else x.append(bad)
            except Exception:
                mon.seen("refused")
            else:
                mon.check("refused", False, f"{bad!r} accepted as a list of index")
        elif op == "mutate":
            got = x.list()
            got.append(-5)  # what is handed out is the caller's own
            if got:
                got[0] = -7
        pool = pool[-6:]
        for x, m in pool:
            observe_list(mon, x, m)


def run_pairs(case, mon, r):
    x = _conn.indexindirection()
    model = np.empty((0, 2), dtype=int)
    for _ in range(case["steps"]):
        a = np.array([[r.randint(-1, 50), r.randint(-1, 50)] for _ in range(r.choice([1, 1, 2, 5]))])
        keep = a.copy()
        if r.random() < 0.3:
            x.conn = a
            model = keep
        else:
            x.append(a)
            model = np.concatenate((model, keep), axis=0)
        mon.equal("pairs-value", x.conn, model, "pairs")
        mon.check("pairs-size", x.nelem == len(model), f"{x.nelem} pairs, expected {len(model)}")
        i = r.randrange(len(model))
        mon.equal("pairs-item", x[i], model[i], f"pair {i}")
        mon.equal("source-untouched", a, keep, "appended array")
        mon.note(np.array(x.conn))


GIVEN = []  # index lists given to tables, with their content


def rand_table(r, types, nmax=5, seq=True):
    """connectivity and model {index: (type, row)} with one index per element"""
    con = _conn.elem_connectivity()
    model = {}
    blocks = []
    for _ in range(r.randint(1, 4)):
        t = r.choice(types)
        blocks.append((t, r.randint(1, nmax)))
    tot = sum(n for _, n in blocks)
    perm = list(range(tot))
    if not seq:
        r.shuffle(perm)
    start = 0
    for t, n in blocks:
        rows = [r.sample(range(100), NN[t]) for _ in range(n)]
        idx = perm[start : start + n]
        arr = np.array(rows)
        if seq and r.random() < 0.6:
            con.add_elems(t, arr)
        else:
            given = _conn.indexlist(irange=[start, start + n - 1]) if seq and r.random() < 0.5 else _conn.indexlist(ilist=list(idx))
            con.add_elems(t, arr, given)
            GIVEN.append((given, list(idx)))
        for i, row in zip(idx, rows):
            model[i] = (t, row)
        start += n
    return con, model


def table_of(con):
    out = {}
    for t, e in con.items():
        ind = e["index"].list()
        arr = e["elem2node"]
        assert len(ind) == arr.shape[0]
        for i, row in zip(ind, arr.tolist()):
            assert int(i) not in out, f"index {i} twice"
            out[int(i)] = (t, [int(n) for n in row])
    return out


def observe_table(mon, con, model):
    got = table_of(con)
    mon.check("table-rows", got == model, f"{sorted(got.items())[:4]} expected {sorted(model.items())[:4]}")
    mon.check("table-size", con.nelem == len(model), f"{con.nelem} elements expected {len(model)}")
    mon.check("table-index", sorted(con.all_index()) == sorted(model), "all_index")
    tup = con.index_elem_tuples()
    mon.check("table-tuples", sorted((int(i), list(n)) for i, n in tup) == sorted((i, m[1]) for i, m in model.items()), "tuples")
    mon.check("table-nodes", set(con.nodelist()) == {n for _, m in model.values() for n in m}, "node list")
    mon.check("table-nodes", len(con.nodelist()) == len(set(con.nodelist())), "node list has duplicates")
    for x, idx in GIVEN:
        mon.check("source-untouched", x.list() == idx and x.size == len(idx), f"index list given to a table: {x.list()} expected {idx}")
    for t in con.elems():
        mon.check("table-type", con[t].shape[1] == NN[t], f"row length of {t}")
    mon.note(sorted(got.items()))


def run_table(case, mon, r):
    con, model = rand_table(r, list(NN), seq=r.random() < 0.5)
    observe_table(mon, con, model)
    for _ in range(case["steps"] // 3 + 1):
        k = r.randint(1, min(5, len(model)))
        sub = r.sample(sorted(model), k)
        got = con.nodes_of_indexlist(list(sub))
        want = {n for i in sub for n in model[i][1]}
        mon.check("nodes-of", set(got) == want and len(got) == len(want), f"nodes of {sub}: {sorted(got)} expected {sorted(want)}")
    # elements without explicit index continue the numbering
    t = r.choice(list(NN))
    row = [r.sample(range(100), NN[t])]
    n0 = len(model)
    con.add_elems(t, np.array(row))
    model[n0] = (t, row[0])
    observe_table(mon, con, model)


def run_compressed(case, mon, r):
    con, model = rand_table(r, ["bar2", "tri3", "quad4"], nmax=8, seq=r.random() < 0.4)
    z = con.exportto_compressedindex()
    # the compressed form is what files hold: offsets and values in index order
    off = [0]
    val = []
    for i in sorted(model):
        val += model[i][1]
        off.append(len(val))
    mon.check("compressed-form", list(z._index) == off and list(z._value) == val, f"offsets {list(z._index)[:8]} expected {off[:8]}")
    mon.check("compressed-check", z.check() and z.size == len(val), "check()")
    back = _conn.elem_connectivity()
    back.importfrom_compressedindex(z)
    got = table_of(back)
    mon.check("compressed-back", got == model, f"{sorted(got.items())[:4]} expected {sorted(model.items())[:4]}")
    observe_table(mon, back, model)
    observe_table(mon, con, model)
    bad = _conn.compressed_listofindex(np.array(off) + 1, np.array(val))
    try:
        bad.check()
        ok = False
    except AssertionError:
        ok = True
    mon.check("compressed-rejects", ok, "offsets not starting at 0 accepted")


def run_merge(case, mon, r):
    n = r.randint(1, 5)
    parts = [rand_table(r, list(NN)[:4], seq=r.random() < 0.6) for _ in range(n)]
    merged = _conn.elem_connectivity()
    merged.importfrom_merge(tuple(c for c, _ in parts))
    model = {}
    shift = 0
    for _, m in parts:
        for i, v in m.items():
            model[i + shift] = v
        shift += len(m)
    got = table_of(merged)
    mon.check("merge-rows", got == model, f"merge of {n}: {len(got)} elements {sorted(got)[:8]}.. expected {len(model)}")
    mon.check("check-accepts", merged.check(), "check of a merge")
    for c, m in parts:
        mon.check("source-untouched", table_of(c) == m, "merged source modified")
    mon.stat("merged", n)
    mon.note(sorted(got.items()))


def run_check(case, mon, r):
    con, model = rand_table(r, list(NN), seq=r.random() < 0.5)
    mon.check("check-accepts", con.check(), "unique index refused")
    # now break it: duplicate, gap, negative
    how = r.choice(["dup", "gap", "neg"])
    t = r.choice(list(NN))
    row = np.array([r.sample(range(100), NN[t])])
    k = {"dup": r.randrange(len(model)), "gap": len(model) + r.randint(1, 4), "neg": -1}[how]
    con.add_elems(t, row, _conn.indexlist(ilist=[k]))
    try:
        con.check()
        ok = False
    except (AssertionError, ValueError, SystemExit, RuntimeError):
        ok = True
    mon.check("check-rejects", ok, f"{how} index accepted")
    mon.stat("broken", how)
    mon.note(how, sorted(model))


def run(case, mon):
    GIVEN.clear()
    r = random.Random(case["seed"])
    globals()["run_" + case["kind"]](case, mon, r)
    mon.stat("kind", case["kind"])
