import glob
import importlib
import json
import os
import random
import sys
import time
import zlib

from vmon import core

BUDGET = {"quick": 240.0, "thorough": 700.0}


def import_repo():
    """import everything once, from the tree under test"""
    import logging

    argv, sys.argv = sys.argv, ["vmon"]
    import cfdtools
    import cfdtools.meshbase  # noqa: F401  (before cfdtools.data: circular import)
    import cfdtools._cli  # noqa: F401
    import cfdtools.ic3  # noqa: F401

    sys.argv = argv
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not os.path.realpath(cfdtools.__file__).startswith(repo + os.sep):
        print(f"harness error: cfdtools imported from {cfdtools.__file__}, not {repo}")
        sys.exit(3)
    logging.getLogger("cfdtools").setLevel(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")


def main():
    t0 = time.perf_counter()
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for i, a in enumerate(args[1:], 1):
        if a in ("quick", "thorough"):
            tier = a
        if a == "--replay":
            replay = args[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        import_repo()
        broken = None
    except SystemExit:
        raise
    except BaseException as e:  # the tree under test does not even import
        broken = core._tb(e)
    sys.path.insert(0, os.path.join(core.VERIF, "checks"))
    if broken is not None:
        path = _write_replay(pid, {"import": True}, {"monitor": "import", "detail": broken}, seed, tier)
        print(broken)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    mod = importlib.import_module(pid.lower())
    if replay:
        with open(os.path.join(core.VERIF, replay)) as f:
            rep = json.load(f)
        results, notrun = core.run_cases(mod, [rep["case"]], 600, nproc=1)
        for c, r in results:
            print(json.dumps({k: r[k] for k in ("verdict", "monitor", "detail")}, indent=1))
            if r["verdict"] == "violated":
                print(f"VIOLATION property={pid} replay={replay}")
                return 1
        return 0
    rng = random.Random(zlib.crc32(f"{pid}/{tier}/{seed}".encode()))
    cases = mod.cases(tier, rng)
    cases = json.loads(core.jdump(cases))
    results, notrun = core.run_cases(mod, cases, BUDGET[tier])

    findings = [f for f in core.load_findings() if f["property"] == pid]
    counts, stats, sigs, samples = {}, {}, set(), []
    held = viol = skipped = 0
    newviol, hits, inconclusive, errors = [], {}, [], []
    for c, r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, d in r["stats"].items():
            for kk, v in d.items():
                stats.setdefault(k, {})
                stats[k][kk] = stats[k].get(kk, 0) + v
        if r["sig"]:
            sigs.add(r["sig"])
        v = r["verdict"]
        if v == "held":
            held += 1
            if len(samples) < 4 and r["sig"]:
                samples.append({"case": c, "oracles": r["counts"]})
        elif v == "skipped":
            skipped += 1
        elif v == "violated":
            known = [
                f
                for f in findings
                if f["monitor"] == r["monitor"] and f["case"] == c.get("finding", "-")
            ]
            if known:
                hits[known[0]["text"]] = hits.get(known[0]["text"], 0) + 1
            else:
                newviol.append((c, r))
        elif v == "error":
            errors.append((c, r))
        else:
            inconclusive.append((c, r))
            print("inconclusive:", str(r["detail"])[:200], core.jdump(c)[:300])
    missing = [m for m in mod.REQUIRED if counts.get(m, 0) == 0]
    wall = time.perf_counter() - t0
    evidence = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples,
            "oracle_evaluations": counts,
            "observed": {k: dict(sorted(v.items())[:60]) for k, v in stats.items()},
            "cases_held": held,
            "cases_skipped_by_generator": skipped,
            "cases_inconclusive": len(inconclusive),
            "cases_not_run_budget": notrun,
            "longest_case_s": round(max([r["wall"] for _, r in results], default=0.0), 2),
            "known_finding_hits": hits,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(newviol),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", f"{pid}.json"), "w") as f:
        f.write(json.dumps(json.loads(core.jdump(evidence)), indent=1))
    for text, n in sorted(hits.items()):
        print(f"KNOWN-FINDING: property={pid} {text} ({n} case(s))")
    print(
        f"{pid} [{tier}, seed {seed}]: {len(results)} cases, {len(sigs)} distinct, "
        f"{sum(counts.values())} oracle evaluations, {held} held, {skipped} skipped, {len(newviol)} violated, "
        f"{len(inconclusive)} inconclusive, {notrun} not run, {wall:.1f}s"
    )
    if newviol:
        for c, r in newviol[:3]:
            path = _write_replay(pid, c, r, seed, tier)
            print(f"  case {core.jdump(c)[:400]}")
            print(f"  monitor {r['monitor']}: {r['detail']}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print(f"harness error: {errors[0][0]}\n{errors[0][1]['detail']}")
        return 3
    if missing:
        print(f"inconclusive: monitors never reached: {missing}")
        return 2
    if len(inconclusive) > max(2, len(results) // 10):
        print(f"inconclusive: {len(inconclusive)} cases gave no answer: {inconclusive[0][1]['detail']}")
        return 2
    return 0


def _write_replay(pid, case, res, seed, tier):
    d = os.path.join(core.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    n = zlib.crc32(core.jdump(case).encode())
    rel = f"evidence/replay/{pid}-{n:08x}.json"
    with open(os.path.join(core.VERIF, rel), "w") as f:
        f.write(
            json.dumps(
                {
                    "property": pid,
                    "seed": seed,
                    "tier": tier,
                    "case": json.loads(core.jdump(case)),
                    "monitor": res["monitor"],
                    "detail": res["detail"],
                    "again": f"bin/check {pid} --replay {rel}",
                },
                indent=1,
            )
        )
    return rel


if __name__ == "__main__":
    sys.exit(main())
