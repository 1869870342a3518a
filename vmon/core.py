"""Case runner, monitors, verdicts, evidence.

A check module (checks/cNN.py) defines

    ID, RULE, REQUIRED (names of monitors that must have been reached)
    cases(tier, rng) -> list of JSON-able descriptors (dict)
    run(case, mon)   -> drives the real cfdtools code under `mon`

Every case runs in its own forked process inside its own scratch directory, so a
case is reproducible from its descriptor alone and cannot disturb another one.
"""
import hashlib
import json
import os
import pickle
import re
import select
import shutil
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.environ.get("VERIF_ROOT", "/verif")
SCRATCH = os.environ.get("VMON_SCRATCH", "/tmp")
CASE_TIMEOUT = 240
# a case which computes that long (the longest of sound code need a tenth of it) does not end
CASE_CPU = 150


class Breach(Exception):
    """a monitor saw the property broken"""

    def __init__(self, monitor, detail):
        super().__init__(f"{monitor}: {detail}")
        self.monitor = monitor
        self.detail = detail


class Skip(Exception):
    """the case cannot be built (generator precondition); counted, never a verdict"""


class Monitor:
    """observes one case: counts evaluated oracles, keeps the signature of what was seen"""

    def __init__(self, workdir):
        self.workdir = workdir
        self.counts = {}
        self.sig = hashlib.sha1()
        self.breaches = []
        self.stats = {}
        self.nontrivial = False

    # -- oracle evaluations --
    def check(self, name, cond, detail=""):
        self.counts[name] = self.counts.get(name, 0) + 1
        if not bool(cond):
            if callable(detail):
                detail = detail()
            raise Breach(name, str(detail)[:1500])

    def seen(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def note(self, *objs):
        """add an observation to the signature of the case"""
        for o in objs:
            if isinstance(o, np.ndarray):
                self.sig.update(str(o.shape).encode() + np.ascontiguousarray(o).tobytes())
            elif isinstance(o, bytes):
                self.sig.update(o)
            else:
                self.sig.update(repr(o).encode())
        self.nontrivial = True

    def stat(self, name, value):
        self.stats.setdefault(name, {})
        k = str(value)
        self.stats[name][k] = self.stats[name].get(k, 0) + 1

    def path(self, *p):
        return os.path.join(self.workdir, *p)

    def equal(self, name, a, b, detail=""):
        """bit-exact equality of arrays (shape and values; dtype only by value)"""
        a, b = np.asarray(a), np.asarray(b)
        same = a.shape == b.shape and (
            np.array_equal(a, b)
            if a.dtype.kind not in "fc" and b.dtype.kind not in "fc"
            else bool(np.all((a == b) | ((a != a) & (b != b))))
        )
        self.check(
            name,
            same,
            lambda: f"{detail}: got {_short(a)} expected {_short(b)}",
        )

    def close(self, name, a, b, tol, detail=""):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = a.shape == b.shape and (a.size == 0 or bool(np.all(np.abs(a - b) <= tol)))
        self.check(name, ok, lambda: f"{detail}: got {_short(a)} expected {_short(b)} tol {tol}")


def _short(a):
    s = np.array2string(a.ravel()[:12], precision=17, threshold=20)
    return f"{a.dtype}{a.shape}{s}"


def _run_child(mod, case, outfile, workdir):
    os.makedirs(workdir, exist_ok=True)
    os.chdir(workdir)
    mon = Monitor(workdir)
    res = {"verdict": "held", "detail": None, "monitor": None}
    t0 = time.perf_counter()

    def on_alarm(signum, frame):
        raise TimeoutError("case watchdog")

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_TIMEOUT)
    signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    cpu = time.process_time()
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(1), os.dup(2)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        mod.run(case, mon)
    except Breach as e:
        res.update(verdict="violated", monitor=e.monitor, detail=e.detail)
    except Skip as e:
        res.update(verdict="skipped", detail=str(e))
    except TimeoutError as e:
        if time.process_time() - cpu > 0.9 * CASE_CPU and not _wide(case):
            res.update(verdict="violated", monitor="terminates", detail=f"no result after {CASE_CPU} s of computation\n{_tb(e)}")
        else:
            res.update(verdict="inconclusive", detail=f"timeout {e}")
    except MemoryError:
        res.update(verdict="inconclusive", detail="out of memory")
    except OSError as e:
        import errno

        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EDQUOT):
            res.update(verdict="inconclusive", detail=f"environment: {e}")
        else:
            res.update(verdict="violated", monitor="no-exception", detail=_tb(e))
    except BaseException as e:
        # the repository failed on an input it has to accept, or handed back
        # something an oracle could not even interpret
        frames = traceback.extract_tb(e.__traceback__)
        inrepo = any("cfdtools" in f.filename for f in frames)
        name = "no-exception" if inrepo else "interpretable-outcome"
        res.update(verdict="violated", monitor=name, detail=_tb(e))
    signal.alarm(0)
    signal.setitimer(signal.ITIMER_PROF, 0)
    os.dup2(saved[0], 1)
    os.dup2(saved[1], 2)
    res.update(
        counts=mon.counts,
        sig=mon.sig.hexdigest() if mon.nontrivial else None,
        stats=mon.stats,
        wall=time.perf_counter() - t0,
    )
    with open(outfile + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(outfile + ".tmp", outfile)


def _wide(case):
    """a mesh so large that slow is not endless"""
    n = (case.get("spec") or {}).get("n") or [1]
    return int(np.prod(n)) > 3000


def _tb(e):
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    s = "".join(tb)
    return s[-1800:]


def run_cases(mod, cases, budget_s, nproc=None, stop_on=20):
    """run the cases, each in a forked child; returns the list of (case, result)"""
    nproc = nproc or int(os.environ.get("VMON_NPROC", "8"))
    results = []
    running = {}
    queue = list(enumerate(cases))
    t0 = time.perf_counter()
    nviol = 0
    notrun = 0
    last = t0
    while queue or running:
        while queue and len(running) < nproc:
            if time.perf_counter() - t0 > budget_s or nviol >= stop_on:
                notrun += len(queue)
                queue = []
                break
            i, case = queue.pop(0)
            wd = os.path.join(SCRATCH, f"case{i}")
            out = os.path.join(SCRATCH, f"res{i}")
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    _run_child(mod, case, out, wd)
                except BaseException:
                    traceback.print_exc()
                    code = 9
                finally:
                    os._exit(code)
            running[pid] = (i, case, out, wd, time.perf_counter())
        if not running:
            break
        pid, status = os.waitpid(-1, os.WNOHANG if nviol and not queue else 0)
        if pid == 0:  # there is an answer: do not wait for those which do not end
            for p, (i, case, out, wd, started) in list(running.items()):
                if time.perf_counter() - max(started, last) > 40:
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.02)
            continue
        last = time.perf_counter()
        if pid not in running:
            continue
        i, case, out, wd, started = running.pop(pid)
        if os.path.exists(out):
            with open(out, "rb") as f:
                res = pickle.load(f)
            os.unlink(out)
        else:
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                res = {"verdict": "violated", "monitor": "no-crash", "detail": f"process died of signal {sig}"}
            else:
                res = {"verdict": "inconclusive", "monitor": None, "detail": f"child status {status}"}
            res.update(counts={}, sig=None, stats={}, wall=0.0)
        shutil.rmtree(wd, ignore_errors=True)
        results.append((i, case, res))
        if res["verdict"] == "violated" and "finding" not in case:
            nviol += 1
    results.sort(key=lambda r: r[0])
    return [(c, r) for _, c, r in results], notrun


# ---------------------------------------------------------------- known findings
def load_findings():
    """lines `KNOWN-FINDING: property=Cxx key=<regex over monitor and detail> | text`"""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\w+) case=(\S+) monitor=(\S+) \| (.*)", line.strip())
            if m:
                out.append(dict(property=m[1], case=m[2], monitor=m[3], text=m[4]))
    return out


def jdump(o):
    def default(x):
        if isinstance(x, (np.integer,)):
            return int(x)
        if isinstance(x, (np.floating,)):
            return float(x)
        if isinstance(x, np.ndarray):
            return x.tolist()
        raise TypeError(type(x))

    return json.dumps(o, default=default, sort_keys=True)
