"""C29 timers and memoized functions: only running periods are measured and reported, wrong sequences refused, values unchanged"""
import logging
import random
import re
import time


class Clock:
    """time.perf_counter of the process; virtual while a case runs"""

    def __init__(self, real):
        self.real = real
        self.now = None
        self.calls = 0

    def __call__(self):
        if self.now is None:
            return self.real()
        self.calls += 1
        return self.now


clock = time.perf_counter = Clock(time.perf_counter)  # before the library is imported
time.perf_counter_ns = lambda: int(clock() * 1e9)

import cfdtools.api as api  # noqa: E402

ID = "C29"
RULE = (
    "random histories of several timers (start, pause, stop, with blocks, errors in blocks, nested and interleaved) under a controlled clock, "
    "messages parsed; random histories of calls of several memoized functions (recursive, failing, sharing arguments); distinct by history"
)
REQUIRED = ["elapsed", "refused", "report", "per-element", "error", "value", "calls", "info", "silent"]


def cases(tier, rng):
    n = 600 if tier == "quick" else 6000
    return [{"kind": "memo" if i % 3 == 0 else "timer", "seed": rng.randrange(10**9), "n": rng.randint(5, 40)} for i in range(n)]


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.text = []

    def emit(self, record):
        self.text.append(record.getMessage())


def run(case, mon):
    r = random.Random(case["seed"])
    lg = logging.getLogger("cfdtools")
    h, level = Collect(), lg.level
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    clock.now = r.uniform(0, 1e5)
    try:
        (memo if case["kind"] == "memo" else timers)(case, mon, r, h)
    finally:
        clock.now = None
        lg.removeHandler(h)
        lg.setLevel(level)


class Model:
    def __init__(self, nelem=None):
        self.total, self.start, self.nelem = 0.0, None, nelem


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b)) + 1e-9


def report(mon, h, total, nelem):
    """the message of a stop: total time, and time per element"""
    text = " ".join(h.text)
    t = re.findall(r"wtime:\s*([0-9.]+)\s*s", text)
    mon.check("report", len(t) == 1 and abs(float(t[0]) - total) <= 0.51e-4 + 1e-9 * total, lambda: f"{text!r} expected {total}")
    e = re.findall(r"([0-9.]+)\s*\S*s/elem", text)
    mon.check("per-element", len(e) == (0 if nelem is None else 1), lambda: f"{text!r} with {nelem} elements")
    if nelem is not None:
        x = 1e6 * total / nelem
        mon.check("per-element", abs(float(e[0]) - x) <= 0.51e-4 + 1e-9 * x, lambda: f"{text!r} expected {x}")


def timers(case, mon, r, h):
    ts = []
    for _ in range(r.randint(1, 3)):
        nelem = r.choice([None, None, 1, 10, 12345])
        args = r.choice([{}, {"task": "some task"}, {"task": "x" * 80, "ltab": 40}, {"msg": "message"}])
        if nelem is not None:
            args = dict(args, nelem=nelem)
        ts.append((api.Timer(**args), Model(nelem)))
    for step in range(case["n"]):
        clock.now += r.choice([0.0, r.uniform(0, 3), r.uniform(0, 1e-3), r.uniform(0, 500)])
        t, m = r.choice(ts)
        what = r.choice(["start", "start", "pause", "pause", "stop", "stop", "elapsed", "with", "reset"])
        mon.note(what)
        mon.stat("step", what)
        h.text.clear()
        if what == "start" and m.start is None:
            t.start()
            m.start = clock.now
        elif what == "start" or what in ("pause", "stop") and m.start is None:
            try:
                getattr(t, what)()
            except api.TimerError:
                mon.seen("refused")
            else:
                mon.check("refused", False, f"{what} accepted, running {m.start is not None}")
        elif what == "pause":
            t.pause()
            m.total += clock.now - m.start
            m.start = None
            mon.check("silent", not h.text, f"pause reports {h.text}")
        elif what == "stop":
            n = r.choice([None, None, 7, 1000])
            if n is None:
                t.stop()
            elif r.random() < 0.5:
                t.stop(n)
            else:
                t.stop(nelem=n)
            m.nelem = m.nelem if n is None else n
            report(mon, h, m.total + clock.now - m.start, m.nelem)
            m.total, m.start = 0.0, None
        elif what == "reset":
            t.reset()
            m.total, m.start = 0.0, None
        elif what == "with" and m.start is None:
            d = r.uniform(0, 50)
            fail = r.random() < 0.3
            inner = [x for x in ts if x[0] is not t and x[1].start is None]
            try:
                with t:
                    clock.now += d
                    if inner and r.random() < 0.5:
                        t2, m2 = inner[0]
                        t2.start()
                        clock.now += 1.25
                        d += 1.25
                        t2.pause()
                        m2.total += 1.25
                    if r.random() < 0.3:
                        mon.check("elapsed", close(t.elapsed, m.total), "elapsed while running")
                    h.text.clear()
                    if fail:
                        raise KeyError("inside")
            except KeyError:
                mon.check("error", fail, "unexpected error")
            else:
                mon.check("error", not fail, "error of a timed block is lost")
            report(mon, h, m.total + d, m.nelem)
            m.total = 0.0
        for x, y in ts:
            mon.check("elapsed", close(x.elapsed, y.total), lambda: f"{x.elapsed} expected {y.total} after {what}")
    mon.note(*[round(y.total, 6) for _, y in ts])


def memo(case, mon, r, h):
    log = []

    nothing = [r.choice([None, None, 0, False, "", (), 0.0]) for _ in range(3)]

    def result(k, a):
        # functions without result (for some arguments) too
        return nothing[k] if (len(a) + k + case["seed"]) % 3 == 0 else (k, a, len(a))

    def make(k):
        def plain(*a):
            log.append((k, a))
            if a and a[0] == "bad":
                raise ValueError(a)
            return result(k, a)

        return plain

    fs = [api.memoize(make(k)) for k in range(r.randint(1, 3))]

    def fib(n):
        log.append(("fib", n))
        return n if n < 2 else rec(n - 1) + rec(n - 2)

    rec = api.memoize(fib)
    seen = [set() for _ in fs]
    hits, misses = [0] * len(fs), [0] * len(fs)
    values = [1, 2, "a", "bad", (1, 2), None, -1, -2, 0, 2**61 - 1, "1", 0.5, 10**20, ""]
    for step in range(case["n"]):
        k = r.randrange(len(fs))
        a = tuple(r.choice(values) for _ in range(r.randint(0, 2)))
        log.clear()
        mon.note(k, a)
        new = a not in seen[k]
        try:
            got = fs[k](*a)
        except ValueError:
            mon.check("value", a[:1] == ("bad",), f"error for {a}")
            mon.check("calls", log == [(k, a)], f"{log}")
            misses[k] += 1
            continue
        mon.check("value", a[:1] != ("bad",) and got == result(k, a) and type(got) is type(result(k, a)), f"{got} for {k}, {a}")
        mon.check("calls", log == ([(k, a)] if new else []), f"{a} called {len(log)} times, new {new}")
        seen[k].add(a)
        hits[k] += not new
        misses[k] += new
        i = fs[k].cache_info()
        mon.check("info", (i.hits, i.misses, i.currsize) == (hits[k], misses[k], len(seen[k])), f"{i}")
    n = r.randint(2, 25)
    log.clear()
    x, y = 0, 1
    for _ in range(n):
        x, y = y, x + y
    mon.check("value", rec(n) == x and len(log) == n + 1, f"recursion of {n}: {len(log)} calls")
