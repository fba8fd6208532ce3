"""Timed comparisons under a scripted clock, and the display of times."""
import logging
import re
import threading
import time
import timeit

import jax
import jax.numpy as jnp
import numpy as np
from coreax import util as U
from coreax.util import JITCompilableFunction, format_time, jit_test, speed_comparison_test
from jax.experimental import io_callback

from harness.common import attempt

T = "TimingTrace"


class Clock:
    """A clock of whole ticks; only tracing and executing the timed functions advances it."""

    now = 0
    reads = 0

    def seconds(self):
        self.reads += 1
        return float(self.now)

    def nanoseconds(self):
        self.reads += 1
        return self.now * 10**9


class Scripted:
    """Installs the clock wherever the library could take its readings from."""

    def __enter__(self):
        self.c = c = Clock()
        swap = {time.perf_counter: c.seconds, time.perf_counter_ns: c.nanoseconds}
        self.old = []
        for mod in (time, timeit, U):
            for k, v in list(vars(mod).items()):
                if callable(v) and any(v is q for q in swap):
                    self.old.append((mod, k, v))
        for mod, k, v in self.old:
            setattr(mod, k, swap[v])
        return c

    def __exit__(self, *_):
        for mod, k, v in self.old:
            setattr(mod, k, v)


class Timed:
    """A function whose tracing and executions cost prescribed ticks."""

    def __init__(self, clock, rng, key):
        self.clock, self.rng, self.key = clock, rng, key
        self.runs, self.traces, self.execs, self.argsok = [], 0, 0, True
        self.lock = threading.Lock()

    def _spent(self, x):
        time.sleep(0.004)
        with self.lock:
            cost = int(self.rng.integers(0, 9))
            self.clock.now += cost
            self.execs += 1
            self.argsok &= float(np.asarray(x)) == self.key
            if self.runs:
                self.runs[-1]["a" if self.runs[-1]["n"] == 0 else "b"] = cost
                self.runs[-1]["n"] += 1
        return np.float32(x)

    def __call__(self, x, *, y=0.0, flag="u"):
        cost = int(self.rng.integers(0, 12))
        self.clock.now += cost
        self.traces += 1
        self.argsok &= flag == "u" or flag == f"f{self.key}"
        self.runs.append(dict(c=cost, a=0, b=0, n=0))
        return io_callback(self._spent, jax.ShapeDtypeStruct((), jnp.float32), jnp.float32(x) + y)

    def setup(self, style):
        k = float(self.key)
        if style == 0:
            return (self, (k,)), {}
        if style == 1:
            return (self, (k - 1.0,), {"y": 1.0}), {}
        return (self, (k,), {"flag": f"f{self.key}"}, {"static_argnames": ("flag",)}), {}


def cents(v):
    return [int(q) for q in np.clip(np.round(np.nan_to_num(np.asarray(v, float) * 100, nan=9e6)), -9e6, 9e6).ravel()]


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines = []

    def emit(self, r):
        self.lines.append(r.getMessage())


def compare(seed, reps):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        nf, num = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        norm = [1, 1] if i % 3 == 0 else [int(rng.integers(1, 5)), int(rng.integers(1, 5))]
        names = [["", "one", "two", "one"][int(rng.integers(0, 4))] for _ in range(nf)]
        log = bool(i % 2)
        h = Catch()
        lg = logging.getLogger("coreax")
        lg.addHandler(h)
        lv = lg.level
        lg.setLevel(logging.INFO)
        lg.propagate = False
        was = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        with Scripted() as c:
            fs = [Timed(c, rng, k + 3) for k in range(nf)]
            sets = []
            for f, nm in zip(fs, names):
                a, _ = f.setup(int(rng.integers(0, 3)))
                a = list(a) + [(), None, None][len(a) - 1:]
                sets.append(JITCompilableFunction(*a, name=nm or None))
            st, v = attempt(lambda: speed_comparison_test(sets, num_runs=num, log_results=log,
                                                          normalisation=None if i % 3 == 0 else tuple(map(float, norm))))
            read = c.reads
        lg.removeHandler(h)
        lg.setLevel(lv)
        lg.propagate = True
        logging.disable(was)
        if not read:
            continue
        r = dict(_spec=T, kind="compare", status="ok" if st == "ok" else v, num=num, norm=norm, log=log,
                 logged=bool(h.lines), shown=True, argsok=all(f.argsok for f in fs), results=[], names=[], fs=[])
        if st == "ok":
            res, tab = v
            r["results"] = [dict(mean=cents(m), dev=cents(d)) for m, d in res]
            r["names"] = sorted(tab)
            if log and i % 3 == 0:
                r["shown"] = all(any(format_time(float(q)) in ln for ln in h.lines) for md in res for s in md for q in s)
        for k, (f, nm) in enumerate(zip(fs, names)):
            t = np.asarray(v[1].get(nm or f"function_{k + 1}", np.zeros(0))) if st == "ok" else np.zeros(0)
            r["fs"].append(dict(name=nm, traces=f.traces, execs=f.execs, runs=[dict(c=q["c"], a=q["a"], b=q["b"]) for q in f.runs],
                                shape=list(t.shape), table=[cents(row) for row in t] if t.ndim == 2 else []))
        recs.append(r)
    return recs


def pair(seed, reps):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        with Scripted() as c:
            f = Timed(c, rng, i + 2)
            a, k = f.setup(i % 3)
            st, v = attempt(lambda: jit_test(*a, **k))
            read = c.reads
        if not read:
            continue
        run = f.runs[0] if f.runs else dict(c=0, a=0, b=0)
        recs.append(dict(_spec=T, kind="pair", status="ok" if st == "ok" else v, traces=f.traces, execs=f.execs, argsok=f.argsok,
                         run={q: run[q] for q in "cab"}, out=cents(v) if st == "ok" else []))
    return recs


def display(seed, reps):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        e = int(rng.integers(-16, 3))
        m = int(rng.choice([int(rng.integers(1, 10**4)), int(rng.integers(1, 100)), 1001, 9999, 101, 11, 0, 5]))
        if m and set(str(m)) <= {"1", "0"} and str(m).strip("0") == "1":
            m = 2 * m  # exact powers of ten: the logarithm may round to either side
        neg = bool(rng.integers(0, 4) == 0)
        s = format_time((-1 if neg else 1) * float(f"{m}e{e}"))
        g = re.fullmatch(r"(-?)([0-9.]+(?:e[+-]?\d+)?) (mins|s|ms|\u03bcs|\u00b5s|ns|ps)", s)
        if not g:
            recs.append(dict(_spec=T, kind="display", m=m, e=e, neg=neg, shownneg=False, unit="?" + repr(s), h=-1))
            continue
        h = float(g[2]) * 100
        recs.append(dict(_spec=T, kind="display", m=m, e=e, neg=neg, shownneg=bool(g[1]),
                         unit={"\u03bcs": "us", "\u00b5s": "us"}.get(g[3], g[3]), h=int(round(min(h, 2e8)))))
    return recs
