"""MapReduce with a recording base solver: what each partition received and what it kept."""
import itertools
import warnings

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from coreax.coreset import Coresubset, PseudoCoreset
from coreax.data import Data, SupervisedData
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding, MapReduce
from coreax.solvers.base import CoresubsetSolver, ExplicitSizeSolver, PaddingInvariantSolver
from sklearn.neighbors import BallTree, KDTree

from harness.common import attempt


class Runaway(Exception):
    pass


class Log:
    def __init__(self):
        self.calls = 0
        self.parts = []

    def __hash__(self):
        return id(self)


class Recorder(CoresubsetSolver, ExplicitSizeSolver, PaddingInvariantSolver):
    """Keeps the m positively weighted rows of highest priority (a fixed scramble of the row id)."""

    log: Log = eqx.field(static=True)
    herd: bool = eqx.field(static=True, default=False)

    def reduce(self, dataset, solver_state=None):
        self.log.calls += 1
        level = self.log.calls
        if level > 40:
            raise Runaway("map-reduce does not stop")
        y = dataset.supervision if isinstance(dataset, SupervisedData) else dataset.data[:, :1]
        ids = jnp.round(y[:, 0]).astype(jnp.int32)
        if self.herd:
            c, _ = KernelHerding(coreset_size=self.coreset_size, kernel=SquaredExponentialKernel(0.7)).reduce(dataset)
            keep = c.unweighted_indices
        else:
            prio = jnp.where(dataset.weights > 0, (ids * 7919 + level * 31) % 104729, -1)
            keep = jnp.argsort(-prio)[: self.coreset_size]

        def note(x, yy, w, kp, lv):
            self.log.parts.append((int(lv), np.array(x), np.array(yy), np.array(w), np.array(kp)))

        jax.debug.callback(note, dataset.data, y, dataset.weights, keep, level)
        return Coresubset(Data(keep), dataset), None


class PseudoRecorder(ExplicitSizeSolver, PaddingInvariantSolver):
    """The same choice of rows, returned as free points (no indices)."""

    log: Log = eqx.field(static=True)

    def reduce(self, dataset, solver_state=None):
        c, _ = Recorder(self.coreset_size, self.log).reduce(dataset)
        return PseudoCoreset(dataset[c.unweighted_indices], dataset), None


def build_record(log, st, out, n, m, leaf, X, Y, W, sup, what):
    rec = dict(_spec="MapReduceTrace", n=n, m=m, leaf=leaf, idx=[], levels=[], result=0, what=what,
               status="ok" if st == "ok" else ("does not stop" if "does not stop" in str(out) else "call raised an error: " + str(out)))
    if st != "ok":
        return rec
    rec["idx"] = [int(i) + 1 for i in out[0]]
    for lv in sorted({p[0] for p in log.parts}):
        parts = []
        for _, x, y, w, kp in [p for p in log.parts if p[0] == lv]:
            ids = np.round(y[:, 0]).astype(int)
            real = ids > 0
            mixed = 0
            for r in np.flatnonzero(real):
                i = ids[r] - 1
                if not (0 <= i < n) or not np.array_equal(x[r], X[i]) or (sup and not np.array_equal(y[r], Y[i])):
                    mixed += 1
                elif lv == 1 and w[r] != W[i]:
                    mixed += 1
                elif w[r] <= 0 and W[i] > 0:
                    mixed += 1
            fill = ~real
            parts.append(dict(ids=ids[real].tolist(), fill=int(fill.sum()), badfill=int((w[fill] != 0).sum()),
                              mixed=mixed, kept=[int(ids[k]) for k in kp]))
        parts.sort(key=lambda p: p["ids"])
        rec["levels"].append(parts)
    P, Q, cX, cY, cW = [np.asarray(v) for v in out[1:]]
    i = np.asarray(out[0])
    bad = 0
    ok = ((0 <= i) & (i < n)).all()
    bad += not ok or not np.array_equal(P, X[i])
    bad += sup and ok and not np.array_equal(Q, Y[i])
    bad += not np.array_equal(cX, X) or not np.array_equal(cW, W) or (sup and not np.array_equal(cY, Y))
    rec["result"] = int(bad)
    return rec


def data_for(rng, n, d, style, sup):
    ids = np.arange(1, n + 1, dtype=np.float32)[:, None]
    if style == "dup":
        X = rng.integers(0, 4, (n, d)).astype(np.float32)
    elif style == "const":
        X = np.ones((n, d), np.float32) * 2
    elif style == "cluster":
        X = (rng.normal(size=(n, d)) * 0.01 + rng.integers(-1, 2, (n, 1)) * 50).astype(np.float32)
    elif style == "sorted":
        X = np.sort(rng.normal(size=(n, d)), axis=0).astype(np.float32)
    else:
        X = rng.normal(size=(n, d)).astype(np.float32)
    if not sup:
        X = np.hstack([ids, X]).astype(np.float32)
    return X, ids


def runs(seed, cases, reps=2):
    """cases: (n, m, leaf, d, style, supervised, ball, weighted, herd, jit)."""
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(seed)
    recs = []
    for n, m, leaf, d, style, sup, ball, weighted, herd, jit in cases:
        log = Log()

        def call(x, y, w):
            ds = SupervisedData(x, y, w) if sup else Data(x, w)
            base = PseudoRecorder(m, log) if herd == "pseudo" else Recorder(coreset_size=m, log=log, herd=herd)
            s = MapReduce(base, leaf_size=leaf, tree_type=BallTree if ball else KDTree)
            c, _ = s.reduce(ds)
            pre, pts = c.pre_coreset_data, c.points
            idx = c.unweighted_indices if herd != "pseudo" else (pts.supervision if sup else pts.data)[:, 0].astype(int) - 1
            return (idx, pts.data, pts.supervision if sup else jnp.zeros((0, 1)), pre.data,
                    pre.supervision if sup else jnp.zeros((0, 1)), pre.weights)

        f = jax.jit(call) if jit else call
        for _ in range(reps if jit else 1):
            X, Y = data_for(rng, n, d, style, sup)
            W = (rng.integers(1, 5, n) / 2 if weighted else np.ones(n)).astype(np.float32)
            log.parts.clear()
            if not jit:
                log.calls = 0
            st, out = attempt(f, jnp.asarray(X), jnp.asarray(Y), jnp.asarray(W))
            if st == "ok":
                out = [np.asarray(v) for v in out]
                jax.effects_barrier()
            recs.append(build_record(log, st, out, n, m, leaf, X, Y, W, sup, [style, d, ball, weighted, herd, jit]))
    return recs


def finding(seed=0):
    """The specific history of finding 'mapreduce-small-leaf': n=100, leaf 3, size 2."""
    r = runs(seed, [(100, 2, 3, 2, "any", True, False, False, False, False)], reps=1)
    for x in r:
        x["_meta"] = dict(finding="mapreduce-small-leaf")
    return r


def refused():
    """Leaf sizes not above the coreset size, and base solvers of no explicit size, are refused."""
    recs = []
    for m, leaf in ((3, 3), (3, 2), (1, 1), (4, 0)):
        st, out = attempt(lambda m=m, leaf=leaf: MapReduce(Recorder(m, Log()), leaf_size=leaf))
        recs.append(dict(_spec="SameTrace", what=f"leaf size {leaf} for coreset size {m} refused", a=[st != "ok"],
                         b=[True], status="ok"))
    return recs
