"""Greedy kernel points on exact integer instances."""
import functools
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from coreax.coreset import Coresubset
from coreax.data import Data, SupervisedData
from coreax.least_squares import MinimalEuclideanNormSolver, RandomisedEigendecompositionSolver
from coreax.solvers import GreedyKernelPoints

from harness.common import attempt
from harness.drivers.greedy import features, pow2
from harness.kernels import TableKernel, padded_table


@functools.lru_cache(maxsize=None)
def runner(n, m, uniq, nstart, cb, lb, lam, iters, cached, mode):
    x = features(n, 1)

    def run(table, y, start, key, sc):
        ds = SupervisedData(x, y)
        s = GreedyKernelPoints(coreset_size=m, random_key=key, feature_kernel=TableKernel(table),
                               regularisation_parameter=lam * sc, unique=uniq, candidate_batch_size=cb, loss_batch_size=lb)
        st = None
        if cached:
            _, st = GreedyKernelPoints(coreset_size=1, random_key=key, feature_kernel=TableKernel(table)).reduce(ds)
        out = []
        if mode == "reduce":
            c, st = s.reduce(ds, st)
            out.append(c.unweighted_indices)
            left = iters - 1
        else:
            c = Coresubset(Data(start), ds)
            left = iters
        for _ in range(left):
            c, st = s.refine(c, st)
            out.append(c.unweighted_indices)
        return jnp.stack(out)

    return jax.jit(run)


def instance(rng, n, style):
    while True:
        B = rng.integers(-1, 2, (n, 3))
        if style == "dup":
            B = B[rng.integers(0, max(2, n // 2), n)]
        K = B @ B.T
        if style == "diag":
            K = K + np.eye(n, dtype=int)
        if style == "const":
            K = np.ones((n, n), int)
        if K.diagonal().max() <= 4:
            break
    y = rng.integers(-3, 4, n)
    if style == "const":
        y = np.full(n, 2)
    return K, y


def runs(seed, count, n, m, uniq=True, nstart=0, cb=None, lb=None, lam=1.0, iters=1, cached=False, mode="reduce",
         style="any"):
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(seed)
    run = runner(n, m, uniq, nstart, cb, lb, lam, iters, cached, mode)
    recs = []
    for _ in range(count):
        K, y = instance(rng, n, style)
        start = [int(s) + 1 for s in rng.choice(n, nstart, replace=not uniq)] if mode == "refine" else []
        sc = pow2(rng, 12)
        st, out = attempt(run, padded_table(K) * sc, jnp.asarray(y * pow2(rng, 8), jnp.float32)[:, None],
                          jnp.asarray(np.array(start, int) - 1 if start else np.zeros(1, int)),
                          jax.random.key(int(rng.integers(1 << 30))), sc)
        recs.append(dict(_spec="GKPTrace", n=n, K=K.tolist(), y=y.tolist(), lam=int(lam), m=m, uniq=uniq, start=start,
                         cb=min(n, cb or n), lb=min(n, lb or n), eps=3, status="ok" if st == "ok" else out,
                         runs=[[int(i) + 1 for i in r] for r in np.asarray(out)] if st == "ok" else []))
    return recs


def refine(seed, count, n, m, nstart, **k):
    return runs(seed, count, n, min(m, 4), nstart=nstart, mode="refine", **k)
