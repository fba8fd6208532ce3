"""All subset solvers, through their public reduce/refine: raw shape of what they return."""
import math
import warnings

import jax
import jax.numpy as jnp
import numpy as np
from coreax.coreset import Coresubset
from coreax.data import Data, SupervisedData
from coreax.kernels import LinearKernel, PCIMQKernel, SquaredExponentialKernel, LaplacianKernel
from coreax.solvers import (
    CompressPlusPlus, GreedyKernelPoints, KernelHerding, KernelThinning, MapReduce, RandomSample, RPCholesky,
    SteinThinning,
)
from coreax.solvers.coresubset import HerdingState
from sklearn.neighbors import BallTree, KDTree

from harness.common import attempt
from harness.kernels import TableKernel

KERN = {"se": lambda: SquaredExponentialKernel(0.9), "imq": lambda: PCIMQKernel(1.2),
        "lap": lambda: LaplacianKernel(1.1), "lin": lambda: LinearKernel(),
        "const": lambda: TableKernel(jnp.ones((200, 200)))}


def build(solver, m, key, kern="se", uniq=True, **o):
    k = KERN[kern]()
    if solver == "random":
        return RandomSample(coreset_size=m, random_key=key, unique=uniq, weighted=o.get("weighted", False))
    if solver == "herd":
        return KernelHerding(coreset_size=m, kernel=k, unique=uniq, block_size=o.get("block"))
    if solver == "prob":
        return KernelHerding(coreset_size=m, kernel=k, unique=uniq, probabilistic=True, random_key=key,
                             temperature=o.get("temp", 0.05))
    if solver == "stein":
        return SteinThinning(coreset_size=m, kernel=k, unique=uniq, regularise=o.get("reg", True))
    if solver == "rpc":
        return RPCholesky(coreset_size=m, kernel=k, random_key=key, unique=uniq)
    if solver == "gkp":
        return GreedyKernelPoints(coreset_size=m, random_key=key, feature_kernel=k, unique=uniq,
                                  candidate_batch_size=o.get("cand"), loss_batch_size=o.get("loss"),
                                  regularisation_parameter=o.get("lam", 1e-2))
    if solver == "kt":
        return KernelThinning(coreset_size=m, kernel=k, random_key=key, delta=o.get("delta", 0.05), sqrt_kernel=k)
    if solver == "cpp":
        return CompressPlusPlus(coreset_size=m, g=o.get("g", 1), kernel=k, random_key=key, delta=0.05, sqrt_kernel=k)
    if solver == "mr":
        return MapReduce(build(o.get("base", "herd"), m, key, kern, uniq), leaf_size=o["leaf"],
                         tree_type=BallTree if o.get("ball") else KDTree)
    raise KeyError(solver)


def bits(a):
    a = np.asarray(a)
    if a.dtype != np.float32:
        return a.astype(np.int64).tolist()
    return np.ascontiguousarray(a).view(np.int32).tolist()


def _raw(c):
    pts, pre = c.points, c.pre_coreset_data
    sup = isinstance(pre, SupervisedData)
    return (c.unweighted_indices, pts.data, pts.supervision if sup else jnp.zeros((0, 1)), pre.data,
            pre.supervision if sup else jnp.zeros((0, 1)), pre.weights)


def dataset(rng, n, d, sup, wstyle, dup=False, const=False, vec=False):
    X = rng.normal(size=(n, d)).astype(np.float32)
    if dup:
        X = X[rng.integers(0, max(2, n // 3), n)]
    if const:
        X = np.ones((n, d), np.float32)
    Y = rng.normal(size=(n, 1)).astype(np.float32)
    w = {"one": np.ones(n), "mixed": rng.integers(0, 3, n), "pos": rng.integers(1, 5, n) / 4}[wstyle].astype(np.float32)
    return X, Y, w


def runs(seed, count, solver, n, m, d=2, sup=False, wstyle="one", dup=False, const=False, kern="se", uniq=True,
         start=None, eager=False, feasible=True, skipzero=False, min_pos=None, reuse=False, vec=False, **o):
    """`start`: refine a random duplicate-free coreset of that size instead of reducing."""
    rng = np.random.default_rng(seed)
    warnings.simplefilter("ignore")

    def call(key, x, y, w, st):
        ds = SupervisedData(x, y, w) if sup else Data(x, w)
        s = build(solver, m, key, kern, uniq, **o)
        if start:
            c, state = s.refine(Coresubset(Data(st), ds))
        else:
            c, state = s.reduce(ds)
        if reuse:  # a second solve from the returned state
            c, state = s.reduce(ds, state)
        return _raw(c)

    f = call if eager else jax.jit(call)
    recs = []
    for k in range(count):
        X, Y, w = dataset(rng, n, d, sup, wstyle, dup, const)
        need = max(m, start or 0, min_pos or 0)
        while (w > 0).sum() < min(n, need):
            w[rng.integers(n)] = 1
        if kern == "const":
            X[:, 0] = np.arange(n)
        st = rng.choice(np.flatnonzero(w > 0), start, replace=False) if start else np.zeros(1, int)
        key = jax.random.key(int(rng.integers(1 << 30)))
        jx, jy, jw = jnp.asarray(X), jnp.asarray(Y), jnp.asarray(w)
        s, out = attempt(f, key, jx[:, 0] if vec else jx, jy[:, 0] if vec else jy, jw, jnp.asarray(st))
        r = dict(_spec="SubsetTrace", solver=solver, n=n, m=m, uniq=uniq, sup=sup, feasible=feasible,
                 skipzero=skipzero, X=bits(X), Y=bits(Y) if sup else [], W=(w > 0).astype(int).tolist(),
                 Wbits=bits(w), status="ok" if s == "ok" else out, idx=[], P=[], Q=[], cX=[], cY=[], cW=[],
                 before=[bits(X), bits(Y), bits(w)], after=[bits(np.asarray(jx)), bits(np.asarray(jy)), bits(np.asarray(jw))])
        if s == "ok":
            idx, P, Q, cX, cY, cW = [np.asarray(v) for v in out]
            r.update(idx=[int(i) + 1 for i in idx], P=bits(P), Q=bits(Q), cX=bits(cX), cY=bits(cY), cW=bits(cW))
        recs.append(r)
    return recs


def sizes(seed, solver, n, ms, sup=False, kern="se", **o):
    """Sweep of requested sizes, feasible or not (outside compiled code)."""
    recs = []
    for i, m in enumerate(ms):
        recs += runs(seed + i, 1, solver, n, m, sup=sup, kern=kern, eager=True, **o)
    return recs


def vacuous_sizes(seed, solver, n, ms, sup=False, **o):
    """Infeasible sizes only: construction or reduction must fail."""
    recs = []
    for i, m in enumerate(ms):
        recs += runs(seed + i, 1, solver, n, m, sup=sup, eager=True, **o)
    return recs


def cpp_feasible(n, m, g):
    p = 0
    while 4 ** (p + 1) <= n:
        p += 1
    return 1 <= m <= n and 0 <= g <= p and m <= 2**g * 2**p


def cpp_settings(seed, cases, kern="se"):
    """CompressPlusPlus over settings (n, m, g); the harness states which are feasible."""
    recs = []
    for i, (n, m, g) in enumerate(cases):
        recs += runs(seed + i, 1, "cpp", n, m, g=g, kern=kern, eager=not cpp_feasible(n, m, g), uniq=True,
                     feasible=cpp_feasible(n, m, g))
    return recs


def large(seed, solver, n, m, sup=False, d=2, half=False, **o):
    """Datasets of tens of thousands of rows, drawn so that selected rows lie anywhere."""
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(seed)
    X = rng.normal(size=(n, d)).astype(np.float32)
    Y = rng.normal(size=(n, 1)).astype(np.float32)
    w = np.ones(n, np.float32)
    if half:  # all weight beyond the first half
        w[: n // 2 + 5] = 0
    key = jax.random.key(int(rng.integers(1 << 30)))

    def call(key, x, y, w):
        ds = SupervisedData(x, y, w) if sup else Data(x, w)
        state = None
        if solver in ("herd", "prob"):
            state = HerdingState(jnp.sin(jnp.arange(n, dtype=jnp.float32)))
        return _raw(build(solver, m, key, "se", True, **o).reduce(ds, state)[0])

    st, out = attempt(jax.jit(call), key, jnp.asarray(X), jnp.asarray(Y), jnp.asarray(w))
    r = dict(_spec="SubsetTrace", solver=solver, n=n, m=m, uniq=True, sup=sup, idx=[], P=[], Q=[], rows=[], resp=[],
             carried=True, usable=[], status="ok" if st == "ok" else out)
    if st == "ok":
        idx, P, Q, cX, cY, cW = [np.asarray(v) for v in out]
        i = idx.astype(np.int64) % n
        r.update(idx=[int(j) + 1 for j in idx], P=bits(P), Q=bits(Q), rows=bits(X[i]), resp=bits(Y[i]),
                 usable=[int(v > 0) if half else 1 for v in w[i]],
                 carried=bool(np.array_equal(cX, X) and np.array_equal(cW, w) and (not sup or np.array_equal(cY, Y))))
    return [r]
