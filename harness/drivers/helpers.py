"""Distance helpers, median heuristic, tree utilities and the benchmark helpers."""
import jax
import jax.numpy as jnp
import jax.random as jr
import jax.scipy as jsp
import numpy as np
from coreax import Data
from coreax.benchmark_util import IterativeKernelHerding, calculate_delta, initialise_solvers
from coreax.kernels import SquaredExponentialKernel, SteinKernel, median_heuristic
from coreax.solvers.coresubset import HerdingState
from coreax.solvers import (CompressPlusPlus, KernelHerding, KernelThinning, MapReduce, RandomSample, RPCholesky, SteinThinning)
from coreax.util import (apply_negative_precision_threshold, difference, pairwise, squared_distance, tree_leaves_repeat,
                         tree_zero_pad_leading_axis)

from harness.common import attempt

T = "HelpersTrace"


def rec(kind, st, v, **k):
    return dict(_spec=T, kind=kind, status="ok" if st == "ok" else v, **k)


def ints(a, s=1):
    return np.clip(np.round(np.nan_to_num(np.asarray(a, float) * s, nan=9e8, posinf=9e8, neginf=-9e8)), -9e8, 9e8).astype(int).tolist()


def pairs(seed, reps):
    rng = np.random.default_rng(seed)
    recs = []
    fns = dict(sq=squared_distance, diff=difference, first=lambda x, y: x[0] + 100 * y[0])
    for i in range(reps):
        n, m, d = (int(rng.integers(1, 6)) for _ in range(3))
        X, Y = rng.integers(-20, 21, (n, d)), rng.integers(-20, 21, (m, d))
        for name, f in fns.items():
            st, v = attempt(lambda: np.asarray(pairwise(f)(jnp.asarray(X, jnp.float32), jnp.asarray(Y, jnp.float32)), float))
            out = ints(v.reshape(v.shape[0], v.shape[1], -1)) if st == "ok" and v.ndim >= 2 else []
            recs.append(rec("pairwise", st, v, fn=name, X=X.tolist(), Y=Y.tolist(), out=out))
        # a single point counts as one row, a number as a point of one dimension
        st, v = attempt(lambda: np.asarray(pairwise(squared_distance)(jnp.asarray(X[0], jnp.float32), jnp.asarray(Y, jnp.float32)), float))
        recs.append(rec("pairwise", st, v, fn="sq", X=X[:1].tolist(), Y=Y.tolist(), out=ints(v[..., None]) if st == "ok" else []))
        a, b = int(X[0, 0]), int(Y[0, 0])
        st, v = attempt(lambda: [np.asarray(squared_distance(a, b), float).reshape(1, 1, 1), np.asarray(difference(a, b), float).reshape(1, 1, 1)])
        for k, name in enumerate(("sq", "diff")):
            recs.append(rec("pairwise", st, v, fn=name, X=[[a]], Y=[[b]], out=ints(v[k]) if st == "ok" else []))
    return recs


def medians(seed, reps):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        n, d = int(rng.integers(2, 9)), int(rng.integers(1, 4))
        X = rng.integers(0, [3, 6, 30][i % 3], (n, d))
        if i % 4 == 0:
            X[rng.integers(n)] = X[0]
        sx = 2.0 ** int(rng.choice([0, 0, -12, 9, 16]))  # exact, and the length scale scales along
        x = jnp.asarray(X * sx, jnp.float32)
        if d == 1 and i % 2:
            x = x[:, 0]
        st, v = attempt(lambda: float(median_heuristic(x)) / sx)
        sq = v * v * 10000 if st == "ok" else 0
        recs.append(rec("median", st, v, X=X.tolist(), sq=ints(sq), tol=4 + int(abs(np.nan_to_num(sq)) * 1e-5)))
    return recs


def small(seed, reps):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        x, t = int(rng.integers(-12, 8)), int(rng.integers(-9, 10))
        st, v = attempt(lambda: float(apply_negative_precision_threshold(x / 16, t / 16)))
        recs.append(rec("threshold", st, v, x=x, t=t, out=ints(v, 16) if st == "ok" else 0))
        leaves = [int(q) for q in rng.integers(0, 9, int(rng.integers(1, 5)))]
        none = rng.random() < 0.3
        tree = [None if none and k == len(leaves) - 1 else q for k, q in enumerate(leaves)]
        arg = tree[0] if len(tree) == 1 else tuple(tree)
        k = int(rng.integers(0, 7))
        st, v = attempt(lambda: tree_leaves_repeat(arg, k))
        code = lambda s: [-1 if q is None else int(q) for q in s]  # noqa: E731
        recs.append(rec("repeat", st, v, x=code(tree), k=k, out=code(v) if st == "ok" else []))
        arrs = [rng.integers(-9, 10, (int(rng.integers(1, 4)), int(rng.integers(1, 3)))) for _ in range(int(rng.integers(1, 3)))]
        k = int(rng.integers(-2, 4))
        st, v = attempt(lambda: tree_zero_pad_leading_axis((*[jnp.asarray(a) for a in arrs], "keep", 3, None), k))
        ok = st == "ok"
        recs.append(rec("pad", "ok", v, x=[a.tolist() for a in arrs], k=k, refused=not ok, out=[np.asarray(a).tolist() for a in v[:len(arrs)]] if ok else [],
                        kept=bool(ok and tuple(v[len(arrs):]) == ("keep", 3, None))))
    for n in (1, 2, 3, 4, 5, 8, 16, 20, 64, 100, 1000):
        st, v = attempt(lambda: float(calculate_delta(n)))
        recs.append(rec("delta", st, v, n=n, inv=ints(10000 / (n * v)) if st == "ok" and v else 0))
    return recs


def same(what, st, v):
    return rec("same", st, v, what=what, a=v[0] if st == "ok" else [], b=v[1] if st == "ok" else [])


def idx(solver, data):
    return [int(i) for i in np.asarray(solver.reduce(data)[0].unweighted_indices)]


def iterative(seed, reps):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        n, m, k = int(rng.integers(8, 14)), int(rng.integers(2, 5)), int(rng.integers(1, 5))
        X = jnp.asarray(rng.normal(size=(n, 2)), jnp.float32)
        data = Data(X, jnp.asarray(rng.integers(1, 4, n), jnp.float32))
        sched = [None, jnp.asarray(rng.uniform(0.01, 1, k), jnp.float32)][i % 2]
        kw = dict(coreset_size=m, kernel=SquaredExponentialKernel(1.0), probabilistic=i % 2 == 1 or i % 3 == 0, temperature=0.05, random_key=jr.key(int(rng.integers(1 << 30))), unique=i % 4 != 3)

        # none, or a mean the data does not have (both must use it)
        state = None if i % 5 < 3 else HerdingState(jnp.asarray(rng.uniform(0, 1, n), jnp.float32))

        def go():
            a = IterativeKernelHerding(**kw, num_iterations=k, t_schedule=sched).reduce(data, state)
            b = KernelHerding(**kw).reduce_iterative(data, state, num_iterations=k, t_schedule=sched)
            return [[int(q) for q in np.asarray(z[0].unweighted_indices)] + ints(z[1].gramian_row_mean, 1e4) for z in (a, b)]

        recs.append(same("iterated herding and its solver class", *attempt(go)))
    return recs


def solvers(seed, leaf=None):
    rng = np.random.default_rng(seed)
    n, size = 40, 4
    X = rng.integers(0, 12, (n, 2))
    data = Data(jnp.asarray(X, jnp.float32))
    key = jr.key(int(rng.integers(1 << 30)))
    st, made = attempt(lambda: initialise_solvers(data, key, 1, leaf))
    if st != "ok":
        return [rec("same", st, made, what="", a=[], b=[])]
    recs = []
    delta = float(calculate_delta(n))
    scale = float(median_heuristic(data.data))
    kern = SquaredExponentialKernel(length_scale=scale)
    sq = dict(kernel=kern, random_key=key, delta=delta, sqrt_kernel=kern.get_sqrt_kernel(16))
    wrap = (lambda s: s) if leaf is None else (lambda s: MapReduce(s, leaf_size=leaf))  # noqa: E731
    n_c = 10
    want = {
        "Random Sample": lambda: RandomSample(size, key),
        "RP Cholesky": lambda: RPCholesky(coreset_size=size, kernel=kern, random_key=key),
        "Kernel Herding": lambda: wrap(KernelHerding(size, kern)),
        "Kernel Thinning": lambda: wrap(KernelThinning(coreset_size=size, **sq)),
        "Compress++": lambda: CompressPlusPlus(coreset_size=size, g=1, **sq),
        "Iterative Herding": lambda: wrap(IterativeKernelHerding(coreset_size=size, kernel=kern, num_iterations=5)),
        "Iterative Probabilistic Herding (constant)": lambda: wrap(IterativeKernelHerding(
            coreset_size=size, kernel=kern, probabilistic=True, temperature=0.001, random_key=key, num_iterations=5)),
        "Iterative Probabilistic Herding (cubic)": lambda: wrap(IterativeKernelHerding(
            coreset_size=size, kernel=kern, probabilistic=True, temperature=0.001, random_key=key, num_iterations=n_c,
            t_schedule=1 / jnp.linspace(10, 100, n_c) ** 3)),
    }
    for name, f in want.items():
        recs.append(same(name, *attempt(lambda: [idx(made[name](size), data), idx(f(), data)])))
    st, v = attempt(lambda: idx(made["Stein Thinning"](size), data))
    ok = st == "ok" and len(set(v)) == size and all(0 <= q < n for q in v)
    recs.append(same("Stein Thinning returns distinct rows", st, v if st != "ok" else [[True], [bool(ok)]]))
    # Stein thinning on the score of a density estimate of the data, on points without ties
    real = Data(jnp.asarray(rng.normal(size=(n, 2)), jnp.float32))
    kde = jsp.stats.gaussian_kde(real.data.T)
    stein = SteinKernel(SquaredExponentialKernel(length_scale=float(median_heuristic(real.data))),
                        score_function=jax.grad(lambda x: kde.logpdf(x.reshape(1, -1))[0]))
    recs.append(same("Stein Thinning", *attempt(lambda: [
        idx(initialise_solvers(real, key, 1, leaf)["Stein Thinning"](size), real),
        idx(wrap(SteinThinning(coreset_size=size, kernel=stein, regularise=True)), real)])))
    st, v = attempt(lambda: float(getattr(made["RP Cholesky"](size), "kernel").length_scale))
    recs.append(rec("median", st, v, X=X.tolist(), sq=ints(v * v * 10000) if st == "ok" else 0, tol=60))
    return recs
