"""Approximate kernels (Monte Carlo, ANNchor, Nystrom) on integer kernel tables."""
import functools
import itertools

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.random as jr
import numpy as np
from coreax import kernels as KK
from coreax.approximation import ANNchorApproximateKernel, MonteCarloApproximateKernel, NystromApproximateKernel
from coreax.data import Data

from harness.common import attempt
from harness.drivers.greedy import pow2
from harness.kernels import TableKernel

CLS = {"mc": MonteCarloApproximateKernel, "annchor": ANNchorApproximateKernel, "nystrom": NystromApproximateKernel}


@functools.lru_cache(maxsize=None)
def mean(method, k, t, wrap, eager=False):
    def run(base, key, x, w):
        ker = CLS[method](base, key, num_kernel_points=k, num_train_points=t)
        return ker.gramian_row_mean(Data(x, w) if wrap else x, block_size=2) if wrap else ker.gramian_row_mean(x)

    return run if eager else eqx.filter_jit(run)


def table(rng, n, k, t):
    """every t x k subsystem (rows any t points, columns any k points) is well conditioned"""
    for _ in range(4000):
        A = rng.integers(0, 2, (n, n))
        K = np.triu(A, 1) + np.triu(A, 1).T
        np.fill_diagonal(K, rng.integers(2, 4, n))
        ok = True
        for F in itertools.combinations(range(n), k):
            for T in itertools.combinations(range(n), t):
                s = np.linalg.svd(K[np.ix_(T, F)].astype(float), compute_uv=False)
                if s[-1] < 0.25:
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return K
    return None


def runs(seed, method, n, k, t, reps):
    rng = np.random.default_rng(seed)
    recs = []
    K = None
    for i in range(reps):
        if i % 4 == 0 or K is None:
            if k > 2 or t > 2 or (k, t) == (2, 2) or min(k, t) == 1:
                K = table(rng, n, k, t) if min(k, t) > 1 else nozero(rng, n)
            else:
                K = table(rng, n, k, t)
            if K is None:
                return recs
        wrap = i % 3 == 2
        P = rng.permutation(n)
        Kp = K[np.ix_(P, P)]
        T = np.zeros((n + 1, n + 1))
        T[1:, 1:] = Kp
        x = np.stack([np.arange(1, n + 1), np.sin(np.arange(n))], 1)
        sc = pow2(rng, 14)  # exact, and the mean scales along
        st, v = attempt(lambda: np.asarray(mean(method, k, t, wrap)(TableKernel(jnp.asarray(T * sc, jnp.float32)), jr.key(int(rng.integers(1 << 30))),
                                                                    jnp.asarray(x, jnp.float32), jnp.asarray(rng.integers(1, 4, n), jnp.float32)), float) / sc)
        r = dict(_spec="ApproxTrace", kind="fit", status="ok" if st == "ok" else v, method=method, n=n, k=k, t=t, K=Kp.tolist(), v=[], nan=False, tol=40)
        if st == "ok":
            r["nan"] = not bool(np.all(np.isfinite(v)) and np.abs(v).max() < 1e4)
            r["v"] = np.round(v * 10000).astype(int).tolist() if not r["nan"] else [0] * len(v)
        recs.append(r)
    return recs


def nozero(rng, n):
    """a positive table: single rows and columns are never zero"""
    A = rng.integers(1, 3, (n, n))
    K = np.triu(A, 1) + np.triu(A, 1).T
    np.fill_diagonal(K, rng.integers(3, 5, n))
    return K


def guards():
    recs = []
    n = 4
    x = jnp.asarray(np.random.default_rng(0).normal(size=(n, 2)), jnp.float32)
    for method in CLS:
        for k in (-1, 0, 1, 3, 4, 5, 9):
            for t in (-2, 0, 1, 4, 5, 8):
                st, v = attempt(lambda: np.asarray(mean(method, k, t, False, True)(KK.SquaredExponentialKernel(), jr.key(1), x, None)))
                recs.append(dict(_spec="ApproxTrace", kind="guard", status="ok", method=method, n=n, k=k, t=t, accepted=st == "ok"))
    return recs


def same(seed):
    rng = np.random.default_rng(seed)
    recs = []
    x, y = jnp.asarray(rng.normal(size=(4, 2)), jnp.float32), jnp.asarray(rng.normal(size=(3, 2)), jnp.float32)
    for base in (KK.SquaredExponentialKernel(0.8, 1.5), KK.PCIMQKernel(1.3, 0.7), KK.LinearKernel(2.0, 1.0), KK.LaplacianKernel(1.2), KK.RationalQuadraticKernel(1.1)):
        for method, cls in CLS.items():
            ker = cls(base, jr.key(0), num_kernel_points=2, num_train_points=3)
            for name, f in (("compute", lambda q: q.compute(x, y)), ("grad_x", lambda q: q.grad_x(x, y)), ("grad_y", lambda q: q.grad_y(x, y)),
                            ("divergence", lambda q: q.divergence_x_grad_y(x, y)), ("compute_mean", lambda q: q.compute_mean(x, y, axis=1)),
                            ("single", lambda q: q.compute_elementwise(x[0], y[0]))):
                st, v = attempt(lambda: [np.asarray(f(q), float).ravel() for q in (ker, base)])
                r = dict(_spec="ApproxTrace", kind="same", what=f"{method} {name}", status="ok" if st == "ok" else v, a=[], b=[])
                if st == "ok":
                    r.update(a=np.round(v[0] * 1e5).astype(int).tolist(), b=np.round(v[1] * 1e5).astype(int).tolist())
                recs.append(r)
    return recs


def library(seed, reps):
    """library kernels with all points as features and training points: the exact mean"""
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        n = int(rng.integers(2, 7))
        x = np.cumsum(rng.uniform(0.8, 1.6, (n, 2)), axis=0)[rng.permutation(n)]
        base = (KK.LaplacianKernel(0.7), KK.SquaredExponentialKernel(0.8), KK.MaternKernel(0.8))[i % 3]
        xj = jnp.asarray(x, jnp.float32)
        full = np.asarray(base.compute(xj, xj), float)
        for method in CLS:
            st, v = attempt(lambda: np.asarray(mean(method, n, n, i % 2 == 1)(base, jr.key(int(rng.integers(1 << 30))), xj, jnp.ones(n)), float))
            r = dict(_spec="ApproxTrace", kind="same", what=f"{method} exact mean", status="ok" if st == "ok" else v, a=[], b=[])
            if st == "ok":
                close = v.shape == (n,) and np.allclose(v, full.mean(0), atol=2e-3)
                r["a"] = np.round(full.mean(0) * 1000).astype(int).tolist()
                r["b"] = r["a"] if close else [int(q) for q in np.nan_to_num(np.round(v * 1000))]
            recs.append(r)
    return recs
