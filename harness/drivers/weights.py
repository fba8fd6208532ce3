"""Weight optimisers on integer kernel tables and on library kernels."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from coreax.coreset import Coresubset, PseudoCoreset
from coreax.data import Data
from coreax.kernels import LaplacianKernel, PCIMQKernel, SquaredExponentialKernel
from coreax.weights import MMDWeightsOptimiser, SBQWeightsOptimiser

from harness.common import attempt
from harness.drivers.greedy import pow2
from harness.kernels import TableKernel

CLS = {"sbq": SBQWeightsOptimiser, "mmd": MMDWeightsOptimiser}


@functools.lru_cache(maxsize=None)
def solver(kind, n, m, how, block, unroll, eps, tight):
    """compiled: kernel, data rows, coreset rows, indices, old weights -> new weights and the points afterwards"""

    def run(kernel, X, C, idx, old):
        opt = CLS[kind](kernel)
        kw = dict(block_size=block, unroll=unroll)
        if eps is not None:
            kw["epsilon"] = eps
        if kind == "mmd" and tight:
            kw["tol"] = 1e-5
        if how == "array":
            return opt.solve(X, C, **kw), C, idx
        if how == "data":
            return opt.solve(Data(X), Data(C, old), **kw), C, idx
        cs = Coresubset(Data(idx, old), Data(X)) if how == "subset" else PseudoCoreset(Data(C, old), Data(X))
        new = cs.solve_weights(opt, **kw)
        return new.points.weights, new.points.data, new.unweighted_indices if how == "subset" else idx

    return eqx.filter_jit(run)


def spd(rng, m, lo, hi):
    A = rng.integers(lo, hi + 1, (m, m))
    K = np.triu(A, 1) + np.triu(A, 1).T
    np.fill_diagonal(K, np.abs(K).sum(1) + rng.integers(1, 4, m))
    return K


def fx(v, S):
    v = np.asarray(v, float).ravel()
    return [int(round(x * S)) if np.isfinite(x) and abs(x) < 100 else -10**7 for x in v]


def runs(seed, cases, reps=3):
    """cases: (kind, n, m, how, block, unroll, eps, style)"""
    rng = np.random.default_rng(seed)
    recs = []
    for kind, n, m, how, block, unroll, eps, style in cases:
        tight = bool((n + m) % 3)
        f = solver(kind, n, m, how, block, unroll, eps, tight)
        for _ in range(reps):
            if style == "table":
                Q, S = 1, 100000
                N = n if how == "subset" else n + m
                T = np.zeros((N + 1, N + 1), int)
                B = rng.integers(-2, 4, (N + 1, N + 1))
                T = np.triu(B) + np.triu(B, 1).T
                ci = rng.permutation(n)[:m] if how == "subset" else n + np.arange(m)
                T[np.ix_(ci + 1, ci + 1)] = spd(rng, m, -1, 2)
                sc = pow2(rng, 16) if kind == "sbq" and eps is None else 1.0
                kernel = TableKernel(jnp.asarray(T * sc, jnp.float32))
                ids = np.arange(1, N + 1)
                X = np.stack([ids, np.cos(ids)], 1)
                K = T[np.ix_(ci + 1, ci + 1)]
                z = T[np.ix_(ci + 1, np.arange(1, n + 1))].sum(1)
            else:
                Q, S = 1000, 10000
                ls = (0.7, 1.0, 1.3)[(n + m) % 3]
                kernel = {"rbf": SquaredExponentialKernel, "laplace": LaplacianKernel, "pcimq": PCIMQKernel}[style](length_scale=float(ls))
                N = n + (0 if how == "subset" else m)
                X = rng.normal(size=(N, 2)) * 1.5
                ci = rng.permutation(n)[:m] if how == "subset" else n + np.arange(m)
                # well separated coreset points keep the system well conditioned
                X[ci] = np.stack([np.arange(m) * 1.7, rng.normal(size=m) * 0.3], 1)
                x64 = jnp.asarray(X, jnp.float32)
                full = np.asarray(kernel.compute(x64[ci], x64[:N]), float)
                K = np.round(full[:, ci] * Q).astype(int)
                z = np.round(full[:, :n].sum(1) * Q).astype(int)
            old = rng.integers(1, 9, m).astype(float)
            old /= old.sum()
            Xf = jnp.asarray(X, jnp.float32)
            st, out = attempt(f, kernel, Xf[:n], Xf[jnp.asarray(ci)], jnp.asarray(ci), jnp.asarray(old, jnp.float32))
            rec = dict(_spec="WeightsTrace", kind=kind, n=n, m=m, K=K.tolist(), z=z.tolist(), Q=Q, S=S,
                       eps=int(round((eps or 0) * Q)), status="ok" if st == "ok" else out, w=[], old=[], kept=True, tol=0, what=f"{how} {style} {block}")
            if st == "ok":
                w, pts, idx = (np.asarray(v) for v in out)
                rec["w"] = fx(w, S)
                rec["old"] = fx(old, S) if kind == "mmd" else []
                rec["kept"] = bool(np.array_equal(pts, np.asarray(Xf)[ci]) and np.array_equal(np.ravel(idx), ci))
                big = int(np.abs(K).sum(1).max()) + int(abs(eps or 0) * Q)
                if kind == "sbq":
                    wmax = max(1.0, float(np.abs(w).sum())) if np.all(np.isfinite(w)) else 1
                    rec["tol"] = big + 20 + (int(S * m * wmax * 0.6) if Q > 1 else int(2e-6 * S * big * wmax))
                else:
                    rec["tol"] = int(Q * S * (0.002 if Q == 1 else 0.004) * (1 if tight else 10))
            recs.append(rec)
    return recs

