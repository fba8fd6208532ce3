"""Kernel matrix means on integer tables / integer linear kernels."""
import functools
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from coreax.data import Data, SupervisedData
from coreax.kernels import LinearKernel

from harness.common import attempt
from harness.drivers.greedy import pow2
from harness.kernels import TableKernel

S = 1000


def wrap(x, w, kind):
    if kind == "array":
        return x
    if kind == "default":
        return Data(x)
    if kind == "sup":
        return SupervisedData(x, x[:, :1] * 3 + 1, w)
    return Data(x, w)


@functools.lru_cache(maxsize=None)
def runner(n, m, axis, block, unroll, kx, ky, gram):
    ax = {"all": None, "0": 0, "1": 1}[axis]

    def run(table, x, y, wx, wy):
        k = TableKernel(table)
        if gram:
            return jnp.ravel(k.gramian_row_mean(wrap(x, wx, kx), block_size=block, unroll=unroll))
        return jnp.ravel(k.compute_mean(wrap(x, wx, kx), wrap(y, wy, ky), axis=ax, block_size=block, unroll=unroll))

    return jax.jit(run)


def _table(rng, N, hi=9):
    B = rng.integers(-3, hi + 1, (N + 1, N + 1))
    return np.triu(B) + np.triu(B, 1).T


def signed(rng, w):
    """weights of both signs (as quadrature gives) with a sum that is not small"""
    for i in rng.permutation(len(w))[: len(w) // 2]:
        v = -int(rng.integers(1, 4))
        if w.sum() - w[i] + v >= max(1, len(w) // 2):
            w[i] = v
    return w


def one(rng, n, m, axis, block, unroll, kx, ky, scale=1.0, zero=False, gram=False, wmax=3):
    T = _table(rng, n + m)
    d = 2
    ids = np.arange(1, n + m + 1)
    X = np.stack([ids, np.sin(ids)], 1).astype(np.float32)
    wx = np.ones(n, int) if kx in ("array", "default") else rng.integers(0, wmax + 1, n)
    wy = np.ones(m, int) if ky in ("array", "default") else rng.integers(0, wmax + 1, m)
    if not zero:
        wx[rng.integers(n)] = max(1, wx.max())
        wy[rng.integers(m)] = max(1, wy.max())
    elif kx == "data":
        wx[:] = 0
    if not zero and rng.integers(3) == 0:
        wx = wx if kx in ("array", "default") else signed(rng, wx)
        wy = wy if ky in ("array", "default") else signed(rng, wy)
    if gram:
        m, ky = n, kx
        K = T[1:n + 1, 1:n + 1]
        wy = wx
        y = X[:n]
    else:
        K = T[1:n + 1, n + 1:]
        y = X[n:]
    f = runner(n, m, axis, block, unroll, kx, ky, gram)
    st, out = attempt(f, jnp.asarray((T * (sc := pow2(rng, 30))).astype(np.float32)), jnp.asarray(X[:n]), jnp.asarray(y),
                      jnp.asarray(wx * scale * (sw := pow2(rng, 30)), jnp.float32),
                      jnp.asarray(wy * scale * (sw if gram else pow2(rng, 30)), jnp.float32))
    v = [] if st != "ok" else [int(round(float(a) / sc * S)) if np.isfinite(a) else 10**6 for a in np.asarray(out)]
    return dict(_spec="BlockMeanTrace", n=n, m=m, K=K.tolist(), wx=wx.tolist(), wy=wy.tolist(), lx=[0] * n, ly=[0] * m, axis=axis, S=S, tol=2,
                v=v, block=str(block), status="ok" if st == "ok" else out)


def runs(seed, cases, reps=2):
    """cases: (n, m, axis, block, unroll, kx, ky, scale, zero, gram)."""
    rng = np.random.default_rng(seed)
    return [one(rng, *c[:7], scale=c[7], zero=c[8], gram=c[9]) for c in cases for _ in range(reps)]


def contrast(seed, count):
    """One heavy row of value zero among very light rows of very large values: the light rows make the mean."""
    rng = np.random.default_rng(seed)
    recs = []
    for t in range(count):
        n, m = [(4, 5), (1, 6), (6, 3)][t % 3]
        axis = ["all", "1", "0"][(t // 3) % 3]
        block = [None, 1, 2, 4][int(rng.integers(4))]
        lx = np.zeros(n, int)
        ly = np.zeros(m, int)
        e = int(rng.integers(18, 38))
        T = _table(rng, n + m)
        wx, wy = rng.integers(1, 4, n), rng.integers(1, 4, m)
        side = "x" if axis == "0" or (axis == "all" and t % 2 and n > 1) else "y"
        if side == "x" and n == 1:
            continue
        light, w, off = (lx, wx, 0) if side == "x" else (ly, wy, n)
        h = int(rng.integers(len(w)))
        light[:] = 1
        light[h] = 0
        w[h] = int(rng.integers(1, 4))
        T[off + h + 1, :] = 0
        T[:, off + h + 1] = 0
        Tf = T.astype(np.float64) * 2.0**e
        real = w * np.where(light == 1, 2.0**-e, 1.0)
        ids = np.arange(1, n + m + 1)
        X = np.stack([ids, np.sin(ids)], 1).astype(np.float32)
        f = runner(n, m, axis, block, 1, "data", "data", False)
        st, out = attempt(f, jnp.asarray(Tf, jnp.float32), jnp.asarray(X[:n]), jnp.asarray(X[n:]),
                          jnp.asarray(real if side == "x" else wx, jnp.float32),
                          jnp.asarray(real if side == "y" else wy, jnp.float32))
        v = [] if st != "ok" else [int(np.clip(round(float(a) * S), -10**6, 10**6)) if np.isfinite(a) else 10**6
                                   for a in np.asarray(out)]
        recs.append(dict(_spec="BlockMeanTrace", n=n, m=m, K=T[1:n + 1, n + 1:].tolist(), wx=wx.tolist(), wy=wy.tolist(),
                         lx=lx.tolist(), ly=ly.tolist(), axis=axis, S=S, tol=3, v=v, block=str(block),
                         status="ok" if st == "ok" else out))
    return recs


def linear(seed, count):
    """Library linear kernel on integer data; vectors and scalars as inputs; uncompiled."""
    rng = np.random.default_rng(seed)
    recs = []
    for t in range(count):
        n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        form = ["vec", "mat", "scalar"][t % 3]
        if form == "scalar":
            n = 1
        d = 1 if form != "mat" else 3
        X, Y = rng.integers(-4, 5, (n, d)), rng.integers(-4, 5, (m, d))
        x = {"vec": jnp.asarray(X[:, 0], jnp.float32), "mat": jnp.asarray(X, jnp.float32), "scalar": float(X[0, 0])}[form]
        y = jnp.asarray(Y if d > 1 else Y[:, 0], jnp.float32)
        wy = rng.integers(1, 4, m)
        weighted = bool(t % 2)
        axis = ["all", "0", "1"][(t // 2) % 3]
        block = [None, 1, 2, (1, None), (None, 2), 7, 0][t % 7]
        st, out = attempt(LinearKernel().compute_mean, x, Data(y, jnp.asarray(wy, jnp.float32)) if weighted else y,
                          axis={"all": None, "0": 0, "1": 1}[axis], block_size=block)
        v = [] if st != "ok" else [int(round(float(a) * S)) for a in np.ravel(np.asarray(out))]
        recs.append(dict(_spec="BlockMeanTrace", n=n, m=m, K=(X @ Y.T).tolist(), wx=[1] * n,
                         wy=wy.tolist() if weighted else [1] * m, lx=[0] * n, ly=[0] * m, axis=axis, S=S, tol=2, v=v, block=str(block),
                         status="ok" if st == "ok" else out))
    return recs
