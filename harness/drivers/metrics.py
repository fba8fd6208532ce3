"""Metric values on integer kernel tables, and axioms on library kernels."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from coreax.coreset import Coresubset, PseudoCoreset
from coreax.data import Data, SupervisedData
from coreax.kernels import LaplacianKernel, LinearKernel, MaternKernel, PCIMQKernel, SquaredExponentialKernel, SteinKernel
from coreax.metrics import AMCMD, JMMD, KSD, MMD
from coreax.score_matching import KernelDensityMatching

from harness.common import attempt
from harness.drivers.greedy import _logpdf, features, score
from harness.drivers.means import signed
from harness.kernels import TableKernel, TableSteinKernel

SPEC = "MetricTrace"


def sq(val, S, cap=2.0e6):
    val = float(val)
    if not np.isfinite(val) or val < 0:
        return -1
    return int(round(min(val * val * S, cap * 1000)))


def table(rng, N, lo=-3, hi=9, style="any"):
    B = rng.integers(lo, hi + 1, (N + 1, N + 1))
    K = np.triu(B) + np.triu(B, 1).T
    if style == "psd":
        F = rng.integers(-2, 3, (N + 1, 2))
        K = F @ F.T
    return K


def weights(rng, n, style, hi=3):
    if style == "one":
        return np.ones(n, int)
    if style == "zero":
        return np.zeros(n, int)
    w = rng.integers(0, hi + 1, n)
    w[rng.integers(n)] = max(1, w.max())
    return signed(rng, w) if rng.integers(4) == 0 else w


def ids(n, start, d):
    i = np.arange(start + 1, start + n + 1)
    cols = [i] + [np.sin(i * (k + 2)) for k in range(d - 1)]
    return np.stack(cols, 1).astype(np.float32)


@functools.lru_cache(maxsize=None)
def mmd_runner(n, m, block, unroll, via, sup):
    def run(t, x, y, u, w, sel):
        met = MMD(TableKernel(t))
        kw = dict(block_size=block, unroll=unroll)
        dx = SupervisedData(x, x[:, :1] + 1, u) if sup else Data(x, u)
        if via == "direct":
            return met.compute(dx, SupervisedData(y, y[:, :1] + 1, w) if sup else Data(y, w), **kw)
        if via == "same":  # two weightings of the very same array of points
            return met.compute(dx, SupervisedData(dx.data, dx.supervision, w) if sup else Data(dx.data, w), **kw)
        if via == "pseudo":
            return PseudoCoreset(Data(y, w), dx).compute_metric(met, **kw)
        return Coresubset(Data(sel, w), dx).compute_metric(met, **kw)

    return jax.jit(run)


def mmd(seed, cases, reps=3):
    """cases: (n, m, block, unroll, via, sup, wx, wy, style, scale)."""
    rng = np.random.default_rng(seed)
    recs = []
    S = 1000
    for n, m, block, unroll, via, sup, wx, wy, style, scale in cases:
        f = mmd_runner(n, m, block, unroll, via, sup)
        for _ in range(reps):
            T = table(rng, n + m, style=style)
            u, w = weights(rng, n, wx), weights(rng, m, wy)
            X, Y = ids(n, 0, 2), ids(m, n, 2)
            sel = rng.integers(0, n, m)
            a = np.arange(1, n + 1)
            b = sel + 1 if via == "subset" else a if via == "same" else np.arange(n + 1, n + m + 1)
            sc = 4.0 ** int(rng.choice([0, 0, -12, -6, 3, 9]))  # exact: the value scales with its square root
            st, out = attempt(lambda *z: f(*z) / sc**0.5, jnp.asarray(T * sc, jnp.float32), jnp.asarray(X), jnp.asarray(Y),
                              jnp.asarray(u * scale, jnp.float32), jnp.asarray(w * scale, jnp.float32), jnp.asarray(sel))
            recs.append(dict(_spec=SPEC, kind="mmd", via=via, Kxx=T[np.ix_(a, a)].tolist(), Kyy=T[np.ix_(b, b)].tolist(),
                             Kxy=T[np.ix_(a, b)].tolist(), u=u.tolist(), w=w.tolist(), S=S, tol=2,
                             v=sq(out, S) if st == "ok" else -1, status="ok" if st == "ok" else out,
                             what=[str(block), str(unroll), sup, scale]))
    return recs


@functools.lru_cache(maxsize=None)
def jmmd_runner(n, m, via):
    def run(t, r, x, yx, y, yy, u, w, sel):
        met = JMMD(TableKernel(t), TableKernel(r))
        dx = SupervisedData(x, yx, u)
        if via == "direct":
            return met.compute(dx, SupervisedData(y, yy, w))
        return Coresubset(Data(sel, w), dx).compute_metric(met)

    return jax.jit(run)


def jmmd(seed, count, n, m, via="direct", wx="mixed", wy="mixed", scale=1.0):
    rng = np.random.default_rng(seed)
    recs = []
    S = 1000
    f = jmmd_runner(n, m, via)
    for _ in range(count):
        T, R = table(rng, n + m, -2, 4), table(rng, 6, -2, 3)
        u, w = weights(rng, n, wx, 2), weights(rng, m, wy, 2)
        ry = rng.integers(1, 7, n + m)  # response identifiers, repeats allowed
        sel = rng.integers(0, n, m)
        a = np.arange(1, n + 1)
        b = sel + 1 if via == "subset" else np.arange(n + 1, n + m + 1)
        ra, rb = ry[a - 1], ry[b - 1]
        sc = 4.0 ** int(rng.choice([0, 0, -12, -6, 3, 9]))
        st, out = attempt(lambda *z: f(*z) / sc**0.5, jnp.asarray(T * sc, jnp.float32), jnp.asarray(R, jnp.float32), jnp.asarray(ids(n, 0, 2)),
                          jnp.asarray(ry[:n, None], jnp.float32), jnp.asarray(ids(m, n, 2)),
                          jnp.asarray(ry[n:, None], jnp.float32), jnp.asarray(u * scale, jnp.float32),
                          jnp.asarray(w * scale, jnp.float32), jnp.asarray(sel))
        recs.append(dict(_spec=SPEC, kind="jmmd", via=via, Kxx=T[np.ix_(a, a)].tolist(), Kyy=T[np.ix_(b, b)].tolist(),
                         Kxy=T[np.ix_(a, b)].tolist(), Rxx=R[np.ix_(ra, ra)].tolist(), Ryy=R[np.ix_(rb, rb)].tolist(),
                         Rxy=R[np.ix_(ra, rb)].tolist(), u=u.tolist(), w=w.tolist(), S=S, tol=3,
                         v=sq(out, S) if st == "ok" else -1, status="ok" if st == "ok" else out))
    return recs


def _stein_matrix(Y, Sc, L):
    """Stein matrix of a squared exponential base kernel, closed form, float64."""
    Z = np.asarray(Y, np.float64)
    d = Z.shape[1]
    D = Z[:, None] - Z[None]
    D2 = (D**2).sum(-1)
    E = np.exp(-D2 / (2 * L**2))
    gx = -D / L**2 * E[..., None]
    return (E * (d / L**2 - D2 / L**4) + np.einsum("ijk,jk->ij", gx, Sc) + np.einsum("ijk,ik->ij", -gx, Sc)
            + E * (Sc @ Sc.T))


def kde_score(X, Q, L):
    X, Q = np.asarray(X, np.float64), np.asarray(Q, np.float64)
    P = np.exp(-((Q[:, None] - X[None]) ** 2).sum(-1) / (2 * L**2))
    return ((P / P.sum(1, keepdims=True)) @ X - Q) / L**2


def ksd(seed, count, n, m, d=1, lap=False, reg=False, block=None, unroll=1, mode="table", wy="one", sup=False,
        via="direct", L=0.8):
    """mode 'table': integer Stein kernel and explicit score; 'default'/'matched'/'override': library kernels."""
    rng = np.random.default_rng(seed)
    sc = 1000

    def run(t, x, u, y, w, sel):
        if mode == "table":
            k, sm = TableSteinKernel(SquaredExponentialKernel(L), score, t), None
        elif mode == "default":
            k, sm = SquaredExponentialKernel(L), None
        elif mode == "matched":
            k, sm = SquaredExponentialKernel(L), KernelDensityMatching(1.3)
        else:
            k, sm = SteinKernel(SquaredExponentialKernel(L), lambda z: 5 * z), KernelDensityMatching(1.3)
        met = KSD(k, score_matching=sm)
        dx = SupervisedData(x, x[:, :1], u) if sup else Data(x, u)
        kw = dict(laplace_correct=lap, regularise=reg, block_size=block, unroll=unroll)
        if via == "subset":
            return Coresubset(Data(sel, w), dx).compute_metric(met, **kw)
        return met.compute(dx, Data(y, w), **kw)

    f = jax.jit(run)
    recs = []
    for _ in range(count):
        T = table(rng, n + m, -3, 9)
        u = rng.integers(1, 4, n) if reg else weights(rng, n, "mixed")
        w = weights(rng, m, wy)
        if mode == "table":
            X, Y = ids(n, 0, d), ids(m, n, d)
        else:
            X, Y = rng.normal(size=(n, d)).astype(np.float32), rng.normal(size=(m, d)).astype(np.float32)
        sel = rng.integers(0, n, m)
        b = np.arange(n + 1, n + m + 1)
        if via == "subset":
            b, Y = sel + 1, X[sel]
        fs = 4.0 ** int(rng.choice([0, -12, -6, 3, 9])) if mode == "table" and not lap and not reg else 1.0
        st, out = attempt(lambda *z: f(*z) / fs**0.5, jnp.asarray(T * fs, jnp.float32), jnp.asarray(X), jnp.asarray(u, jnp.float32), jnp.asarray(Y),
                          jnp.asarray(w, jnp.float32), jnp.asarray(sel))
        if mode == "table":
            K = T[np.ix_(b, b)] * sc
            la = np.clip(Y - 3, 0, None).sum(1) * sc
        else:
            ls = L if mode == "default" else 1.3
            K = np.round(_stein_matrix(Y, kde_score(X, Y, ls), L) * sc).astype(int)
            h = 1e-4
            la = np.zeros(m)
            for k in range(d):
                e = np.zeros(d)
                e[k] = h
                la += np.clip((kde_score(X, Y + e, ls)[:, k] - kde_score(X, Y - e, ls)[:, k]) / (2 * h), 0, None) * sc
        la = np.round(la).astype(int) if lap else np.zeros(m, int)
        lp = np.round(_logpdf(X, u, L, Y) * sc).astype(int) if reg else np.zeros(m, int)
        if np.abs(lp).max() > 400 * sc:  # far tails: nothing to gain, large integers
            continue
        recs.append(dict(_spec=SPEC, kind="ksd", via=via, Kyy=K.tolist(), w=w.tolist(), lap=la.tolist(), logp=lp.tolist(),
                         S=1, tol=4 if mode == "table" and not reg else 12, v=sq(out, sc) if st == "ok" else -1,
                         status="ok" if st == "ok" else out, what=[mode, lap, reg, str(block), d]))
    return recs


def amcmd(seed, count, n, m, q=0, lam=1, psd=True, via="direct"):
    """q = 0: weighting data default to the reference data."""
    rng = np.random.default_rng(seed)
    N = n + m + q

    fs = 2.0 ** int(rng.choice([0, -12, 10]))  # regularisation scales along, so the value stays

    def run(t, r, x, yx, y, yy, z, u, w, sel):
        met = AMCMD(TableKernel(t * fs), TableKernel(r), float(lam) * fs)
        kw = dict(weighting_data=Data(z)) if q else {}
        dx = SupervisedData(x, yx, u)
        if via == "subset":
            return Coresubset(Data(sel, w), dx).compute_metric(met, **kw)
        return met.compute(dx, SupervisedData(y, yy, w), **kw)

    f = jax.jit(run)
    recs = []
    S = 1000
    while len(recs) < count:
        F = rng.integers(-1, 2, (N + 1, 3))
        T = F @ F.T
        G = rng.integers(-1, 2, (6 + 1, 2))
        R = G @ G.T
        ry = rng.integers(1, 7, n + m)
        u, w = rng.integers(1, 4, n), rng.integers(1, 4, m)
        sel = rng.integers(0, n, m)
        a = np.arange(1, n + 1)
        b = sel + 1 if via == "subset" else np.arange(n + 1, n + m + 1)
        c = np.arange(n + m + 1, N + 1) if q else a
        A, B = T[np.ix_(a, a)] + lam * np.eye(n, dtype=int), T[np.ix_(b, b)] + lam * np.eye(m, dtype=int)
        da, db = round(np.linalg.det(A)), round(np.linalg.det(B))
        if da <= 0 or db <= 0:
            continue
        C1, C2 = T[np.ix_(a, c)], T[np.ix_(b, c)]
        s1, s2 = np.linalg.solve(A, C1) * da, np.linalg.solve(B, C2) * db
        R1, R2, R12 = (R[np.ix_(ry[i - 1], ry[j - 1])] for i, j in ((a, a), (b, b), (a, b)))
        bound = (db**2 * (np.abs(s1).T @ np.abs(R1) @ np.abs(s1)).diagonal().sum()
                 + da**2 * (np.abs(s2).T @ np.abs(R2) @ np.abs(s2)).diagonal().sum()
                 + 2 * da * db * (np.abs(s1).T @ np.abs(R12) @ np.abs(s2)).diagonal().sum())
        if bound > 1.5e9 or len(c) * da**2 * db**2 > 2e6:
            continue
        sc = 4.0 ** int(rng.choice([0, 0, -12, -6, 3, 9]))
        st, out = attempt(lambda *z: f(*z) / sc**0.5, jnp.asarray(T, jnp.float32), jnp.asarray(R * sc, jnp.float32), jnp.asarray(ids(n, 0, 2)),
                          jnp.asarray(ry[:n, None], jnp.float32), jnp.asarray(ids(m, n, 2)),
                          jnp.asarray(ry[n:, None], jnp.float32), jnp.asarray(ids(max(q, 1), n + m, 2)),
                          jnp.asarray(u, jnp.float32), jnp.asarray(w, jnp.float32), jnp.asarray(sel))
        recs.append(dict(_spec=SPEC, kind="amcmd", via=via, Kxx=T[np.ix_(a, a)].tolist(), Kyy=T[np.ix_(b, b)].tolist(),
                         C1=C1.tolist(), C2=C2.tolist(), Rxx=R1.tolist(), Ryy=R2.tolist(), Rxy=R12.tolist(), lam=lam, S=S,
                         tol=5, v=sq(out, S) if st == "ok" else -1, status="ok" if st == "ok" else out))
    return recs


def axioms(seed, count, n, m, d=2, joint=False, kern="se"):
    """Symmetry, identity, invariance under splitting weights and the triangle inequality on library kernels."""
    rng = np.random.default_rng(seed)
    kernels = dict(se=SquaredExponentialKernel(0.9), lap=LaplacianKernel(1.2), pcimq=PCIMQKernel(0.7), lin=LinearKernel(),
                   mat=MaternKernel(length_scale=1.1, output_scale=1.5, degree=1),
                   comp=SquaredExponentialKernel(0.9) * LaplacianKernel(2.0) + LinearKernel() ** 2)
    k = kernels[kern]
    p = n // 2 + 1

    def mk(x, y, w):
        return SupervisedData(x, y, w) if joint else Data(x, w)

    def run(x, y, z, u, v, w):
        met = JMMD(k, SquaredExponentialKernel(1.1)) if joint else MMD(k)
        dx, dy, dz = mk(x, x[:, ::-1], u), mk(y, y[:, ::-1], v), mk(z, z[:, ::-1], w)
        # the same measure as dx: first point's weight spread over itself and a copy, plus a weightless point
        x2 = jnp.vstack([x, x[:1], 100 + x[:1]])
        u2 = jnp.concatenate([u * jnp.where(jnp.arange(n) == 0, 0.25, 1.0), 0.75 * u[:1], jnp.zeros(1)])
        dd = mk(x2, x2[:, ::-1], 3 * u2)
        kw = {} if joint else dict(block_size=3)
        return (met.compute(dx, dy), met.compute(dy, dx, **kw), met.compute(dx, dx, **kw), met.compute(dd, dy, **kw),
                met.compute(dx, dz), met.compute(dy, dz))

    f = jax.jit(run)
    recs = []
    for _ in range(count):
        X, Y, Z = (rng.normal(size=(s, d)).astype(np.float32) for s in (n, m, p))
        u, v, w = (rng.uniform(0.1, 2, s).astype(np.float32) for s in (n, m, p))
        st, out = attempt(f, *map(jnp.asarray, (X, Y, Z, u, v, w)))
        o = [float(x) if np.isfinite(x) else -9.0 for x in out] if st == "ok" else [0] * 6
        s2 = [int(round(x * abs(x) * 10000)) for x in o]
        lin = [int(round(x * 1000)) for x in o]
        recs.append(dict(_spec=SPEC, kind="axioms", xy=s2[0], yx=s2[1], xx=s2[2], dup=s2[3],
                         tol=5 + int(5e-6 * 1e4 * (abs(o[0]) ** 2 + 10)) + (40 if kern in ("lin", "comp") else 0),
                         xz=lin[4], yz=lin[5], ttol=30, via=kern, status="ok" if st == "ok" else out))
        r = recs[-1]
        r["lxy"] = lin[0]
    return recs
