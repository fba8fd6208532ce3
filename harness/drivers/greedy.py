"""Drivers for the greedy solvers: run the real code, log instances and results.

Every function returns trace records for GreedyTrace (1-based indices)."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from coreax.coreset import Coresubset
from coreax.data import Data, SupervisedData
from coreax.kernels import (
    LaplacianKernel, LinearKernel, PCIMQKernel, SquaredExponentialKernel, SteinKernel,
)
from coreax.solvers import KernelHerding, SteinThinning

from harness.common import attempt
from harness.kernels import TableKernel, TableSteinKernel, padded_table

SPEC = "GreedyTrace"


def score(x):
    """Score whose Jacobian diagonal is integer at integer ids: Laplacian+ = max(x - 3, 0)."""
    return 0.5 * x**2 - 3.0 * x


def rand_table(rng, n, lo, hi, style):
    """Random symmetric integer table; 'style' selects degenerate shapes too."""
    if style == "const":
        K = np.full((n, n), hi)
    elif style == "dup":  # many coincident points
        c = rng.integers(0, max(2, n // 2), n)
        B = rng.integers(lo, hi + 1, (n, n))
        B = np.triu(B) + np.triu(B, 1).T
        K = B[np.ix_(c, c)]
    elif style == "constdiag":
        B = rng.integers(lo, hi + 1, (n, n))
        K = np.triu(B) + np.triu(B, 1).T
        np.fill_diagonal(K, hi)
    else:
        B = rng.integers(lo, hi + 1, (n, n))
        K = np.triu(B) + np.triu(B, 1).T
    return K.astype(int)


def pow2(rng, k=16):
    """a power of two: scaling by it is exact, so results must not depend on it"""
    return float(rng.choice([1.0, 1.0, 2.0**-k, 2.0**k, 2.0**-3]))


def rand_weights(rng, n, need, style):
    if style == "one":
        return np.ones(n, int)
    if style == "big":
        return rng.integers(1, 6, n)
    w = rng.choice([0, 1, 1, 1000], n) if style == "wide" else rng.integers(0, 4 if style == "mixed" else 2, n)
    while (w > 0).sum() < need:
        w[rng.integers(n)] = 1
    return w


def features(n, d):
    ids = np.arange(1, n + 1, dtype=np.float32)[:, None]
    if d == 1:
        return jnp.asarray(ids)
    extra = np.stack([np.sin(np.arange(1, n + 1) * (k + 2)) for k in range(d - 1)], axis=1)
    return jnp.asarray(np.hstack([ids, extra]).astype(np.float32))


def _dataset(x, w, supervised):
    if supervised:
        return SupervisedData(x, jnp.cos(x[:, :1]), w)
    return Data(x, w)


@functools.lru_cache(maxsize=None)
def herd_runner(n, m, uniq, block, unroll, nstart, d, supervised, cached, iters, mode):
    """Compiled run of the real solver: (table, w, start, start_w) -> list of index rows."""
    x = features(n, d)

    def run(table, w, start, startw):
        ds = _dataset(x, w, supervised)
        solver = KernelHerding(coreset_size=m, kernel=TableKernel(table), unique=uniq,
                               block_size=block, unroll=unroll)
        state = None
        if cached:
            _, state = KernelHerding(coreset_size=1, kernel=TableKernel(table)).reduce(ds)
        out = []
        if mode == "reduce":
            c, s = solver.reduce(ds, state)
            out.append(c.unweighted_indices)
        elif mode == "iterative":  # k-fold iterated reductions; each is one more sweep
            for k in range(1, iters + 1):
                c, s = solver.reduce_iterative(ds, state, num_iterations=k)
                out.append(c.unweighted_indices)
        elif mode == "chain":  # reduce then refine repeatedly
            c, s = solver.reduce(ds, state)
            out.append(c.unweighted_indices)
            for _ in range(iters - 1):
                c, s = solver.refine(c, s)
                out.append(c.unweighted_indices)
        else:  # refine a given coreset, then keep refining
            c = Coresubset(Data(start, startw), ds)
            s = state
            for _ in range(iters):
                c, s = solver.refine(c, s)
                out.append(c.unweighted_indices)
        return jnp.stack(out)

    return jax.jit(run)


def _rec(n, K, w, m, uniq, start, kind, runs, eps=0, **kw):
    r = dict(_spec=SPEC, n=n, K=np.asarray(K).tolist(), w=np.asarray(w).tolist(), m=m, uniq=bool(uniq),
             start=[int(s) for s in start], kind=kind, eps=int(eps), status="ok",
             runs=[[int(i) + 1 for i in r] for r in runs])
    r.update(kw)
    return r


def herd_table(seed, count, n, m, uniq=True, block=None, unroll=1, nstart=0, d=1, supervised=False,
               cached=False, iters=1, mode="reduce", style="any", wstyle="mixed", hi=9, lo=0,
               placeholders=False, mono=False):
    rng = np.random.default_rng(seed)
    run = herd_runner(n, m, uniq, block, unroll, nstart, d, supervised, cached, iters, mode)
    recs = []
    for _ in range(count):
        K = rand_table(rng, n, lo, hi, style)
        need = min(n, max(m, nstart))
        w = rand_weights(rng, n, need, wstyle)
        start, act = [], []
        if mode == "refine":
            pool = np.flatnonzero(w > 0) if rng.random() < 0.7 or mono else np.arange(n)  # also coresets holding zero-weighted rows
            start = list(rng.choice(pool, nstart, replace=not uniq and not placeholders) + 1)
            act = [True] * nstart
            if placeholders:  # zero-weighted positions of an otherwise valid coreset, at the end or anywhere
                k = int(rng.integers(0, nstart + 1))
                for i in range(nstart - k, nstart) if rng.random() < 0.4 else rng.choice(nstart, k, replace=False):
                    act[i] = False
        sw = jnp.asarray(np.array(act, dtype=np.float32) * rng.choice([1.0, 0.25, 3.0])) if nstart else jnp.zeros(1)
        st, out = attempt(run, padded_table(K) * pow2(rng), jnp.asarray(w * pow2(rng, 30), jnp.float32),
                          jnp.asarray(np.array(start, int) - 1 if start else np.zeros(1, int)), sw)
        kw = dict(act0=act) if mode == "refine" else {}
        if mono:
            kw.update(mono=True, meps=0)
        r = _rec(n, K, w, m, uniq, start, "herd", np.asarray(out) if st == "ok" else [], **kw)
        r["status"] = "ok" if st == "ok" else out
        recs.append(r)
    return recs


# ---- exhaustive replay of the specification's own small instances -----------------------
def herd_exhaustive(cases, m, uniq, nstart):
    """``cases``: list of (K, w, start) produced from the specification's instance space."""
    n = len(cases[0][0])
    run = jax.jit(jax.vmap(herd_runner(n, m, uniq, None, 1, nstart, 1, False, False, 1,
                                       "refine" if nstart else "reduce")))
    tabs = jnp.stack([padded_table(np.array(c[0])) for c in cases])
    ws = jnp.asarray([c[1] for c in cases], jnp.float32)
    st = jnp.asarray([[s - 1 for s in c[2]] if c[2] else [0] for c in cases])
    out = np.asarray(run(tabs, ws, st, jnp.ones((len(cases), max(1, nstart)), jnp.float32)))
    return [_rec(n, c[0], c[1], m, uniq, c[2], "herd", out[i]) for i, c in enumerate(cases)]


# ---- library kernels on random real data, fixed-point ----------------------------------
def _np_gram(kernel, X):
    return np.asarray(kernel.compute(jnp.asarray(X), jnp.asarray(X)), dtype=np.float64)


def herd_real(seed, count, n, m, uniq=True, block=None, unroll=1, d=2, kern="se", iters=1, mode="chain",
              wstyle="one", dup=False, scale=20000, eager=False):
    """Library kernels; the Gram matrix is computed in float64 by the harness."""
    rng = np.random.default_rng(seed)
    kernel = {"se": SquaredExponentialKernel(0.8), "lap": LaplacianKernel(1.3),
              "imq": PCIMQKernel(0.9), "lin": LinearKernel()}[kern]

    def gram(X):
        D2 = ((X[:, None] - X[None]) ** 2).sum(-1)
        D1 = np.abs(X[:, None] - X[None]).sum(-1)
        if kern == "se":
            return np.exp(-D2 / (2 * 0.8**2))
        if kern == "lap":
            return np.exp(-D1 / (2 * 1.3**2))
        if kern == "imq":
            return 1 / np.sqrt(1 + D2 / (2 * 0.9**2))
        return X @ X.T

    def run(x, w):
        ds = Data(x, w)
        solver = KernelHerding(coreset_size=m, kernel=kernel, unique=uniq, block_size=block, unroll=unroll)
        out = []
        if mode == "chain":
            c, s = solver.reduce(ds)
            out.append(c.unweighted_indices)
            for _ in range(iters - 1):
                c, s = solver.refine(c, s)
                out.append(c.unweighted_indices)
        else:
            for k in range(1, iters + 1):
                out.append(solver.reduce_iterative(ds, num_iterations=k)[0].unweighted_indices)
        return jnp.stack(out)

    f = run if eager else jax.jit(run)
    recs = []
    for _ in range(count):
        X = rng.normal(size=(n, d))
        if dup:
            X = X[rng.integers(0, max(2, n // 3), n)]
        X = X.astype(np.float32)
        w = rand_weights(rng, n, m, wstyle)
        st, out = attempt(f, jnp.asarray(X), jnp.asarray(w, jnp.float32))
        K = np.round(gram(X.astype(np.float64)) * scale).astype(int)
        W = int(w.sum())
        # rounding (1/2 per entry, both terms, both sides) + float32 noise of the code
        r = _rec(n, K, w, m, uniq, [], "herd", np.asarray(out) if st == "ok" else [], eps=3 * W + 2)
        r["status"] = "ok" if st == "ok" else out
        recs.append(r)
    return recs


# ---- Stein thinning ---------------------------------------------------------------------
def _logpdf(X, w, bw, Q=None):
    """Weighted Gaussian KDE log density (bandwidth rule or explicit factor), float64."""
    X = np.asarray(X, np.float64)
    w = np.asarray(w, np.float64)
    w = w / w.sum()
    n, d = X.shape
    neff = 1.0 / (w**2).sum()
    scott = neff ** (-1.0 / (d + 4))
    f = {None: scott, "scott": scott, "silverman": (neff * (d + 2) / 4.0) ** (-1.0 / (d + 4))}.get(bw, bw)
    mu = (w[:, None] * X).sum(0)
    C = (w[:, None, None] * ((X - mu)[:, :, None] * (X - mu)[:, None, :])).sum(0) / (1 - (w**2).sum())
    H = C * f**2
    P = np.linalg.inv(H)
    Q = X if Q is None else np.asarray(Q, np.float64)
    D = Q[:, None] - X[None]
    E = -0.5 * np.einsum("ijk,kl,ijl->ij", D, P, D)
    Z = -0.5 * np.log(np.linalg.det(2 * np.pi * H))
    E = E + np.log(np.where(w > 0, w, 1e-300))[None]
    M = E.max(1)
    return M + np.log(np.exp(E - M[:, None]).sum(1)) + Z


@functools.lru_cache(maxsize=None)
def stein_runner(n, m, uniq, block, unroll, nstart, d, lam, reg, bw, iters, mode, supervised, sq):
    x = features(n, d)
    sc = score if sq else (lambda z: -z)

    def run(table, w, start, startw):
        ds = _dataset(x, w, supervised)
        kern = TableSteinKernel(SquaredExponentialKernel(), sc, table)
        solver = SteinThinning(coreset_size=m, kernel=kern, unique=uniq, regularise=reg, regulariser_lambda=lam,
                               block_size=block, unroll=unroll, kde_bw_method=bw)
        out = []
        if mode == "reduce":
            c, _ = solver.reduce(ds)
            out.append(c.unweighted_indices)
        else:
            c = Coresubset(Data(start, startw), ds)
        for _ in range(iters - (1 if mode == "reduce" else 0)):
            c, _ = solver.refine(c)
            out.append(c.unweighted_indices)
        return jnp.stack(out)

    return jax.jit(run)


def stein_table(seed, count, n, m, uniq=True, block=None, unroll=1, nstart=0, d=1, lam=0.5, reg=True, bw=None,
                iters=1, mode="reduce", style="any", wstyle="mixed", hi=9, lo=-4, supervised=False, sq=True,
                scale=2000):
    """Integer Stein tables; exact when unregularised, else fixed point with the log density from float64.

    sq: score 0.5x^2-3x on every coordinate, whose positive Laplacian is sum_k max(x_k - 3, 0);
    otherwise score -x, whose positive Laplacian is 0."""
    rng = np.random.default_rng(seed)
    run = stein_runner(n, m, uniq, block, unroll, nstart, d, lam, reg, bw, iters, mode, supervised, sq)
    x = np.asarray(features(n, d), np.float64)
    recs = []
    for _ in range(count):
        K = rand_table(rng, n, lo, hi, style)
        w = rand_weights(rng, n, min(n, max(m, nstart, 3)), wstyle)
        start = []
        if mode == "refine":
            pool = np.flatnonzero(w > 0) if rng.random() < 0.7 else np.arange(n)
            start = list(rng.choice(pool, nstart, replace=not uniq) + 1)
        st, out = attempt(run, padded_table(K) * (1.0 if reg else pow2(rng)), jnp.asarray(w * pow2(rng, 30), jnp.float32),
                          jnp.asarray(np.array(start, int) - 1 if start else np.zeros(1, int)),
                          jnp.ones(max(1, nstart)))
        if reg:
            lam_eff = lam if lam is not None else 1.0 / (m if mode == "reduce" else nstart)
            sc, eps = scale, 12 + m
            lap = np.round(np.clip(x - 3, 0, None).sum(1) * sc).astype(int) if sq else np.zeros(n, int)
            b = np.round(lam_eff * _logpdf(x, w, bw) * sc).astype(int)
        else:
            sc, eps = 1, 0
            lap = np.zeros(n, int)
            b = np.zeros(n, int)
        r = _rec(n, K * sc, w, m, uniq, start, "stein", np.asarray(out) if st == "ok" else [], eps=eps,
                 lap=lap.tolist(), reg=b.tolist())
        r["status"] = "ok" if st == "ok" else out
        recs.append(r)
    return recs


def stein_real(seed, count, n, m, d=2, uniq=True, lam=0.3, reg=True, kern="se", block=None, scale=4000, iters=1):
    """A genuine Stein kernel (library base kernel, explicit score): K from an independent closed form."""
    rng = np.random.default_rng(seed)
    L = 1.1
    base = SquaredExponentialKernel(L)
    kernel = SteinKernel(base, lambda z: -z)

    def run(x, w):
        solver = SteinThinning(coreset_size=m, kernel=kernel, unique=uniq, regularise=reg,
                               regulariser_lambda=lam, block_size=block)
        c, _ = solver.reduce(Data(x, w))
        out = [c.unweighted_indices]
        for _ in range(iters - 1):
            c, _ = solver.refine(c)
            out.append(c.unweighted_indices)
        return jnp.stack(out)

    f = jax.jit(run)
    recs = []
    for _ in range(count):
        X = rng.normal(size=(n, d)).astype(np.float32)
        w = rand_weights(rng, n, max(m, d + 2), "mixed" if reg is False else "big")
        st, out = attempt(f, jnp.asarray(X), jnp.asarray(w, jnp.float32))
        Z = X.astype(np.float64)
        D = Z[:, None] - Z[None]
        D2 = (D**2).sum(-1)
        E = np.exp(-D2 / (2 * L**2))
        S = -Z
        gx = -D / L**2 * E[..., None]
        gy = -gx
        div = E * (d / L**2 - D2 / L**4)
        K = div + np.einsum("ijk,jk->ij", gx, S) + np.einsum("ijk,ik->ij", gy, S) + E * (S @ S.T)
        Ki = np.round(K * scale).astype(int)
        b = np.round(lam * _logpdf(Z, w, None) * scale).astype(int) if reg else np.zeros(n, int)
        r = _rec(n, Ki, w, m, uniq, [], "stein", np.asarray(out) if st == "ok" else [], eps=10 + 3 * m,
                 lap=[0] * n, reg=b.tolist())
        r["status"] = "ok" if st == "ok" else out
        recs.append(r)
    return recs


# ---- probabilistic herding ---------------------------------------------------------------
def herd_soft(seed, count, n=4, uniq=True, start=False, weighted=True, schedule=False, sweeps=False, keys=4096):
    """sweeps: a single position drawn anew in each of two sweeps, which must be independent draws."""
    rng = np.random.default_rng(seed)
    x = features(n, 1)
    tau = float(1 / np.log(2))

    def one(key, table, w, st, sc):
        ds = Data(x, w)
        solver = KernelHerding(coreset_size=1 if sweeps else 2, kernel=TableKernel(table), unique=uniq, probabilistic=True,
                               temperature=sc * jnp.float32(7.5 if schedule else tau), random_key=key)
        if sweeps:
            a, _ = solver.reduce_iterative(ds, num_iterations=1)
            b, _ = solver.reduce_iterative(ds, num_iterations=2)
            return jnp.concatenate([a.unweighted_indices, b.unweighted_indices])
        if schedule:
            c, _ = solver.reduce_iterative(ds, num_iterations=2, t_schedule=sc * jnp.array([1e-4, tau]))
        elif start:
            c, _ = solver.refine(Coresubset(Data(st), ds))
        else:
            c, _ = solver.reduce(ds)
        return c.unweighted_indices

    run = jax.jit(jax.vmap(one, in_axes=(0, None, None, None, None)))
    recs = []
    while len(recs) < count:
        w = np.ones(n, int)
        if weighted:
            w = rng.permutation([2, 1, 1] + [0] * (n - 3))
        W = int(w.sum())
        K = rng.integers(0, 3, (n, n)) * W
        K = np.triu(K) + np.triu(K, 1).T
        if W % 2:
            K = K * 2
        st = [int(s) + 1 for s in rng.choice(np.flatnonzero(w > 0), 2, replace=False)] if start else []
        if schedule:  # first sweep is deterministic at (almost) zero temperature, if there is no tie
            R = (K * w).sum(1) / W
            crit = np.where(w > 0, R, -1e9)
            a = int(np.argmax(crit))
            c2 = np.where(w > 0, R - K[:, a] / 2, -1e9)
            if uniq:
                c2[a] = -1e9
            b = int(np.argmax(c2))
            if np.sum(crit == crit[a]) > 1 or np.sum(c2 == c2[b]) > 1:
                continue
            st = [a + 1, b + 1]
        ks = jax.random.split(jax.random.key(int(rng.integers(1 << 30))), keys)
        sc = pow2(rng, 10)
        s, out = attempt(run, ks, padded_table(K) * sc, jnp.asarray(w * pow2(rng, 30), jnp.float32),
                         jnp.asarray([i - 1 for i in st] or [0, 0]), sc)
        c1, c2, oor = [0] * n, [[0] * n for _ in range(n)], 0
        if s == "ok":
            for a, b in np.asarray(out):
                if 0 <= a < n and 0 <= b < n:
                    c1[a] += 1
                    c2[a][b] += 1
                else:
                    oor += 1
        recs.append(dict(_spec="SoftHerdTrace", n=n, K=K.tolist(), w=w.tolist(), uniq=uniq, sweeps=sweeps, start=st, N=keys,
                         c1=c1, c2=c2, range=oor, status="ok" if s == "ok" else out))
    return recs


# ---- Stein thinning given a base kernel (documented: converted to a Stein kernel) -----------
def stein_base(seed=5, n=8, m=3, lam=None, reg=False):
    """The specific history of finding 'stein-base-kernel'."""
    from coreax.score_matching import KernelDensityMatching

    rng = np.random.default_rng(seed)
    L, ls = 1.0, 0.7
    X = rng.normal(size=(n, 2)).astype(np.float32)
    st, out = attempt(lambda: SteinThinning(
        coreset_size=m, kernel=SquaredExponentialKernel(L), score_matching=KernelDensityMatching(length_scale=ls),
        regularise=reg).reduce(Data(jnp.asarray(X)))[0].unweighted_indices)
    Z = X.astype(np.float64)
    D = Z[:, None] - Z[None]
    D2 = (D**2).sum(-1)
    P = np.exp(-D2 / (2 * ls**2))
    S = ((P / P.sum(1, keepdims=True)) @ Z - Z) / ls**2
    E = np.exp(-D2 / (2 * L**2))
    gx = -D / L**2 * E[..., None]
    K = (E * (2 / L**2 - D2 / L**4) + np.einsum("ijk,jk->ij", gx, S)
         + np.einsum("ijk,ik->ij", -gx, S) + E * (S @ S.T))
    r = _rec(n, np.round(K * 4000).astype(int), np.ones(n, int), m, True, [], "stein",
             [np.asarray(out)] if st == "ok" else [], eps=30, lap=[0] * n, reg=[0] * n)
    r["status"] = "ok" if st == "ok" else out
    r["_meta"] = dict(finding="stein-base-kernel")
    return [r]


# ---- zero-weighted rows ----------------------------------------------------------------------
def padded(seed, count, n, pad, m, solver="herd", uniq=True, reg=True, d=2, scale_w=1, mode="reduce", where="mixed",
           kern="table"):
    """Insert `pad` zero-weighted rows of arbitrary value; report the picks against the unpadded instance.

    An index of an inserted row is reported as 0 (outside the instance)."""
    rng = np.random.default_rng(seed)
    N = n + pad
    x0 = np.asarray(features(n, 1))

    def run(table, x, w, start):
        ds = Data(x, w)
        if solver == "herd":
            s = KernelHerding(coreset_size=m, kernel=TableKernel(table), unique=uniq)
        else:
            s = SteinThinning(coreset_size=m, kernel=TableSteinKernel(SquaredExponentialKernel(), score, table),
                              unique=uniq, regularise=reg, regulariser_lambda=0.5)
        if mode == "reduce":
            c, _ = s.reduce(ds)
        else:
            c, _ = s.refine(Coresubset(Data(start), ds))
        return c.unweighted_indices[None]

    f = jax.jit(run)
    recs = []
    for k in range(count):
        lo = 0 if solver == "herd" else -4
        K = rand_table(rng, n, lo, 9, ["any", "dup", "constdiag"][k % 3])
        big = np.full((N + 1, N + 1), 0)
        junk = rng.integers(-60, 60, (N + 1, N + 1))  # padding rows may look very attractive or not
        big = np.triu(junk) + np.triu(junk, 1).T
        big[1:n + 1, 1:n + 1] = K
        w = rng.integers(1, 4, n)
        perm = np.concatenate([np.arange(1, n + 1), np.arange(n + 1, N + 1)])
        if where == "mixed":
            perm = rng.permutation(perm)
        elif where == "front":
            perm = perm[::-1].copy()
        x = perm.astype(np.float32)[:, None]
        wt = np.array([w[p - 1] * scale_w if p <= n else 0 for p in perm], np.float32)
        back = {i: int(p) if p <= n else 0 for i, p in enumerate(perm)}
        inv = {v: i for i, v in back.items() if v}
        start = []
        if mode == "refine":
            start = [int(s) + 1 for s in rng.choice(n, m, replace=False)]
        st, out = attempt(f, jnp.asarray(big.astype(np.float32)), jnp.asarray(x), jnp.asarray(wt),
                          jnp.asarray([inv[s] for s in start] or [0] * m))
        runs = [[back.get(int(i), 0) - 1 for i in r] for r in np.asarray(out)] if st == "ok" else []
        if solver == "herd":
            r = _rec(n, K, w, m, uniq, start, "herd", runs)
        else:
            sc = 2000 if reg else 1
            lap = np.round(np.clip(x0 - 3, 0, None).sum(1) * sc).astype(int) if reg else np.zeros(n, int)
            b = np.round(0.5 * _logpdf(x0, w, None) * sc).astype(int) if reg else np.zeros(n, int)
            r = _rec(n, K * sc, w, m, uniq, start, "stein", runs, eps=(12 + m) if reg else 0, lap=lap.tolist(),
                     reg=b.tolist())
        r["status"] = "ok" if st == "ok" else out
        recs.append(r)
    return recs


def stein_default_padding(seed=2):
    """The specific history of finding 'stein-default-score-padding'."""
    rng = np.random.default_rng(seed)
    X = rng.normal(size=(8, 1)).astype(np.float32) * 2
    Z = np.vstack([X, X[:1] + np.array([[0.1], [0.2], [0.15], [4.0]])]).astype(np.float32)

    def go():
        s = SteinThinning(coreset_size=3, kernel=SquaredExponentialKernel(1.0))
        a, _ = s.reduce(Data(jnp.asarray(X)))
        b, _ = s.reduce(Data(jnp.asarray(Z), jnp.asarray([1.0] * 8 + [0.0] * 4)))
        return a.unweighted_indices, b.unweighted_indices

    st, out = attempt(go)
    return [dict(_spec="SameTrace", what="Stein thinning (default score) with and without zero-weighted rows",
                 a=np.asarray(out[0]).tolist() if st == "ok" else [], b=np.asarray(out[1]).tolist() if st == "ok" else [],
                 status="ok" if st == "ok" else out, _meta=dict(finding="stein-default-score-padding"))]
