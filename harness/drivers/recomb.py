"""Recombination solvers on integer test function values."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from coreax.data import Data
from coreax.solvers import CaratheodoryRecombination, TreeRecombination

from harness.common import attempt

S = 100000
MODES = ("explicit", "implicit", "implicit-explicit")


def _squares(x):
    return jnp.concatenate([x, x * x])


def _cross(x):
    return jnp.stack([x[0], x[0] * x[1], x[1] - x[0]])


def _const(x):
    return jnp.stack([x[0], 2.0 * x[0], jnp.ones_like(x[0])])


FUNCS = {
    "id": (None, lambda X: X),
    "squares": (_squares, lambda X: np.concatenate([X, X * X], 1)),
    "cross": (_cross, lambda X: np.stack([X[:, 0], X[:, 0] * X[:, 1], X[:, 1] - X[:, 0]], 1)),
    "dependent": (_const, lambda X: np.stack([X[:, 0], 2 * X[:, 0], np.ones(len(X), int)], 1)),
}


def points(rng, n, d, style):
    hi = {"any": 9, "grid": 2, "dup": 4}[style]
    X = rng.integers(0, hi + 1, (n, d))
    if style == "dup":
        X = X[rng.integers(0, max(1, n // 2), n)]
    return X


def weights(rng, n, style):
    if style == "tiny":  # many orders of magnitude, some exactly zero
        w = 10.0 ** rng.uniform(-6, 0, n) * (rng.random(n) < 0.85)
        w[rng.integers(n)] = 1.0
        return w
    if style == "ones":
        return np.ones(n, int)
    w = rng.integers(0 if style == "zeros" else 1, 6, n)
    if style == "zeros":
        w[rng.random(n) < 0.4] = 0
    if style == "heavy":
        w[rng.integers(n)] = 40
    if style == "single":
        w[:] = 0
    if w.sum() == 0:
        w[rng.integers(n)] = 3
    return w


@functools.lru_cache(maxsize=None)
def runner(kind, func, mode, jit, rcond=None):
    f = FUNCS[func][0]
    kw = dict(test_functions=f, mode=mode, rcond=rcond)
    sol = CaratheodoryRecombination(**kw) if kind == "car" else TreeRecombination(tree_reduction_factor=kind, **kw)
    if jit:
        return eqx.filter_jit(lambda x: sol.reduce(x)[0])
    return lambda x: sol.reduce(x)[0]


def fx(a):
    return [int(round(float(v) * S)) if np.isfinite(v) and abs(v) < 1e4 else -10**8 for v in np.asarray(a).ravel()]


def runs(seed, cases, reps=2, rcond=None):
    """cases: (kind, n, d, func, point style, weight style, scale, jit)"""
    rng = np.random.default_rng(seed)
    recs = []
    for kind, n, d, func, ps, ws, scale, jit in cases:
        f, ref = FUNCS[func]
        for _ in range(reps):
            X = points(rng, n, d, ps)
            w = weights(rng, n, ws)
            phi = ref(X)
            data = Data(jnp.asarray(X, jnp.float32), jnp.asarray(w * scale, jnp.float32))
            zero = [bool(v == 0) for v in w]
            unit = ws == "tiny"
            if unit:  # weights in units of 1 / S of their total
                w = np.round(w / w.sum() * S).astype(int)
            measure = []
            for mode in MODES:
                if jit and mode == "explicit":
                    continue
                st, out = attempt(runner(kind, func, mode, jit, rcond), data)
                rec = dict(_spec="RecombTrace", what=f"{kind}", mode=mode, n=n, d=phi.shape[1], phi=phi.tolist(), w=w.tolist(), S=S,
                           tol=60, big=int(max(1, np.abs(phi).max())), status="ok" if st == "ok" else out, idx=[], wt=[], pos=[],
                           ref=[], refused=False, zero=zero, unit=unit, neg=0)
                if st == "ok":
                    low = float(np.min(np.asarray(out.indices.weights), initial=0.0))
                    rec["neg"] = int(max(-2e9, np.floor(low * 1e8))) if np.isfinite(low) else -2 * 10**9
                    rec["idx"] = [int(i) for i in np.asarray(out.unweighted_indices).ravel()]
                    cw = np.asarray(out.indices.weights).ravel()
                    rec["wt"] = fx(cw)
                    rec["pos"] = [bool(v != 0) for v in cw]
                    rec["ref"] = measure
                    if not measure:
                        m = np.zeros(n)
                        for i, v in zip(rec["idx"], cw):
                            if 0 <= i < n:
                                m[i] += v
                        measure = fx(m)
                    # the coreset's points are the indexed rows with the reported weights
                    pts = np.asarray(out.points.data)
                    same = np.array_equal(pts, np.asarray(data.data)[np.asarray(rec["idx"])]) and np.array_equal(
                        np.asarray(out.points.weights), cw)
                    recs.append(dict(_spec="SameTrace", status="ok", what="points are the indexed rows with their weights",
                                     a=bool(same), b=True))
                recs.append(rec)
        jax.clear_caches()
    return recs


def refusals(seed):
    rng = np.random.default_rng(seed)
    recs = []

    def rec(what, fn):
        st, out = attempt(fn)
        recs.append(dict(_spec="RecombTrace", status="must-refuse", refused=st != "ok", what=what))

    for cls in (CaratheodoryRecombination, TreeRecombination):
        rec("unknown mode", lambda: cls(mode="explicitly"))
        rec("unknown mode", lambda: cls(mode=None))
        data = Data(jnp.asarray(rng.normal(size=(6, 2)), jnp.float32))
        rec("explicit mode while compiled", lambda: jax.jit(lambda x: cls(mode="explicit").reduce(Data(x))[0].indices.weights)(data.data))
    return recs
