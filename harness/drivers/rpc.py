"""Randomly pivoted Cholesky on integer Gram matrices, over many keys."""
import functools
from collections import Counter

import jax
import jax.numpy as jnp
import numpy as np
from coreax.data import Data, SupervisedData
from coreax.solvers import RPCholesky

from harness.common import attempt
from harness.drivers.greedy import features
from harness.kernels import TableKernel, padded_table


@functools.lru_cache(maxsize=None)
def runner(n, m, uniq, sup, weighted):
    x = features(n, 1)
    w = jnp.asarray(np.linspace(0.5, 3, n), jnp.float32) if weighted else None

    def one(key, table):
        ds = SupervisedData(x, x * 2, w) if sup else Data(x, w)
        c, s = RPCholesky(coreset_size=m, random_key=key, kernel=TableKernel(table), unique=uniq).reduce(ds)
        return c.unweighted_indices, s.gramian_diagonal

    return jax.jit(jax.vmap(one, in_axes=(0, None)))


def gram(rng, n, style):
    if style == "exact":  # block constant with square values: float arithmetic is exact
        c = rng.integers(0, 3, n)
        v = np.array([1, 4, 9])[rng.integers(0, 3, 3)]
        return np.where(c[:, None] == c[None], v[c][:, None], 0).astype(int)
    if style == "diag":
        return np.diag(np.array([1, 4, 9, 16])[rng.integers(0, 4, n)]).astype(int)
    if style == "rank2":
        B = rng.integers(-2, 3, (n, 2))
        return (B @ B.T).astype(int)
    B = rng.integers(-2, 3, (n, 4))
    return (B @ B.T).astype(int)


def runs(seed, count, n=4, m=3, uniq=True, style="full", keys=4096, sup=False, weighted=False):
    rng = np.random.default_rng(seed)
    run = runner(n, m, uniq, sup, weighted)
    recs = []
    while len(recs) < count:
        K = gram(rng, n, style)
        if K.diagonal().max() == 0:
            continue
        ks = jax.random.split(jax.random.key(int(rng.integers(1 << 30))), keys)
        sc = 4.0 ** int(rng.choice([0, 0, -9, 8, -3]))  # exact: square roots stay powers of two
        st, out = attempt(run, ks, padded_table(K) * sc)
        hist, state = [], []
        if st == "ok":
            idx, diag = np.asarray(out[0]) + 1, np.asarray(out[1], np.float64) / sc
            cnt = Counter(map(tuple, idx.tolist()))
            hist = [dict(s=list(s), c=c) for s, c in sorted(cnt.items())]
            seen = set()
            for s, dg in zip(map(tuple, idx.tolist()), diag):
                if s not in seen and len(seen) < 12:
                    seen.add(s)
                    dg = np.nan_to_num(dg, nan=99999.0, posinf=99999.0, neginf=-99999.0)
                    state.append(dict(s=list(s), d=np.round(dg * 1000).astype(int).tolist()))
        recs.append(dict(_spec="RPCTrace", n=n, K=K.tolist(), m=m, uniq=uniq, exact=style in ("exact", "diag"),
                         hist=hist, state=state, stol=3, status="ok" if st == "ok" else out))
    return recs
