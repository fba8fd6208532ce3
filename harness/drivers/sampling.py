"""Random sampling over many keys."""
from collections import Counter

import jax
import jax.numpy as jnp
import numpy as np
from coreax.data import Data, SupervisedData
from coreax.solvers import RandomSample
from coreax.util import sample_batch_indices

from harness.common import attempt
from harness.drivers.greedy import features


def _rec(kind, n, m, N, st, out, w=None, k=1, expect="ok"):
    hist = []
    if st == "ok" and expect == "ok":
        arr = np.asarray(out) + 1
        if kind == "batches":
            cnt = Counter(tuple(tuple(b) for b in row) for row in arr.tolist())
            hist = [dict(s=[list(b) for b in s], c=c) for s, c in sorted(cnt.items())]
        else:
            cnt = Counter(map(tuple, arr.tolist()))
            hist = [dict(s=list(s), c=c) for s, c in sorted(cnt.items())]
    return dict(_spec="SamplingTrace", kind=kind, n=n, m=m, N=N, k=k, w=[int(v) for v in (w if w is not None else [1] * n)],
                hist=hist, expect=expect, status="ok" if st == "ok" else out)


def marginal_rec(kind, n, m, N, st, out, w=None):
    """out: N draws of m indices; counts of points and (for few points) of pairs."""
    r = _rec(kind, n, m, N, st, out if st != "ok" else np.zeros((0, m), int), w)
    r.update(hits=[], pairs=[], bad=0)
    if st == "ok":
        arr = np.asarray(out)
        r["bad"] = int(arr.shape != (N, m) or arr.min() < 0 or arr.max() >= n)
        if not r["bad"] and kind == "marginal":
            r["bad"] = int(any(len(set(a)) < m for a in arr.tolist()))
        if not r["bad"]:
            r["hits"] = np.bincount(arr.ravel(), minlength=n).tolist()
            if kind == "marginal" and n <= 40 and m > 1:
                on = np.zeros((N, n), int)
                np.put_along_axis(on, arr, 1, 1)
                r["pairs"] = (on.T @ on).tolist()
    return r


def marginal(seed, what, n, m, N=6000):
    """Many points."""
    rng = np.random.default_rng(seed)
    x = features(n, 2)
    w = rng.integers(0, 6, n) + (np.arange(n) == 0)

    def one(key):
        if what == "batch":
            return sample_batch_indices(key, n, m, 2)[1]
        return RandomSample(coreset_size=m, random_key=key, weighted=what == "weighted",
                            unique=what == "plain").reduce(Data(x, jnp.asarray(w, jnp.float32)))[0].unweighted_indices

    st, out = attempt(jax.jit(jax.vmap(one)), keys_of(rng, N))
    if what in ("plain", "batch"):
        return [marginal_rec("marginal", n, m, N, st, out)]
    return [marginal_rec("wmarginal", n, m, N, st, out, w if what == "weighted" else np.ones(n, int))]


def keys_of(rng, N):
    return jax.random.split(jax.random.key(int(rng.integers(1 << 30))), N)


def sample(seed, kind, n, m, weights=None, N=6000, sup=False, scale=1.0):
    """RandomSample; data weights present but unused unless weighted."""
    rng = np.random.default_rng(seed)
    x = features(n, 2)
    w = jnp.asarray(np.array(weights, np.float32) * scale) if weights else jnp.asarray(rng.uniform(0, 3, n), jnp.float32)

    def one(key):
        ds = SupervisedData(x, x[:, :1], w) if sup else Data(x, w)
        return RandomSample(coreset_size=m, random_key=key, weighted=kind in ("wwith", "wwithout"),
                            unique=kind in ("without", "wwithout")).reduce(ds)[0].unweighted_indices

    st, out = attempt(jax.jit(jax.vmap(one)), keys_of(rng, N))
    return [_rec(kind, n, m, N, st, out, weights)]


def batches(seed, n, m, k, N=6000):
    rng = np.random.default_rng(seed)
    st, out = attempt(jax.jit(jax.vmap(lambda key: sample_batch_indices(key, n, m, k))), keys_of(rng, N))
    return [_rec("batches", n, m, N, st, out, k=k)]


def refused(seed):
    recs = []
    x = features(4, 1)
    key = jax.random.key(seed)
    for m in (5, 9, 0, -1):
        st, out = attempt(lambda m=m: RandomSample(coreset_size=m, random_key=key).reduce(Data(x)))
        recs.append(_rec("without", 4, m, 0, st, "error" if st != "ok" else "", expect="error"))
    for n, m in ((4, 5), (2, 7), (4, -1)):
        st, out = attempt(lambda n=n, m=m: sample_batch_indices(key, n, m, 2))
        recs.append(_rec("batches", n, m, 0, st, "error" if st != "ok" else "", expect="error"))
    return recs
