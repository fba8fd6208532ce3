"""Kernel thinning: halving law, recursion, choice, refinement."""
from collections import Counter

import jax
import jax.numpy as jnp
import numpy as np
from coreax.coreset import Coresubset
from coreax.data import Data, SupervisedData
from coreax.solvers import KernelThinning

from harness.common import attempt
from harness.drivers.greedy import _rec as greedy_rec
from harness.drivers.greedy import features, pow2, rand_weights
from harness.drivers.sampling import _rec as sampling_rec
from harness.drivers.sampling import keys_of
from harness.kernels import TableKernel, padded_table

SPEC = "KTTrace"


def gram(rng, n, style="any", dim=3, lim=1):
    """Integer positive semidefinite matrix with small squared distances."""
    F = rng.integers(-lim, lim + 1, (n, dim))
    if style == "dup":
        for i in range(0, n - 1, 2):
            if rng.random() < 0.5:
                F[i + 1] = F[i]
    elif style == "line":
        F = np.arange(n)[:, None] % 4 + rng.integers(0, 2, (n, 1))
    elif style == "same":
        F[:] = F[0]
    return F @ F.T + (1 if rng.random() < 0.5 else 0)


def solver(table, sqrt_table, size, key, delta):
    return KernelThinning(coreset_size=size, kernel=TableKernel(table), random_key=key, delta=delta,
                          sqrt_kernel=TableKernel(sqrt_table))


def half(seed, count, h=3, style="any", delta=0.2, keys=5000, sup=False):
    rng = np.random.default_rng(seed)
    n = 2 * h
    x = features(n, 2)
    other = padded_table(rng.integers(0, 5, (n, n)) + 10 * np.eye(n))

    def one(key, t):
        ds = SupervisedData(x, x[:, :1]) if sup else Data(x)
        a, b = solver(other, t, h, key, delta).kt_half(ds)
        return a.unweighted_indices, b.unweighted_indices

    f = jax.jit(jax.vmap(one, in_axes=(0, None)))
    recs = []
    for _ in range(count):
        K = gram(rng, n, style)
        st, out = attempt(f, keys_of(rng, keys), padded_table(K) * pow2(rng, 10))
        hist = []
        if st == "ok":
            a, b = np.asarray(out[0]) + 1, np.asarray(out[1]) + 1
            cnt = Counter((tuple(p), tuple(q)) for p, q in zip(a.tolist(), b.tolist()))
            hist = [dict(f=list(p), g=list(q), c=c) for (p, q), c in sorted(cnt.items())]
        recs.append(dict(_spec=SPEC, kind="half", h=h, K=K.tolist(), cc=int(round(200 * np.log(2 / delta))), hist=hist,
                         status="ok" if st == "ok" else out))
    return recs


def coins(seed, h=9, N=4000, delta=0.3):
    """Pairs orthogonal to everything else: every swap is a fair coin, independent of all others."""
    rng = np.random.default_rng(seed)
    n = 2 * h
    x = features(n, 2)
    t = padded_table(np.eye(n))

    def one(key):
        return solver(t, t, h, key, delta).kt_half(Data(x))[0].unweighted_indices

    st, out = attempt(jax.jit(jax.vmap(one)), keys_of(rng, N))
    rec = dict(_spec=SPEC, kind="coins", h=h, N=N, ones=[], agree=[], status="ok" if st == "ok" else out)
    if st == "ok":
        s = np.asarray(out) % 2
        rec["ones"] = [int(v) for v in s.sum(0)]
        rec["agree"] = [[int((s[:, i] == s[:, j]).sum()) for j in range(h)] for i in range(h)]
    return [rec]


def whole(seed, cases, reps=2, delta=0.3, eager=False):
    """cases: (n, size, supervised, weighted).  Candidates, choice, and the final refinement of one run."""
    rng = np.random.default_rng(seed)
    recs = []
    for n, size, sup, weighted in cases:
        m = (n // size).bit_length() - 1
        x = features(n, 2)

        def run(key, t, ts, w):
            ds = SupervisedData(x, jnp.cos(x[:, :1]), w) if sup else Data(x, w)
            s = solver(t, ts, size, key, delta)
            parts = s.kt_half_recursive(ds[: size * 2**m], m, ds)
            base = s.get_baseline_coreset(ds, size)
            best = s.kt_choose(parts + [base], ds)
            final, _ = s.reduce(ds)
            same = [jnp.all(p.pre_coreset_data.data == ds.data) & (p.pre_coreset_data.data.shape == ds.data.shape)
                    for p in parts]
            return ([p.unweighted_indices for p in parts], base.unweighted_indices, jnp.ravel(jnp.asarray(best)),
                    final.unweighted_indices, jnp.stack(same))

        f = run if eager else jax.jit(run)
        for _ in range(reps):
            K = gram(rng, n, rng.choice(["any", "dup", "line"]), lim=2)
            Ks = gram(rng, n, "any")
            w = rand_weights(rng, n, size, "big") if weighted else np.ones(n, int)
            key = jax.random.key(int(rng.integers(1 << 30)))
            st, out = attempt(f, key, padded_table(K) * 4.0 ** int(rng.choice([0, -5, 4])), padded_table(Ks) * pow2(rng, 10), jnp.asarray(w, jnp.float32))
            ok = st == "ok"
            cands = [(np.asarray(c) + 1).tolist() for c in out[0]] if ok else []
            base, best, final = [(np.asarray(v) + 1).tolist() for v in out[1:4]] if ok else ([], [], [])
            bad = int((~np.asarray(out[4])).sum()) if ok else 0
            stat = "ok" if ok else out
            recs.append(dict(_spec=SPEC, kind="split", n=n, size=size, depth=m, cands=cands, carried=bad, status=stat))
            recs.append(dict(_spec=SPEC, kind="choose", n=n, K=K.tolist(), w=w.tolist(), cands=cands + [base], kept=best,
                             eps=3, status=stat))
            r = greedy_rec(n, K, w, size, True, best, "herd", [np.asarray(final) - 1] if ok else [])
            r["status"] = stat
            recs.append(r)
    return recs


def choose(seed, count, n=8, size=3, k=5):
    """Arbitrary candidates (also ones far from the data or tied)."""
    rng = np.random.default_rng(seed)
    x = features(n, 2)

    def run(t, w, cand):
        ds = Data(x, w)
        s = solver(t, t, size, jax.random.key(0), 0.1)
        return jnp.ravel(jnp.asarray(s.kt_choose([Coresubset(Data(c), ds) for c in cand], ds)))

    f = jax.jit(run)
    recs = []
    for _ in range(count):
        K = gram(rng, n, rng.choice(["any", "dup", "line"]), lim=2)
        w = rand_weights(rng, n, 2, "mixed")
        cand = [rng.choice(n, size, replace=False) for _ in range(k)]
        st, out = attempt(f, padded_table(K) * 4.0 ** int(rng.choice([0, -5, 4])), jnp.asarray(w, jnp.float32), [jnp.asarray(c) for c in cand])
        recs.append(dict(_spec=SPEC, kind="choose", n=n, K=K.tolist(), w=w.tolist(), cands=[(c + 1).tolist() for c in cand],
                         kept=(np.asarray(out) + 1).tolist() if st == "ok" else [], eps=3,
                         status="ok" if st == "ok" else out))
    return recs


def baseline(seed, n=5, size=2, N=6000):
    rng = np.random.default_rng(seed)
    x = features(n, 2)
    t = padded_table(np.eye(n))

    def one(key):
        return solver(t, t, size, key, 0.1).get_baseline_coreset(Data(x), size).unweighted_indices

    st, out = attempt(jax.jit(jax.vmap(one)), keys_of(rng, N))
    return [sampling_rec("without", n, size, N, st, out)]
