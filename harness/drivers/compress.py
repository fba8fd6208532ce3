"""Compress++: settings, structure of the recursion (via a recording kernel thinning) and the random clip."""
import warnings

import coreax.solvers.coresubset as cs
import jax
import jax.numpy as jnp
import numpy as np
from coreax.data import Data, SupervisedData
from coreax.solvers import CompressPlusPlus

from harness.common import attempt
from harness.drivers.greedy import features
from harness.drivers.sampling import _rec as sampling_rec
from harness.drivers.sampling import keys_of, marginal_rec
from harness.drivers.subset import cpp_feasible
from harness.drivers.thinning import gram
from harness.kernels import TableKernel, padded_table

LOG = []
EXPECT = {}
_KT = cs.KernelThinning


class Recorder(_KT):
    """The real kernel thinning, noting the rows it was given and kept (first feature = row identity)."""

    def reduce(self, dataset, solver_state=None):
        out, st = _KT.reduce(self, dataset, solver_state)
        def leaves(k):
            return [jnp.asarray(v) for v in jax.tree_util.tree_leaves(k)]

        def note(x, i, kern, sqrt, delta):
            ids = np.round(np.asarray(x)[:, 0]).astype(int)
            same = all(len(a) == len(b) and all(np.array_equal(u, v) for u, v in zip(a, b, strict=True))
                       for a, b in ((kern, EXPECT["kernel"]), (sqrt, EXPECT["sqrt"])))
            cfg = int(not same or abs(float(delta) - EXPECT["delta"]) > 1e-6)
            LOG.append((ids.tolist(), ids[np.asarray(i)].tolist(), cfg))

        jax.debug.callback(note, dataset.data, out.unweighted_indices, leaves(self.kernel), leaves(self.sqrt_kernel), self.delta)
        return out, st


def run(key, x, w, n, size, g, sup, kernel, sqrt, delta):
    ds = SupervisedData(x, x[:, :1] * 2, w) if sup else Data(x, w)
    s = CompressPlusPlus(coreset_size=size, g=g, kernel=kernel, random_key=key, delta=delta, sqrt_kernel=sqrt)
    return s.reduce(ds)[0].unweighted_indices


def runs(seed, cases, reps=2, delta=0.25):
    """cases: (n, size, g, supervised)."""
    warnings.simplefilter("ignore")
    rng = np.random.default_rng(seed)
    recs = []
    cs.KernelThinning = Recorder
    try:
        for n, size, g, sup in cases:
            ok = cpp_feasible(n, size, g)
            x = features(n, 2)
            kernel = TableKernel(padded_table(gram(rng, n, "any")))
            sqrt = TableKernel(padded_table(gram(rng, n, "dup") + np.eye(n, dtype=int)))
            EXPECT.update(kernel=[np.asarray(kernel.table)], sqrt=[np.asarray(sqrt.table)], delta=delta)

            def f(key, w):
                return run(key, x, w, n, size, g, sup, kernel, sqrt, delta)  # noqa: B023

            jf = jax.jit(f) if ok else f
            for _ in range(reps if ok else 1):
                LOG.clear()
                key = jax.random.key(int(rng.integers(1 << 30)))
                st, out = attempt(jf, key, jnp.asarray(rng.uniform(0.5, 2, n), jnp.float32))
                if st == "ok":
                    out = np.asarray(out) + 1
                    jax.effects_barrier()
                # dependency order: halvings by increasing input size, the final thinning last
                calls = [dict(inp=i, out=o, cfg=c) for i, o, c in LOG]
                last = [c for c in calls if st == "ok" and c["out"] == out.tolist() and len(c["inp"]) == 2**g * 2**depth(n)]
                if calls and last:
                    calls.remove(last[-1])
                    calls.append(last[-1])
                recs.append(dict(_spec="CompressTrace", n=n, size=size, g=g, idx=out.tolist() if st == "ok" else [],
                                 calls=calls if ok and st == "ok" else [], expect="ok" if ok else "error",
                                 status="ok" if st == "ok" else out))
    finally:
        cs.KernelThinning = _KT
    return recs


def depth(n):
    d = 0
    while n >= 4:
        n //= 4
        d += 1
    return d


def clip(seed, n, N=6000):
    """4 <= n < 16, g = 1, size 4: the answer is the clipped subset itself, uniformly random."""
    rng = np.random.default_rng(seed)
    x = features(n, 2)
    k = TableKernel(padded_table(gram(rng, n, "any")))
    st, out = attempt(jax.jit(jax.vmap(lambda key: run(key, x, jnp.ones(n), n, 4, 1, False, k, k, 0.25))), keys_of(rng, N))
    if n > 7:
        return [marginal_rec("marginal", n, 4, N, st, out)]
    return [sampling_rec("without", n, 4, N, st, np.sort(np.asarray(out), 1) if st == "ok" else out)]
