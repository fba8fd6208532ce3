"""Histories of calls on shared objects, as the specification (ReplayMC) generates them."""
import warnings
import zlib

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.random as jr
import numpy as np
from coreax import kernels as K
from coreax.approximation import NystromApproximateKernel
from coreax.coreset import Coresubset
from coreax.data import Data, SupervisedData
from coreax.metrics import KSD, MMD
from coreax.score_matching import KernelDensityMatching
from coreax.solvers import (
    CaratheodoryRecombination, CompressPlusPlus, GreedyKernelPoints, KernelHerding, KernelThinning, MapReduce,
    RandomSample, RPCholesky, SteinThinning, TreeRecombination,
)
from coreax.weights import MMDWeightsOptimiser, SBQWeightsOptimiser

from harness.common import attempt
from harness.drivers.greedy import features, rand_table
from harness.kernels import TableKernel, padded_table

SOLVERS = {
    "herd": lambda key: KernelHerding(3, K.SquaredExponentialKernel(0.8), random_key=key),
    "herdwide": lambda key: KernelHerding(3, K.SquaredExponentialKernel(2.5), random_key=key),
    "herdrepeat": lambda key: KernelHerding(4, K.LinearKernel() + K.PCIMQKernel(0.9), unique=False, block_size=3, random_key=key),
    "herdapprox": lambda key: KernelHerding(3, NystromApproximateKernel(K.SquaredExponentialKernel(1.1), key, num_kernel_points=4, num_train_points=5)),
    "prob": lambda key: KernelHerding(3, K.SquaredExponentialKernel(0.8), probabilistic=True, temperature=0.5, random_key=key),
    "stein": lambda key: SteinThinning(3, K.PCIMQKernel(0.9)),
    "steinmatch": lambda key: SteinThinning(3, K.PCIMQKernel(0.9), score_matching=KernelDensityMatching(0.5), regularise=False),
    "random": lambda key: RandomSample(4, key),
    "randomw": lambda key: RandomSample(4, key, weighted=True, unique=False),
    "rpc": lambda key: RPCholesky(3, key, K.SquaredExponentialKernel(0.8)),
    "gkp": lambda key: GreedyKernelPoints(3, key, K.LinearKernel() + K.SquaredExponentialKernel(0.8, 0.3), regularisation_parameter=1e-1),
    "gkpwide": lambda key: GreedyKernelPoints(3, key, K.SquaredExponentialKernel(2.0), regularisation_parameter=1e-2),
    "gkpbatch": lambda key: GreedyKernelPoints(3, key, K.SquaredExponentialKernel(0.8), regularisation_parameter=1e-2, candidate_batch_size=5, loss_batch_size=4),
    "kt": lambda key: KernelThinning(2, K.SquaredExponentialKernel(0.8), key, 0.05, K.SquaredExponentialKernel(0.5)),
    "cpp": lambda key: CompressPlusPlus(2, 1, K.SquaredExponentialKernel(0.8), key, 0.05, K.SquaredExponentialKernel(0.5)),
    "mr": lambda key: MapReduce(KernelHerding(2, K.SquaredExponentialKernel(0.8)), leaf_size=4),
    "mrrandom": lambda key: MapReduce(RandomSample(2, key), leaf_size=4),
    "iter": lambda key: KernelHerding(3, K.SquaredExponentialKernel(0.8), probabilistic=True, random_key=key),
    "car": lambda key: CaratheodoryRecombination(),
    "tree": lambda key: TreeRecombination(),
}
SUPERVISED = ("gkp", "gkpwide", "gkpbatch")
REFINE = ("herd", "herdwide", "stein", "gkp", "gkpbatch")


def arrays():
    rng = np.random.default_rng(77)
    out = {}
    for name, n in (("A", 8), ("B", 8), ("C", 12)):
        out[name] = (rng.normal(size=(n, 2)).astype(np.float32), rng.normal(size=(n, 1)).astype(np.float32), np.ones(n, np.float32))
    out["W"] = (out["A"][0].copy(), out["A"][1].copy(), (rng.integers(1, 5, 8) / 4).astype(np.float32))
    return out


def mark(obj):
    """what an object holds: every array bit for bit, and every static field"""
    leaves, tree = jax.tree_util.tree_flatten(obj)
    h = zlib.crc32(str(tree).encode())
    for v in leaves:
        if isinstance(v, jax.Array) and jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
            v = jr.key_data(v)
        h = zlib.crc32(np.asarray(v).tobytes() + str(getattr(v, "shape", "")).encode() if not callable(v) else b"f", h)
    return h % (1 << 30)


def value(out):
    """a result as integers: indices exactly, numbers to five significant decimals"""
    if isinstance(out, Coresubset):
        idx = [int(i) for i in np.asarray(out.unweighted_indices)]
        num = np.concatenate([np.ravel(np.asarray(out.indices.weights, float)), np.ravel(np.asarray(out.points.data, float))])
    else:
        idx, num = [], np.ravel(np.asarray(out, float))
    return idx, [int(v) for v in np.round(np.clip(np.nan_to_num(num, nan=9e3), -1e4, 1e4) * 1e5)]


def run(history, hid):
    warnings.simplefilter("ignore")
    np.random.seed(hid % 1000)
    src = arrays()
    data = {k: Data(x, w) for k, (x, y, w) in src.items()}
    sup = {k: SupervisedData(x, y, w) for k, (x, y, w) in src.items()}
    solvers, cores, states, jits = {}, {}, {}, {}
    keys = {1: jr.key(11), 2: jr.key(5)}
    mmd, ksd = MMD(K.SquaredExponentialKernel(0.8)), KSD(K.PCIMQKernel(0.9))
    mmdwide = MMD(K.SquaredExponentialKernel(2.5))
    sbq, mmw = SBQWeightsOptimiser(K.SquaredExponentialKernel(0.8)), MMDWeightsOptimiser(K.SquaredExponentialKernel(0.8))
    for k in data:
        cores[k] = Coresubset(Data(jnp.asarray([1, 5, 3])), data[k])
        cores[k, "sup"] = Coresubset(Data(jnp.asarray([1, 5, 3])), sup[k])
    other = {"A": "B", "B": "C", "C": "A", "W": "C"}

    def call(op, dn, key, mode):
        base = op.split(":")[0]
        if op.startswith("metric:"):
            f = {"metric:mmd": lambda m, a, b: m.compute(a, b), "metric:mmdwide": lambda m, a, b: m.compute(a, b),
                 "metric:ksd": lambda m, a, b: m.compute(a, b), "metric:core": lambda m, a, b: b.compute_metric(m)}[op]
            args = ({"metric:mmdwide": mmdwide, "metric:ksd": ksd}.get(op, mmd), data[dn], cores[dn] if op == "metric:core" else data[other[dn]])
        elif op.startswith("weights:"):
            f = (lambda o, a, b: o.solve(a, b)) if op != "weights:core" else (lambda o, a, b: b.solve_weights(o).indices.weights)
            args = (sbq if op == "weights:sbq" else mmw, data[dn], cores[dn] if op == "weights:core" else cores[dn].points)
        else:
            if (base, key) not in solvers:
                solvers[base, key] = SOLVERS[base](keys[key])
            s = solvers[base, key]
            d = (sup if base in SUPERVISED else data)[dn]
            c = cores[(dn, "sup") if base in SUPERVISED else dn]
            if op.endswith(":refine"):
                f = (lambda s_, c_, t_: s_.refine(c_, t_))
                args = (s, c, states.get((base, dn, key)) if mode == "state" else None)
            else:
                f = (lambda s_, d_, t_: s_.reduce_iterative(d_, num_iterations=3) if base == "iter" else s_.reduce(d_, t_))
                args = (s, d, states.get((base, dn, key)) if mode == "state" else None)
        if mode == "jit":
            if op not in jits:
                jits[op] = eqx.filter_jit(f)
            f = jits[op]
        out = f(*args)
        if isinstance(out, tuple):
            out, st = out
            if st is not None:
                states[base, dn, key] = st
        return value(out)

    def shared():
        objs = [*data.values(), *sup.values(), *cores.values(), mmd, ksd, mmdwide, sbq, mmw, *[keys[k] for k in sorted(keys)], *src.values()]
        return [mark(o) for o in objs]

    recs = []
    base = shared()
    made = {}
    for i, c in enumerate(history):
        st, v = attempt(call, c["op"], c["data"], c["key"], c["mode"])
        for k, s in solvers.items():
            made.setdefault(k, mark(s))
        changed = shared() != base or any(mark(s) != made[k] for k, s in solvers.items())
        recs.append(dict(_spec="ReplayTrace", hist=hid, step=i + 1, op=c["op"], data=c["data"], key=c["key"], mode=c["mode"],
                         status="ok" if st == "ok" else v, idx=v[0] if st == "ok" else [], num=v[1] if st == "ok" else [], changed=changed))
    return recs


def ties(seed, count, n=7):
    """Deterministic solvers under different keys where many points are equally good (exact integer tables)."""
    rng = np.random.default_rng(seed)
    x = features(n, 1)
    keys = [jr.key(k) for k in (0, 1, 7, 1234567)]
    recs = []

    def observe(make, ds, start, run):
        c, _ = run(make, ds, start)
        return [int(i) for i in np.asarray(c.unweighted_indices)]

    def herd(t, key, uniq):
        return KernelHerding(4, TableKernel(t), unique=uniq, random_key=key)

    runs = {
        "herding": lambda s, d, c: s.reduce(d),
        "refined herding": lambda s, d, c: s.refine(c),
        "iterated herding": lambda s, d, c: s.reduce_iterative(d, num_iterations=2),
        "compiled herding": lambda s, d, c: eqx.filter_jit(lambda a, b: a.reduce(b))(s, d),
        "map-reduced herding": lambda s, d, c: MapReduce(s, leaf_size=8).reduce(Data(jnp.tile(d.data, (3, 1)))),
    }
    for i in range(count):
        t = padded_table(rand_table(rng, n, 0, 2, ["const", "dup", "any"][i % 3]))
        ds = Data(x, jnp.asarray(rng.integers(1, 3, n), jnp.float32))
        start = Coresubset(Data(jnp.asarray(rng.choice(n, 4, replace=False))), ds)
        for what, run in runs.items():
            if what == "map-reduced herding" and i % 4:
                continue
            st, out = attempt(lambda: [observe(herd(t, k, bool(i % 2)), ds, start, run) for k in keys])
            recs.append(dict(_spec="SameTrace", what=f"{what} of tied points under different keys", status="ok" if st == "ok" else out,
                             a=out[0] * (len(keys) - 1) if st == "ok" else [], b=sum(out[1:], []) if st == "ok" else []))
    return recs
