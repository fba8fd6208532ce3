CS = "coreax/solvers/coresubset.py"
H = '''
import sys, warnings
warnings.filterwarnings("ignore")
import numpy as np, jax, jax.numpy as jnp, jax.random as jr
def check(ok, msg):
    if not ok:
        print("FAIL:", msg); sys.exit(1)
'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=H + demo))

bug("mapreduce-int16", "P09", [("coreax/solvers/composite.py", "jax.ShapeDtypeStruct(slots.shape, jnp.int32)", "jax.ShapeDtypeStruct(slots.shape, jnp.int16)"), ("coreax/solvers/composite.py", "[slots].astype(np.int32)", "[slots].astype(np.int16)")],
 "a dataset of more than 32767 rows", "partition indices wrap around, rows are lost or duplicated and mapped to wrong originals", '''
from coreax import Data
from coreax.kernels import LinearKernel
from coreax.solvers import MapReduce, KernelHerding
n = 40000
x = jnp.zeros((n, 1)).at[39990:].set(1.0)
w = jnp.zeros(n).at[39990:].set(1.0)
import coreax.solvers.composite as cc
from sklearn.neighbors import KDTree
d = Data(jnp.arange(n, dtype=jnp.float32), jnp.ones(n))
parts, idx = cc._jit_tree(d, 5000, KDTree)
real = np.asarray(parts.weights) > 0
seen = np.sort(np.asarray(parts.data)[real].ravel().astype(int))
check(len(seen) == n and (seen == np.arange(n)).all(), "rows lost or repeated")
check((np.asarray(idx)[real] == np.asarray(parts.data)[real].ravel().astype(int)).all(), "wrong original index")
''')
bug("compress-int16", "P01", [(CS, "            self.random_key, n, shape=(effective_data_size,), replace=False\n        )", "            self.random_key, n, shape=(effective_data_size,), replace=False\n        ).astype(jnp.int16)")],
 "Compress++ on a dataset of more than 32767 rows", "indices of rows beyond 32767 wrap around to negative numbers", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import CompressPlusPlus
n = 60000
k = SquaredExponentialKernel()
c, _ = CompressPlusPlus(8, g=0, kernel=k, random_key=jr.key(1), delta=0.1, sqrt_kernel=k.get_sqrt_kernel(1)).reduce(Data(jr.normal(jr.key(0), (n, 1))))
i = np.asarray(c.unweighted_indices)
check((i >= 0).all() and (i < n).all(), i)
''')
bug("herd-sentinel", "P02", [(CS, "updated_penalty = updated_penalty.at[updated_coreset_index].set(jnp.inf)", "updated_penalty = updated_penalty.at[updated_coreset_index].set(1e6)")],
 "a kernel with values around a million (large output scale)", "a finite sentinel no longer excludes chosen points, so unique results repeat indices", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
bad = 0
for s in range(5):
    x = jr.normal(jr.key(s), (6, 1))
    c, _ = KernelHerding(6, SquaredExponentialKernel(1.0, 1e7)).reduce(Data(x))
    bad += len(set(np.asarray(c.unweighted_indices).tolist())) != 6
check(bad == 0, bad)
''')
bug("herd-weight-floor", "P03", [(CS, "data_weights > 0, kernel_similarity_penalty, jnp.nan", "data_weights > 1e-8, kernel_similarity_penalty, jnp.nan")],
 "positive but very small data weights (for instance weights normalised over a huge dataset)", "positively weighted points are treated as padding and never selected", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
k = SquaredExponentialKernel(1.0)
bad = 0
for s in range(5):
    x = jr.normal(jr.key(s), (8, 1)); w = jnp.arange(1.0, 9.0)
    a, _ = KernelHerding(3, k).reduce(Data(x, w))
    b, _ = KernelHerding(3, k).reduce(Data(x, w * 2.0**-29))
    bad += not (np.asarray(a.unweighted_indices) == np.asarray(b.unweighted_indices)).all()
check(bad == 0, bad)
''')
bug("herd-schedule-scale", "P03", [(CS, "lambda x: x.temperature, new_solver, t_schedule[i]", "lambda x: x.temperature, new_solver, self.temperature * t_schedule[i]")],
 "iterated probabilistic herding with a temperature schedule and a temperature other than one", "draws use the wrong temperature", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
k = SquaredExponentialKernel(1.0)
x = jr.normal(jr.key(0), (30, 1)) * 2
s = jnp.array([0.5, 0.25])
bad = 0
for i in range(10):
    a, _ = KernelHerding(4, k, probabilistic=True, temperature=1.0, random_key=jr.key(i)).reduce_iterative(Data(x), num_iterations=2, t_schedule=s)
    b, _ = KernelHerding(4, k, probabilistic=True, temperature=0.001, random_key=jr.key(i)).reduce_iterative(Data(x), num_iterations=2, t_schedule=s)
    bad += not (np.asarray(a.unweighted_indices) == np.asarray(b.unweighted_indices)).all()
check(bad == 0, bad)
''')
bug("stein-bandwidth", "P04", [(CS, "kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)", "kde = jsp.stats.gaussian_kde(x.T, weights=w_x)")],
 "regularised Stein thinning with an explicit bandwidth for the density estimate", "the bandwidth is ignored, so the entropic regularisation uses another density", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel, SteinKernel
from coreax.solvers import SteinThinning
import jax.scipy as jsp
k = SteinKernel(SquaredExponentialKernel(1.0), score_function=lambda z: -z)
bad = 0
for s in range(8):
    x = jr.normal(jr.key(s), (12, 1)) * 1.5
    lam = 5.0
    c, _ = SteinThinning(1, k, regularise=True, regulariser_lambda=lam, kde_bw_method=jnp.asarray(0.05)).reduce(Data(x))
    lp = np.asarray(jsp.stats.gaussian_kde(x.T, weights=jnp.ones(12), bw_method=jnp.asarray(0.05)).logpdf(x.T), float)
    crit = np.asarray(jax.vmap(k.compute_elementwise)(x, x), float) - lam * lp
    bad += crit[int(c.unweighted_indices[0])] > crit.min() + 1e-4
check(bad == 0, bad)
''')
bug("stein-step-members", "P04", [(CS, "ksd + laplace_correction - (i + 1) * regularised_log_pdf", "ksd + laplace_correction - _coreset_size * regularised_log_pdf")],
 "regularised Stein thinning refining an existing coreset", "the density term is weighted by the number of members instead of the step", '''
from coreax import Data, Coresubset
from coreax.kernels import SquaredExponentialKernel, SteinKernel
from coreax.solvers import SteinThinning
import jax.scipy as jsp
k = SteinKernel(SquaredExponentialKernel(1.0), score_function=lambda z: -z)
bad = 0
for s in range(10):
    x = jr.normal(jr.key(s), (12, 1)) * 1.5
    lam = 1.0
    c0 = Coresubset(Data(jnp.array([0, 1, 2, 3])), Data(x))
    c, _ = SteinThinning(4, k, regularise=True, regulariser_lambda=lam).refine(c0)
    lp = np.asarray(jsp.stats.gaussian_kde(x.T, weights=jnp.ones(12)).logpdf(x.T), float)
    G = np.asarray(k.compute(x, x), float)
    crit = np.diag(G) + 2 * G[:, [1, 2, 3]].sum(1) - lam * lp
    crit[[1, 2, 3]] = np.inf
    bad += crit[int(c.unweighted_indices[0])] > crit.min() + 1e-4
check(bad == 0, bad)
''')
bug("gkp-held-candidate", "P05", [(CS, "(candidate_batch_indices, initial_coreset_indices[:, jnp.newaxis])", "(\n                candidate_batch_indices,\n                jnp.full_like(candidate_batch_indices[:, :1], initial_coreset_indices[0]),\n            )")],
 "refining with a candidate batch smaller than the dataset, at a position other than the first", "the point currently held is no longer a candidate, so refinement makes the loss worse", '''
from coreax import SupervisedData, Coresubset, Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import GreedyKernelPoints
k = SquaredExponentialKernel(1.0)
def loss(x, y, idx):
    G = np.asarray(k.compute(x, x), float); Y = np.asarray(y, float)
    a = np.linalg.solve(G[np.ix_(idx, idx)] + 1e-1 * np.eye(len(idx)), Y[idx])
    return ((G[:, idx] @ a - Y) ** 2).sum()
bad = 0
for s in range(30):
    x = jr.normal(jr.key(s), (10, 1)) * 2; y = jnp.sin(2 * x)
    d = SupervisedData(x, y)
    best, _ = GreedyKernelPoints(3, random_key=jr.key(s), feature_kernel=k, regularisation_parameter=1e-1).reduce(d)
    c, _ = GreedyKernelPoints(3, random_key=jr.key(s + 1), feature_kernel=k, regularisation_parameter=1e-1, candidate_batch_size=3).refine(best)
    bad += loss(x, y, np.asarray(c.unweighted_indices)) > loss(x, y, np.asarray(best.unweighted_indices)) + 1e-3
check(bad == 0, bad)
''')
bug("greedy-size-sum", "P07", [(CS, "init_coreset_size = jnp.sum(jnp.greater(coreset_weights, 0))", "init_coreset_size = jnp.sum(coreset_weights)")],
 "refining a coreset whose weights are equal but not one", "the number of members is taken to be the total weight", '''
from coreax import Data, Coresubset
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
k = SquaredExponentialKernel(1.0)
bad = 0
for s in range(10):
    x = jr.normal(jr.key(s), (10, 1)) * 1.5
    a, _ = KernelHerding(4, k).refine(Coresubset(Data(jnp.array([0, 1, 2, 3])), Data(x)))
    b, _ = KernelHerding(4, k).refine(Coresubset(Data(jnp.array([0, 1, 2, 3]), jnp.full(4, 0.25)), Data(x)))
    bad += not (np.asarray(a.unweighted_indices) == np.asarray(b.unweighted_indices)).all()
check(bad == 0, bad)
''')
bug("kt-sigma-clip", "P10", [(CS, "sigma**2 + jnp.maximum(b**2 * (1 + (b**2 - 2 * a) * sigma**2 / a**2), 0)", "sigma**2 + b**2 * (1 + (b**2 - 2 * a) * sigma**2 / a**2)")],
 "a close pair of points following distant pairs", "the sigma recursion of the self-balancing walk may decrease, so later swap thresholds are wrong", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelThinning
k = SquaredExponentialKernel(1.0)
def ref(x, key, delta):
    K = np.asarray(k.compute(x, x), np.float64); n = len(x) // 2; sig = 0.0; first = []
    margins = []
    for i in range(n):
        p, q = 2 * i, 2 * i + 1
        b = np.sqrt(max(K[p, p] + K[q, q] - 2 * K[p, q], 0))
        a = max(b * sig * np.sqrt(2 * np.log(2 / delta)), b * b) if b > 0 else 1.0
        al = sum(K[j, p] - K[j, q] for j in range(2 * i)) - 2 * sum(K[j, p] - K[j, q] for j in first)
        sig = np.sqrt(sig**2 + max(b * b * (1 + (b * b - 2 * a) * sig**2 / a**2), 0))
        k1, key = jr.split(key)
        u = float(jr.uniform(k1)); pr = 0.5 * (1 - al / a)
        margins.append(abs(u - pr)); first.append(q if u <= pr else p)
    return first, min(margins)
bad = 0
for s in range(60):
    r = np.random.default_rng(s)
    x = np.concatenate([r.normal(size=(8, 1)) * 3, np.repeat(r.normal(size=(8, 1)), 2, 0) + r.normal(size=(16, 1)) * 0.15])
    x = jnp.asarray(x, jnp.float32)
    f, m = ref(x, jr.key(s), 0.4)
    a, b = KernelThinning(12, k, jr.key(s), 0.4, k).kt_half(Data(x))
    if m > 1e-3:
        bad += np.asarray(a.unweighted_indices).tolist() != f
check(bad == 0, bad)
''')
bug("kt-baseline-prefix", "P10", [(CS, "self.get_baseline_coreset(dataset, self.coreset_size)", "self.get_baseline_coreset(\n            clipped_original_dataset, self.coreset_size\n        )")],
 "a dataset that is not a power-of-two multiple of the coreset size", "the random baseline is drawn from the leading block only, points after it have no chance", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelThinning
k = SquaredExponentialKernel(1.0)
seen = set()
class KT(KernelThinning):
    def kt_choose(self, candidate_coresets, points):
        seen.update(np.asarray(candidate_coresets[-1].unweighted_indices).tolist())
        return super().kt_choose(candidate_coresets, points)
x = jr.normal(jr.key(0), (15, 1))
for s in range(40):
    KT(2, k, jr.key(s), 0.4, k).reduce(Data(x))
check(max(seen) == 14, sorted(seen))
''')
bug("kt-refine-sqrt", "P10", [(CS, "coreset_size=self.coreset_size, kernel=self.kernel\n        ).refine(candidate_coreset)", "coreset_size=self.coreset_size, kernel=self.sqrt_kernel\n        ).refine(candidate_coreset)")],
 "a square-root kernel different from the kernel", "the final herding refinement uses the square-root kernel", '''
from coreax import Data, Coresubset
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelThinning, KernelHerding
k = SquaredExponentialKernel(1.0); q = SquaredExponentialKernel(0.1)
bad = 0
for s in range(10):
    x = jr.normal(jr.key(s), (16, 1)) * 2
    c0 = Coresubset(Data(jnp.arange(4)), Data(x))
    a, _ = KernelThinning(4, k, jr.key(s), 0.4, q).kt_refine(c0)
    b, _ = KernelHerding(4, k).refine(c0)
    bad += not (np.asarray(a.unweighted_indices) == np.asarray(b.unweighted_indices)).all()
check(bad == 0, bad)
''')
bug("compress-prefix", "P11", [(CS, "        clipped_indices = jax.random.choice(\n            self.random_key, n, shape=(effective_data_size,), replace=False\n        )", "        clipped_indices = jax.random.permutation(self.random_key, effective_data_size)")],
 "a dataset whose size is not a power of four", "only the leading rows can be selected", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import CompressPlusPlus
k = SquaredExponentialKernel(1.0); seen = set()
x = jr.normal(jr.key(0), (30, 1))
for s in range(20):
    c, _ = CompressPlusPlus(4, g=0, kernel=k, random_key=jr.key(s), delta=0.1, sqrt_kernel=k).reduce(Data(x))
    seen.update(np.asarray(c.unweighted_indices).tolist())
check(max(seen) >= 16, sorted(seen))
''')
bug("compress-half-kernels", "P11", [(CS, "                coreset_size=m // 2,\n                delta=self.delta,\n                kernel=self.kernel,\n                sqrt_kernel=self.sqrt_kernel,", "                coreset_size=m // 2,\n                delta=self.delta,\n                kernel=self.sqrt_kernel,\n                sqrt_kernel=self.kernel,")],
 "a square-root kernel different from the kernel and data larger than the first leaf", "the intermediate halvings are done with the two kernels exchanged", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import CompressPlusPlus, KernelThinning
k = SquaredExponentialKernel(1.0); q = SquaredExponentialKernel(0.05)
bad = 0
for s in range(10):
    x = jr.normal(jr.key(s), (16, 1)) * 2; key = jr.key(s + 50)
    c, _ = CompressPlusPlus(8, g=1, kernel=k, random_key=key, delta=0.3, sqrt_kernel=q).reduce(Data(x))
    idx = np.asarray(jr.choice(key, 16, shape=(16,), replace=False))
    h, _ = KernelThinning(8, k, key, 0.3, q).reduce(Data(x[idx])); idx = idx[np.asarray(h.unweighted_indices)]
    t, _ = KernelThinning(8, k, key, 0.3, q).reduce(Data(x[idx])); idx = idx[np.asarray(t.unweighted_indices)]
    bad += np.asarray(c.unweighted_indices).tolist() != idx.tolist()
check(bad == 0, bad)
''')
R = "coreax/solvers/recombination.py"
bug("recomb-absolute-rcond", "P12", [(R, "        _rcond *= jnp.max(s[0])", "        _rcond *= jnp.maximum(1.0, jnp.max(s[0]))")],
 "test functions with very small values compared with one", "the rank is judged against an absolute threshold, so tiny test functions are not preserved", '''
from coreax import Data
from coreax.solvers import CaratheodoryRecombination
bad = 0
for s in range(5):
    x = jr.normal(jr.key(s), (12, 2))
    c, _ = CaratheodoryRecombination(test_functions=lambda z: z * 2.0**-24, rcond=None).reduce(Data(x))
    w = np.asarray(c.points.weights, float); i = np.asarray(c.unweighted_indices)
    bad += np.abs(w @ np.asarray(x, float)[i] - np.asarray(x, float).mean(0)).max() > 1e-2
check(bad == 0, bad)
''')
bug("recomb-fill", "P12", [(R, "idx = jnp.flatnonzero(weights, size=min(n, m), fill_value=jnp.argmin(weights))", "idx = jnp.flatnonzero(weights, size=min(n, m), fill_value=0)")],
 "implicit-explicit mode when fewer points than test functions remain and the first point keeps its weight", "filler entries repeat the first point's weight, so the total mass exceeds one", '''
from coreax import Data
from coreax.solvers import CaratheodoryRecombination
x = jnp.array([[0.0, 0.0], [1.0, 1.0], [2.0, 2.0], [3.0, 3.0], [4.0, 4.0]])
bad = 0
for s in range(20):
    w = jr.uniform(jr.key(s), (5,)) + 0.1
    for p in (x, x * jnp.array([1.0, -1.0]), x[::-1]):
        c, _ = CaratheodoryRecombination(mode="implicit-explicit").reduce(Data(p, w))
        bad += abs(float(c.points.weights.sum()) - 1) > 1e-3
check(bad == 0, bad)
''')
bug("recomb-colinear-min", "P12", [(R, "max_index = jnp.argmax(weights)", "max_index = jnp.argmin(weights)")],
 "data with zero-weighted points", "zero-weighted points are kept in play and can receive weight", '''
from coreax import Data
from coreax.solvers import CaratheodoryRecombination
bad = 0
for s in range(30):
    x = jr.normal(jr.key(s), (8, 2)); w = jnp.array([1.0, 0, 2, 0, 0, 1, 3, 1])
    c, _ = CaratheodoryRecombination().reduce(Data(x, w))
    wt = np.asarray(c.points.weights); i = np.asarray(c.unweighted_indices)
    bad += bool((np.asarray(w)[i[wt > 1e-6]] == 0).any())
check(bad == 0, bad)
''')
bug("block-min-size", "P14", [("coreax/kernels/util.py", "padding = ceil(len(x) / block_size) * block_size - len(x)", "padding = -len(x) % block_size if block_size < len(x) // 2 else 0\n    x = x if padding or len(x) % block_size == 0 else x[: len(x) - len(x) % block_size]")],
 "a block size between half and all of the data that does not divide it", "the rows after the first block are dropped", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
k = SquaredExponentialKernel(1.0); x = jr.normal(jr.key(0), (7, 1))
a = float(k.compute_mean(x, x)); b = float(k.compute_mean(x, x, block_size=5))
check(abs(a - b) < 1e-5, (a, b))
''')
bug("mean-dtype", "P14", [("coreax/kernels/base.py", "            block_sum, jnp.asarray(0.0), block_x, unroll=outer_unroll", "            block_sum, jnp.asarray(0.0), block_x, unroll=outer_unroll"), ("coreax/kernels/base.py", "            _block_size = _block_size[::-1]\n", "")],
 "different block sizes for the two operands with axis 0, one of them larger than the other dataset", "block sizes are applied to the wrong operand (harmless: expected to be equivalent)", '''
check(True, "")
''')
bug("power-four", "P15", [("coreax/kernels/base.py", "* compute ** max(n - 2, 0)", "* compute ** min(n - 1, 1)" )],
 "the divergence of a kernel to the power two or at least four", "wrong exponent in the mixed term of the divergence", '''
from coreax.kernels import SquaredExponentialKernel
k = SquaredExponentialKernel(0.8) ** 4
x, y = jnp.array([0.3, -0.2]), jnp.array([-0.4, 0.5])
h = jax.jacfwd(jax.grad(lambda a, b: k.compute_elementwise(a, b), 1), 0)(x, y)
check(abs(float(jnp.trace(h)) - float(k.divergence_x_grad_y_elementwise(x, y))) < 1e-4, "div")
''')
bug("pow-gradient-sign", "P15", [("coreax/kernels/base.py", "            self.power\n            * self.base_kernel.grad_y_elementwise(x, y)\n            * self.base_kernel.compute_elementwise(x, y) ** (self.power - 1)", "            self.power\n            * self.base_kernel.grad_y_elementwise(x, y)\n            * jnp.abs(self.base_kernel.compute_elementwise(x, y)) ** (self.power - 1)")],
 "an even power of a kernel taking negative values (linear or polynomial)", "the gradient with respect to y has the wrong sign where the base kernel is negative", '''
from coreax.kernels import LinearKernel
k = LinearKernel() ** 2
x, y = jnp.array([1.0, -2.0]), jnp.array([1.0, 1.0])
g = jax.grad(lambda a, b: k.compute_elementwise(a, b), 1)(x, y)
check(np.allclose(np.asarray(g), np.asarray(k.grad_y_elementwise(x, y)), atol=1e-4), "grad")
''')
bug("sqrt-kernel-dim", "P15", [("coreax/kernels/scalar_valued.py", "2 / (jnp.pi * jnp.square(self.length_scale)), dim / 4", "2 / (jnp.pi * self.length_scale), dim / 4")],
 "a square-root kernel of a length scale other than one", "the square-root kernel's scale is wrong", '''
from coreax.kernels import SquaredExponentialKernel
k = SquaredExponentialKernel(0.5, 2.0); q = k.get_sqrt_kernel(1)
t = np.linspace(-8, 8, 20001)
f = lambda c: float(q.output_scale) * np.exp(-(t - c) ** 2 / (2 * float(q.length_scale) ** 2))
v = (f(0.1) * f(-0.3)).sum() * (t[1] - t[0])
check(abs(v - 2.0 * np.exp(-0.16 / 0.5)) < 1e-3, v)
''')
M = "coreax/metrics.py"
bug("ksd-laplace-len", "P16", [(M, "laplace_correction = _laplace_positive(y.data).sum() / len(y) ** 2", "laplace_correction = _laplace_positive(y.data).sum() / len(x) ** 2")],
 "Laplace-corrected KSD between datasets of different sizes", "the correction is divided by the wrong count", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel, SteinKernel
from coreax.metrics import KSD
k = SteinKernel(SquaredExponentialKernel(1.0), score_function=lambda z: z**3)
x = jr.normal(jr.key(0), (9, 1)); y = jr.normal(jr.key(1), (3, 1))
v = float(KSD(k).compute(Data(x), Data(y), laplace_correct=True)) ** 2
ref = float(k.compute_mean(y, y)) + float((3 * y**2).sum()) / 9
check(abs(v - max(ref, 0)) < 1e-3, (v, ref))
''')
bug("mmd-block-xy", "P16", [(M, "kernel_xy_mean = self.kernel.compute_mean(x, y, block_size=bs_xy, unroll=u_xy)", "kernel_xy_mean = self.kernel.compute_mean(\n            x, y, axis=0, block_size=bs_xy, unroll=u_xy\n        ).mean()")],
 "comparison data with non-uniform weights", "the cross term ignores the weights of the comparison data", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.metrics import MMD
x = jr.normal(jr.key(0), (5, 1)); w = jnp.array([1.0, 5, 2, 1, 1])
check(float(MMD(SquaredExponentialKernel()).compute(Data(x, w), Data(x, w))) < 1e-3, "identical")
''')
bug("qp-iterations", "P17", [("coreax/weights.py", "qp = OSQP(**osqp_kwargs)", 'qp = OSQP(**{"maxiter": 30, **osqp_kwargs})')],
 "a quadratic program the solver needs more than 30 iterations for", "the returned simplex weights are not optimal", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.weights import MMDWeightsOptimiser
bad = 0
for s in range(12):
    k = SquaredExponentialKernel(1.0)
    x = jr.normal(jr.key(s), (20, 2)) * 2; y = x[:6]
    w = np.asarray(MMDWeightsOptimiser(k).solve(Data(x), Data(y)), float)
    G = np.asarray(k.compute(y, y), float); b = np.asarray(k.compute_mean(x, y, axis=0), float)
    g = G @ w - b
    bad += (w @ g - g.min()) > 5e-3
check(bad == 0, bad)
''')
U = "coreax/util.py"
bug("batch-roll", "P18", [(U, "    batch_keys = jr.split(random_key, num_batches)\n    batch_permutation = jax.vmap(jr.permutation, in_axes=(0, None))\n    return batch_permutation(batch_keys, max_index)[:, :batch_size]", "    permutation = jr.permutation(random_key, max_index)\n    batch_roll = jax.vmap(jnp.roll, in_axes=(None, 0))\n    return batch_roll(permutation, jnp.arange(num_batches))[:, :batch_size]")],
 "two batches of the same call compared with each other", "batches are shifts of one permutation: individually uniform but not independent", '''
from coreax.util import sample_batch_indices
same = 0
for s in range(60):
    b = np.asarray(sample_batch_indices(jr.key(s), 12, 3, 2))
    same += len(set(b[0]) & set(b[1])) == 2
check(same < 30, same)
''')
S = "coreax/score_matching.py"
bug("score-single-batch", "P20", [(S, "if original_number_of_dimensions == 1:", "if score_result.shape[0] == 1:")],
 "a batch holding a single point", "the score of a one-row batch loses its batch dimension", '''
from coreax.score_matching import KernelDensityMatching
f = KernelDensityMatching(1.0).match(jr.normal(jr.key(0), (5, 2)))
check(f(jnp.ones((1, 2))).shape == (1, 2), "shape")
''')
bug("approx-rcond", "P21", [("coreax/approximation.py", "jnp.linalg.lstsq(features[train_idx], target)", "jnp.linalg.lstsq(\n        features[train_idx], target, rcond=1e-3\n    )")],
 "kernel columns that are nearly dependent", "small singular values are cut off, so the fit is no longer the least-squares fit", '''
from coreax.kernels import SquaredExponentialKernel
from coreax.approximation import MonteCarloApproximateKernel
x = jnp.array([[0.0], [0.02], [3.0], [3.05], [6.0], [6.02]]); k = SquaredExponentialKernel(1.0)
a = MonteCarloApproximateKernel(k, random_key=jr.key(0), num_kernel_points=6, num_train_points=6)
bad = np.abs(np.asarray(a.gramian_row_mean(x)) - np.asarray(k.gramian_row_mean(x))).max()
check(bad < 1e-4, bad)
''')
bug("eig-rcond-fixed", "P22", [("coreax/least_squares.py", "rcond = machine_precision * num_rows", "rcond = 1e-3")],
 "a system whose eigenvalues spread over more than three orders of magnitude", "small but genuine directions are dropped from the solution", '''
from coreax.least_squares import RandomisedEigendecompositionSolver
A = jnp.diag(jnp.array([4096.0, 64.0, 1.0])); t = jnp.ones((3, 1))
s = RandomisedEigendecompositionSolver(jr.key(0)).solve(A, 0.0, t, jnp.eye(3))
check(abs(float(s[2, 0]) - 1) < 1e-2, s)
''')
bug("lstsq-floor", "P22", [("coreax/least_squares.py", "            array + abs(regularisation_parameter) * identity,\n            target,", "            array + jnp.maximum(abs(regularisation_parameter), 1e-6) * identity,\n            target,")],
 "an unregularised or very weakly regularised system with small entries", "a hidden floor on the regularisation changes the solution", '''
from coreax.least_squares import MinimalEuclideanNormSolver
A = jnp.diag(jnp.array([2.0, 1.0])) * 2.0**-18; t = jnp.ones((2, 1)) * 2.0**-18
s = MinimalEuclideanNormSolver().solve(A, 0.0, t, jnp.eye(2))
check(np.allclose(np.asarray(s)[:, 0], [0.5, 1.0], atol=1e-2), s)
''')
bug("ssm-vector-pairing", "P23", [(S, "self._train_step(state, x[idx, :], random_vectors[idx, :])", "self._train_step(\n                state, x[idx, :], random_vectors[jnp.arange(self.batch_size) % num_points]\n            )")],
 "any batch other than the identity arrangement of rows, observed through the gradient", "rows are paired with other rows' projection vectors", '''
import optax
from coreax.score_matching import SlicedScoreMatching
seen = []
def gen(key, shape, dtype):
    return jnp.broadcast_to(jnp.arange(1.0, shape[0] + 1)[:, None, None], shape)
import coreax.score_matching as sm
orig = sm.SlicedScoreMatching._train_step
class S(SlicedScoreMatching):
    def _train_step(self, state, x, random_vectors):
        seen.append(bool(jnp.all(random_vectors[:, 0, 0] == x[:, 0])))
        return SlicedScoreMatching._train_step(self, state, x, random_vectors)
S(jr.key(0), gen, noise_conditioning=False, num_epochs=2, batch_size=4, hidden_dims=[2], optimiser=optax.sgd(0.1)).match(jnp.arange(1.0, 6.0)[:, None])
check(seen and all(seen), seen)
''')
bug("ssm-noise-power", "P23", [(S, "sigma = self.sigma * self.gamma**i", "sigma = self.sigma * self.gamma ** jnp.maximum(i, 1)")],
 "noise conditioning with a decay other than one", "the first noise level is already decayed", '''
import optax
from coreax.score_matching import SlicedScoreMatching
def gen(key, shape, dtype):
    return jnp.ones(shape)
got = []
def init(p): return ()
def upd(g, s, p=None):
    return jax.tree_util.tree_map(lambda z: z, g), s
def run(nm, gamma):
    m = SlicedScoreMatching(jr.key(0), gen, noise_conditioning=True, num_noise_models=nm, sigma=0.5, gamma=gamma, num_epochs=1, batch_size=3, hidden_dims=[2], optimiser=optax.GradientTransformation(init, upd))
    return np.asarray(m.match(jnp.arange(1.0, 4.0)[:, None])(jnp.array([[0.5]])))
check(np.allclose(run(1, 0.5), run(1, 1.0), atol=1e-5), "first level depends on gamma")
''')
bug("median-diagonal", "P24", [("coreax/kernels/util.py", "square_distances[jnp.triu_indices_from(square_distances, k=1)]", "square_distances[square_distances > 0]")],
 "data with repeated points", "coincident pairs are left out of the median", '''
from coreax.kernels import median_heuristic
x = jnp.array([0.0, 0.0, 0.0, 1.0])
check(abs(float(median_heuristic(x)) - np.sqrt(0.25)) < 1e-6, float(median_heuristic(x)))
''')
bug("delta-loglog", "P24", [("coreax/benchmark_util.py", "    if log_n > 0:\n        log_log_n = jnp.log(log_n)\n        if log_log_n > 0:", "    if log_n > 1:\n        log_log_n = jnp.log(log_n)\n        if log_log_n > 0:")],
 "two data points (log n between zero and one)", "the failure probability of two points is one half instead of 1/(2 log 2)", '''
from coreax.benchmark_util import calculate_delta
check(abs(float(calculate_delta(2)) - 1 / (2 * np.log(2))) < 1e-4, float(calculate_delta(2)))
''')
bug("median-sample", "P24", [("coreax/benchmark_util.py", "num_samples_length_scale = min(num_data_points, 300)", "num_samples_length_scale = min(num_data_points, 30)")],
 "more than thirty data points", "benchmark solvers use a length scale from far fewer points than documented", '''
from coreax import Data
from coreax.benchmark_util import initialise_solvers
from coreax.kernels import median_heuristic
x = jr.normal(jr.key(0), (200, 2)) ** 3
s = initialise_solvers(Data(x), jr.key(0), 1)["Kernel Herding"](5)
check(abs(float(s.kernel.length_scale) - float(median_heuristic(x))) < 1e-4, "length scale")
''')
BUGS = [b for b in BUGS if b["id"] not in ("mean-dtype", "recomb-absolute-rcond", "approx-rcond", "qp-iterations", "recomb-fill", "recomb-colinear-min", "block-min-size", "score-single-batch", "sqrt-kernel-dim", "mmd-block-xy")]
