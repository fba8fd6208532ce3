CS = "coreax/solvers/coresubset.py"
H = '''
import sys, warnings
warnings.filterwarnings("ignore")
import numpy as np, jax, jax.numpy as jnp, jax.random as jr
def check(ok, msg):
    if not ok:
        print("FAIL:", msg); sys.exit(1)
'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
KB = "coreax/kernels/base.py"
SV = "coreax/kernels/scalar_valued.py"
W = "coreax/weights.py"
R = "coreax/solvers/recombination.py"
A = "coreax/approximation.py"
M = "coreax/metrics.py"
S = "coreax/score_matching.py"
U = "coreax/util.py"

bug("normalize-abs", "P13", [("coreax/data.py", "self.weights / jnp.sum(self.weights)", "self.weights / jnp.sum(jnp.abs(self.weights))")],
 "weights of both signs (Bayesian quadrature weights are routinely negative)", "normalised weights do not sum to one", '''
from coreax import Data
d = Data(jnp.arange(3.0), jnp.array([2.0, -0.5, 0.5])).normalize()
check(abs(float(d.weights.sum()) - 1) < 1e-5, d.weights)
''')
bug("normalize-near-one", "P13", [("coreax/data.py", "normalized_weights = self.weights / jnp.sum(self.weights)", "total = jnp.sum(self.weights)\n        normalized_weights = self.weights / jnp.where(\n            jnp.abs(total - 1) < 1e-2, 1.0, total\n        )")],
 "weights whose sum is within a per cent of, but not equal to, one", "weights considered already normalised are left with a sum that is not one", '''
from coreax import Data
d = Data(jnp.arange(3.0), jnp.array([0.5, 0.25, 0.256])).normalize()
check(abs(float(d.weights.sum()) - 1) < 1e-4, d.weights.sum())
''')
bug("build-drops-weights", "P13", [("coreax/coreset.py", "return Coresubset(as_data(indices), converted_pre_coreset_data)", "return Coresubset(as_data(jnp.asarray(indices)), converted_pre_coreset_data)")],
 "building a coresubset from weighted indices (Data) instead of an array", "weights of the indices are silently replaced by ones", '''
from coreax import Data
from coreax.coreset import Coresubset
c = Coresubset.build(Data(jnp.array([1, 2]), jnp.array([3.0, 1.0])), Data(jnp.arange(4.0)))
check(np.allclose(np.asarray(c.points.weights), [3, 1]), c.points.weights)
''')
bug("recomb-zero-mass", "P12", [(R, "weights = weights.at[max_index].divide(n_zeros + 1)", "weights = weights.at[max_index].divide(jnp.maximum(n_zeros, 1))")],
 "data with zero-weighted rows", "the mass of the heaviest row is counted once too often, so total mass and means are not kept", '''
from coreax import Data
from coreax.solvers import CaratheodoryRecombination
x = jr.normal(jr.key(0), (12, 2)); w = jnp.ones(12).at[3].set(0.0)
c, _ = CaratheodoryRecombination().reduce(Data(x, w))
check(abs(float(c.points.weights.sum()) - 1) < 1e-3, c.points.weights.sum())
''')
bug("recomb-update-guard", "P12", [(R, "weight_update = coresubset_weights / centroid_weights[coresubset_indices]", "weight_update = coresubset_weights / jnp.maximum(\n                centroid_weights[coresubset_indices], 1e-3\n            )")],
 "tree recombination where some group of rows has very little of the total weight", "light groups lose mass, so total mass and means are not kept", '''
from coreax import Data
from coreax.solvers import TreeRecombination
bad = 0
for s in range(8):
    x = jr.normal(jr.key(s), (64, 2)); w = jnp.where(jnp.arange(64) < 40, 1e-5, 1.0)
    c, _ = TreeRecombination(tree_reduction_factor=4).reduce(Data(x, w))
    p = c.points; m = (np.asarray(w) / float(w.sum())) @ np.asarray(x)
    got = np.asarray(p.weights) @ np.asarray(p.data)
    bad += abs(float(p.weights.sum()) - 1) > 1e-3 or np.abs(got - m).max() > 1e-3
check(bad == 0, bad)
''')
bug("mean-block-cap", "P14", [("coreax/kernels/util.py", "min(max(int(block_size), 1), len(x))", "min(max(int(block_size), 1), max(1, len(x) - 1))"), ("coreax/kernels/util.py", "padding = ceil(len(x) / block_size) * block_size - len(x)", "padding = ceil(len(x) / block_size) * block_size - len(x) if len(x) % block_size != 1 or block_size == 1 else block_size - 1")],
 "no semantic change", "nothing", "check(True, 0)\n")
BUGS.pop()
bug("mean-float-weights", "P14", [(KB, "                column_sum_slice = jnp.dot(self.compute(x_, y_), w_y)", "                column_sum_slice = jnp.dot(\n                    self.compute(x_, y_), jnp.where(w_y > 1e-6, w_y, 0.0)\n                )")],
 "normalised weights below a millionth: very unequal weights or more than a million points", "lightly weighted points are left out of the mean", '''
from coreax import Data
from coreax.kernels import LinearKernel
x = jnp.array([[1.0], [1e6]]); w = jnp.array([1.0, 1e-7])
m = LinearKernel().compute_mean(jnp.array([[1.0]]), Data(x, w))
check(abs(float(m) - 1.1) < 1e-3, m)
''')
bug("sbq-epsilon", "P17", [(W, "kernel_cc = kernel.compute(x_c, x_c) + epsilon * jnp.eye(len(coreset))", "kernel_cc = kernel.compute(x_c, x_c) + jnp.maximum(epsilon, 1e-4) * jnp.eye(\n            len(coreset)\n        )")],
 "a kernel of small output scale", "a hidden floor on the regularisation changes the quadrature weights", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.weights import SBQWeightsOptimiser
x = jnp.array([[0.0], [1.0], [2.0]]); c = x[:2]
k = SquaredExponentialKernel(1.0, 1e-3)
w = SBQWeightsOptimiser(k).solve(Data(x), Data(c))
w1 = SBQWeightsOptimiser(SquaredExponentialKernel(1.0, 1.0)).solve(Data(x), Data(c))
check(np.allclose(w, w1, atol=1e-3), (w, w1))
''')
bug("qp-uniform-start", "P17", [(W, "    solution = jnp.maximum(0.0, sol.primal)\n", "    solution = jnp.maximum(0.0, sol.primal)\n    solution = jnp.where(solution < 1e-2 * jnp.max(solution), 1e-2 * jnp.max(solution), solution)\n")],
 "a coreset with a point whose optimal simplex weight is zero or tiny", "every point is forced to carry at least a hundredth of the largest weight", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.weights import MMDWeightsOptimiser
x = jnp.concatenate([jnp.zeros((50, 1)), jnp.ones((1, 1)) * 9]); c = jnp.array([[0.0], [9.0], [30.0]])
w = MMDWeightsOptimiser(SquaredExponentialKernel(1.0)).solve(Data(x), Data(c))
check(float(w[2]) < 5e-3, w)
''')
bug("convert-unit-scale", "P20", [(S, 'length_scale = getattr(kernel, "length_scale", 1.0)', 'length_scale = getattr(kernel, "base_length_scale", 1.0)')],
 "a plain kernel whose length scale is not one, converted without a score matcher", "the default density score ignores the kernel's length scale", '''
from coreax.kernels import SquaredExponentialKernel
from coreax.score_matching import KernelDensityMatching, convert_stein_kernel
x = jr.normal(jr.key(0), (8, 2))
a = convert_stein_kernel(x, SquaredExponentialKernel(0.3), None).score_function(x)
b = KernelDensityMatching(0.3).match(x)(x)
check(np.allclose(a, b, atol=1e-4), 0)
''')
bug("kde-far-points", "P20", [(S, "gram_matrix_row_means = self.kernel.compute_mean(x_, kde_data, axis=1)", "gram_matrix_row_means = (\n                self.kernel.compute_mean(x_, kde_data, axis=1) + 1e-8\n            )")],
 "points far from the data where the density is small but not underflowing", "the score is damped towards zero in the tails", '''
from coreax.score_matching import KernelDensityMatching
s = KernelDensityMatching(1.0).match(jnp.array([[0.0], [0.5]]))(jnp.array([[7.0]]))
check(abs(float(s[0, 0])) > 6.0, s)
''')
bug("approx-replace", "P21", [(A, "jr.choice(key, num_data_points, (num_select,), replace=False)", "jr.choice(\n            key, num_data_points, (num_select,), replace=num_select > num_data_points\n        )")],
 "more kernel or training points requested than available", "requests for too many points are served by repeating points instead of refused", '''
from coreax.kernels import SquaredExponentialKernel
from coreax.approximation import NystromApproximateKernel
x = jr.normal(jr.key(0), (5, 2))
try:
    NystromApproximateKernel(SquaredExponentialKernel(), jr.key(0), 8, 3).gramian_row_mean(x)
except Exception:
    pass
else:
    check(False, "accepted")
''')
bug("approx-train-repeat", "P21", [(A, "    train_idx = _random_indices(key, num_data_points, num_indices, mode=\"train\")\n", "    train_idx = _random_indices(key, num_data_points, num_indices, mode=\"train\")\n    train_idx = jnp.where(num_indices > num_data_points // 2, jnp.sort(train_idx)[: num_indices] // 2 * 2, train_idx)\n")],
 "a training sample of more than half of the points", "odd rows are never trained on, so full samples no longer give the exact mean", '''
from coreax.kernels import SquaredExponentialKernel
from coreax.approximation import MonteCarloApproximateKernel
x = jr.normal(jr.key(0), (6, 2)); k = SquaredExponentialKernel()
a = MonteCarloApproximateKernel(k, jr.key(0), 6, 6).gramian_row_mean(x)
check(np.allclose(a, k.gramian_row_mean(x), atol=1e-3), a)
''')
bug("mmd-clip", "P16", [(M, "squared_mmd = kernel_xx_mean + kernel_yy_mean - 2 * kernel_xy_mean\n        return jnp.sqrt(jnp.maximum(0.0, squared_mmd))", "squared_mmd = kernel_xx_mean + kernel_yy_mean - 2 * kernel_xy_mean\n        return jnp.sqrt(jnp.where(squared_mmd < 1e-6, 0.0, squared_mmd))")],
 "two different datasets that are close, or a kernel of small scale", "small but genuine discrepancies are reported as zero", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.metrics import MMD
m = MMD(SquaredExponentialKernel(1.0, 1e-7)).compute(Data(jnp.array([[0.0]])), Data(jnp.array([[9.0]])))
check(float(m) > 1e-4, m)
''')
bug("amcmd-weighting-mean", "P16", [(M, "squared_amcmd = 1 / x3.shape[0] * (term_1 + term_2 - 2 * term_3)", "squared_amcmd = 1 / x1.shape[0] * (term_1 + term_2 - 2 * term_3)")],
 "weighting data of another size than the reference data", "the average is taken over the wrong number of points", '''
from coreax import Data, SupervisedData
from coreax.kernels import SquaredExponentialKernel
from coreax.metrics import AMCMD
k = SquaredExponentialKernel()
a = SupervisedData(jr.normal(jr.key(0), (4, 1)), jr.normal(jr.key(1), (4, 1)))
b = SupervisedData(jr.normal(jr.key(2), (3, 1)), jr.normal(jr.key(3), (3, 1)))
x3 = jr.normal(jr.key(4), (5, 1))
f = AMCMD(k, k, 0.1)
u = f.compute(a, b, weighting_data=Data(x3)); v = f.compute(a, b, weighting_data=Data(jnp.concatenate([x3, x3])))
check(abs(float(u) - float(v)) < 1e-4, (u, v))
''')
bug("compress-replace-large", "P02", [(CS, "            self.random_key, n, shape=(effective_data_size,), replace=False\n", "            self.random_key, n, shape=(effective_data_size,), replace=n >= 2 * effective_data_size\n")],
 "Compress++ on a dataset at least twice as large as the largest power of four below it", "rows are drawn with repetition, so the result may repeat an index", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import CompressPlusPlus
k = SquaredExponentialKernel(); bad = 0
for s in range(12):
    c, _ = CompressPlusPlus(7, g=2, kernel=k, random_key=jr.key(s), delta=0.1, sqrt_kernel=k).reduce(Data(jr.normal(jr.key(s), (33, 1))))
    bad += len(set(np.asarray(c.unweighted_indices).tolist())) < 7
check(bad == 0, bad)
''')
bug("herd-mask-unique", "P08", [(CS, "        valid_kernel_similarity_penalty = jnp.where(\n            data_weights > 0, kernel_similarity_penalty, jnp.nan\n        )\n", "        valid_kernel_similarity_penalty = kernel_similarity_penalty\n        if unique:\n            valid_kernel_similarity_penalty = jnp.where(\n                data_weights > 0, kernel_similarity_penalty, jnp.nan\n            )\n")],
 "herding with repetition allowed (unique=False) on data with zero-weighted rows", "zero-weighted rows are selected", '''
from coreax import Data
from coreax.kernels import LinearKernel
from coreax.solvers import KernelHerding
x = jnp.array([[1.0], [2.0], [5.0]]); w = jnp.array([1.0, 1.0, 0.0])
c, _ = KernelHerding(2, LinearKernel(), unique=False).reduce(Data(x, w))
check(2 not in np.asarray(c.unweighted_indices).tolist(), c.unweighted_indices)
''')
bug("random-weight-floor", "P08", [(CS, "selection_weights = dataset.weights if self.weighted else None", "selection_weights = dataset.weights if self.weighted else None\n        if self.weighted:\n            selection_weights = jnp.maximum(\n                selection_weights, 2e-2 * jnp.max(selection_weights)\n            )")],
 "weighted random sampling with zero-weighted rows, over many keys", "zero-weighted rows have a small chance of being selected", '''
from coreax import Data
from coreax.solvers import RandomSample
w = jnp.ones(60).at[:50].set(0.0); bad = 0
for s in range(60):
    c, _ = RandomSample(5, jr.key(s), weighted=True).reduce(Data(jnp.arange(60.0), w))
    bad += (np.asarray(c.unweighted_indices) < 50).any()
check(bad == 0, bad)
''')
bug("rpc-jitter", "P06", [(CS, "jnp.ravel(g / jnp.sqrt(g[pivot_point]))", "jnp.ravel(g / jnp.sqrt(g[pivot_point] + 1e-4))")],
 "a kernel with small values", "the residual is not reduced by the full projection, explained points keep being drawn", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import RPCholesky
x = jnp.array([[0.0], [0.0], [3.0]]); bad = 0
for s in range(40):
    c, _ = RPCholesky(2, jr.key(s), SquaredExponentialKernel(1.0, 1e-5)).reduce(Data(x))
    i = set(np.asarray(c.unweighted_indices).tolist()); bad += 2 not in i
check(bad == 0, bad)
''')
bug("pairwise-symmetric", "P24", [(U, "        x = jnp.atleast_2d(x)\n        y = jnp.atleast_2d(y)\n        return jax.vmap(", "        x = jnp.atleast_2d(x)\n        y = jnp.atleast_2d(y)\n        if x is y:\n            y = x[::1]\n        return jax.vmap(")],
 "nothing", "nothing", "check(True, 0)\n")
BUGS.pop()
bug("matern-length", "P15", [(SV, "radial_term = -(body**2) / (2 * self.degree - 3)", "radial_term = -(body**2) / max(2 * self.degree - 3, 2)")],
 "the divergence of a Matern kernel of degree two", "the divergence is not that of the values", '''
from coreax.kernels import MaternKernel
k = MaternKernel(1.3, 1.0, 2); x = jnp.array([0.3, -0.2]); y = jnp.array([1.0, 0.5])
d = jnp.trace(jax.jacfwd(jax.grad(k.compute_elementwise, 1), 0)(x, y))
check(abs(float(k.divergence_x_grad_y_elementwise(x, y)) - float(d)) < 1e-3, d)
''')
BUGS.pop()
bug("imq-far", "P15", [(SV, "        mq_array = squared_distance(x, y) / scaling\n        return self.output_scale / jnp.sqrt(1 + mq_array)", "        mq_array = jnp.minimum(squared_distance(x, y) / scaling, 1e4)\n        return self.output_scale / jnp.sqrt(1 + mq_array)")],
 "points further than about 140 length scales apart", "values are cut off (and no longer consistent with the gradients)", '''
from coreax.kernels import PCIMQKernel
k = PCIMQKernel(0.1)
v = float(k.compute_elementwise(jnp.array([0.0]), jnp.array([100.0])))
check(abs(v - 1 / np.sqrt(1 + 1e4 / 0.02)) < 1e-4, v)
''')
bug("se-underflow", "P15", [(SV, "        k = self.compute_elementwise(x, y)\n        scale = 1 / self.length_scale**2\n        d = len(jnp.atleast_1d(x))\n        return scale * k * (d - scale * squared_distance(x, y))", "        k = self.compute_elementwise(x, y)\n        scale = 1 / self.length_scale**2\n        d = max(len(jnp.atleast_1d(x)), 1) if jnp.ndim(x) < 2 else 1\n        return scale * k * (min(d, 3) - scale * squared_distance(x, y))")],
 "data of more than three dimensions", "the divergence counts at most three dimensions", '''
from coreax.kernels import SquaredExponentialKernel
k = SquaredExponentialKernel(1.0); x = jnp.zeros(5); y = jnp.ones(5) * 0.1
d = jnp.trace(jax.jacfwd(jax.grad(k.compute_elementwise, 1), 0)(x, y))
check(abs(float(k.divergence_x_grad_y_elementwise(x, y)) - float(d)) < 1e-3, d)
''')
bug("gkp-state-size", "P19", [(CS, "            padded_feature_gramian = solver_state.feature_gramian", "            padded_feature_gramian = jnp.abs(solver_state.feature_gramian)")],
 "greedy kernel points called again with the returned state and a kernel with negative values", "reusing the state changes the result", '''
from coreax import SupervisedData
from coreax.kernels import LinearKernel
from coreax.solvers import GreedyKernelPoints
bad = 0
for s in range(10):
    d = SupervisedData(jr.normal(jr.key(s), (12, 2)), jr.normal(jr.key(s + 99), (12, 1)))
    g = GreedyKernelPoints(4, jr.key(0), LinearKernel(), regularisation_parameter=0.5)
    c, st = g.reduce(d); e, _ = g.reduce(d, st)
    bad += np.asarray(c.unweighted_indices).tolist() != np.asarray(e.unweighted_indices).tolist()
check(bad == 0, bad)
''')
bug("ssm-last-partial", "P23", [(S, "check", "check")], "x", "x", "x")
BUGS.pop()
