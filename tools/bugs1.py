CS = "coreax/solvers/coresubset.py"
H = '''
import sys, warnings
warnings.filterwarnings("ignore")
import numpy as np, jax, jax.numpy as jnp, jax.random as jr
def check(ok, msg):
    if not ok:
        print("FAIL:", msg); sys.exit(1)
'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=H + demo))

bug("index-int16", "P01", [(CS, "jnp.full((coreset_size,), fill_value, dtype=jnp.int32), 0", "jnp.full((coreset_size,), fill_value, dtype=jnp.int16), 0")],
 "a dataset with more than 32767 rows whose selected row lies beyond that", "indices stored in 16 bits wrap around: reported indices are negative / wrong rows", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import RPCholesky
n = 40000
x = jnp.zeros((n, 1)).at[39999].set(50.0)
c, _ = RPCholesky(2, random_key=jr.key(0), kernel=SquaredExponentialKernel()).reduce(Data(x))
i = sorted(np.asarray(c.unweighted_indices).tolist())
check(i[-1] == 39999 and i[0] >= 0, i)
''')
bug("rpc-fallback-mask", "P02", [(CS, "jnp.ones(num_data_points, dtype=bool).at[coreset_indices].set(False)", "jnp.ones(num_data_points, dtype=bool).at[coreset_indices[i - 1]].set(False)")],
 "a Gram matrix whose rank is exhausted at least two draws before the requested size", "the uniform fallback only excludes the previously drawn point, so unique results repeat indices", '''
from coreax import Data
from coreax.kernels import LinearKernel
from coreax.solvers import RPCholesky
bad = 0
for s in range(20):
    x = jnp.arange(1.0, 7.0)[:, None]
    c, _ = RPCholesky(6, random_key=jr.key(s), kernel=LinearKernel()).reduce(Data(x))
    bad += len(set(np.asarray(c.unweighted_indices).tolist())) != 6
check(bad == 0, bad)
''')
bug("herd-size-position", "P07", [(CS, "coreset_size = jnp.where(coreset_weights[i] > 0, coreset_size, coreset_size + 1)", "coreset_size = jnp.where(coreset_weights[i] > 0, coreset_size, i + 1)")],
 "refining a coreset whose zero-weighted (unfilled) positions come before filled ones", "the number of members used in the herding criterion is wrong", '''
from coreax import Data, Coresubset
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
k = SquaredExponentialKernel(1.0)
bad = 0
for s in range(20):
    x = jr.normal(jr.key(s), (9, 1)) * 1.5
    G = np.asarray(k.compute(x, x), dtype=np.float64); mu = G.mean(1)
    c0 = Coresubset(Data(jnp.array([0, 1, 2, 3]), jnp.array([0.0, 1, 1, 1])), Data(x))
    c, _ = KernelHerding(4, k).refine(c0)
    first = int(c.unweighted_indices[0])
    crit = mu - (G[:, 1] + G[:, 2] + G[:, 3]) / 4
    crit[[1, 2, 3]] = -np.inf
    bad += crit[first] < crit.max() - 1e-5
check(bad == 0, bad)
''')
bug("laplace-clip-sum", "P04", [(CS, "return jnp.clip(jnp.diag(hessian), min=0.0).sum()", "return jnp.clip(jnp.diag(hessian).sum(), min=0.0)")],
 "a score in two or more dimensions whose second derivatives have both signs at some point", "the positive Laplacian correction clips the sum instead of each term", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel, SteinKernel
from coreax.solvers import SteinThinning
score = lambda z: jnp.where(z[..., :1] > 0, jnp.stack([z[..., 0] * 3.0, -z[..., 1] * 4.0], -1), jnp.array([1.0, 0.0]))
base = SquaredExponentialKernel(1.0)
k = SteinKernel(base, score)
bad = 0
for s in range(25):
    x = jr.normal(jr.key(s), (8, 2)) * 0.3
    c, _ = SteinThinning(1, k, regularise=True, regulariser_lambda=0.0).reduce(Data(x))
    d = np.array([float(k.compute_elementwise(p, p)) for p in x])
    lap = np.array([np.clip(np.diag(np.asarray(jax.jacfwd(score)(p))), 0, None).sum() for p in x])
    crit = d + lap
    bad += crit[int(c.unweighted_indices[0])] > crit.min() + 1e-4
check(bad == 0, bad)
''')
bug("gkp-later-members", "P07", [(CS, "            coreset_indices.at[i].set(-1),\n        )", "            jnp.where(jnp.arange(len(coreset_indices)) < i, coreset_indices, -1),\n        )")],
 "refining (not reducing) with unique points when the best substitute is a later member", "a position may be given the point another, later position still holds", '''
from coreax import SupervisedData, Coresubset, Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import GreedyKernelPoints
k = SquaredExponentialKernel(1.0)
lam = 0.05
def loss(G, y, S):
    S = list(S); a = np.linalg.lstsq(G[np.ix_(S, S)] + lam * np.eye(len(S)), y[S], rcond=None)[0]
    return float(((y - G[:, S] @ a) ** 2).sum())
bad = 0
for s in range(40):
    x = jr.normal(jr.key(s), (7, 1)) * 2; y = jr.normal(jr.key(s + 100), (7, 1))
    G = np.asarray(k.compute(x, x), np.float64); yy = np.asarray(y, np.float64)[:, 0]
    c0 = Coresubset(Data(jnp.array([0, 1, 2])), SupervisedData(x, y))
    c, _ = GreedyKernelPoints(3, random_key=jr.key(0), feature_kernel=k, regularisation_parameter=lam).refine(c0)
    S = [0, 1, 2]
    for i in range(3):
        cand = [j for j in range(7) if j not in S or j == S[i]]
        S[i] = min(cand, key=lambda j: loss(G, yy, S[:i] + [j] + S[i + 1:]))
    got = np.asarray(c.unweighted_indices).tolist()
    bad += loss(G, yy, got) > loss(G, yy, S) + 1e-3
check(bad == 0, bad)
''')
bug("rpc-small-residual", "P06", [(CS, "jnp.all(residual_diagonal == 0),", "jnp.sum(residual_diagonal) < 1e-3,")],
 "a kernel with small values (output scale far below one)", "pivots are drawn uniformly although unexplained residual remains", '''
from coreax import Data
from coreax.kernels import LinearKernel
from coreax.solvers import RPCholesky
x = jnp.zeros((10, 1)).at[7].set(0.01)
for s in range(12):
    c, _ = RPCholesky(1, random_key=jr.key(s), kernel=LinearKernel()).reduce(Data(x))
    check(int(c.unweighted_indices[0]) == 7, int(c.unweighted_indices[0]))
''')
bug("refine-oversize", "P07", [(CS, "init_coreset_size = jnp.sum(jnp.greater(coreset_weights, 0))", "init_coreset_size = jnp.minimum(\n        jnp.sum(jnp.greater(coreset_weights, 0)), output_size\n    )")],
 "refining a coreset larger than the requested size", "the penalty of the surplus members is scaled wrongly while refining", '''
from coreax import Data, Coresubset
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
k = SquaredExponentialKernel(1.0)
bad = 0
for s in range(30):
    x = jr.normal(jr.key(s), (9, 1)) * 1.5
    G = np.asarray(k.compute(x, x), np.float64); mu = G.mean(1)
    c0 = Coresubset(Data(jnp.arange(5)), Data(x))
    c, _ = KernelHerding(2, k).refine(c0)
    S = list(range(5)); ok = True
    for i in range(2):
        oth = S[:i] + S[i + 1:]
        crit = mu - G[:, oth].sum(1) / 5; crit[oth] = -np.inf
        S[i] = int(c.unweighted_indices[i])
        ok &= crit[S[i]] >= crit.max() - 1e-5
    bad += not ok
check(bad == 0, bad)
''')
bug("stein-kde-unweighted", "P08", [(CS, "kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)", "kde = jsp.stats.gaussian_kde(x.T, bw_method=self.kde_bw_method)")],
 "zero-weighted (padding) rows together with the entropic regularisation", "zero-weighted rows shift the density estimate and so the selected points", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel, SteinKernel
from coreax.solvers import SteinThinning
k = SteinKernel(SquaredExponentialKernel(1.0), lambda z: -0.05 * z)
bad = 0
for s in range(8):
    x = jr.normal(jr.key(s), (10, 2))
    pad = jnp.vstack([x, 3.0 * jnp.ones((10, 2)) + 0.1 * jr.normal(jr.key(s + 50), (10, 2))])
    w = jnp.hstack([jnp.ones(10), jnp.zeros(10)])
    sol = SteinThinning(3, k, regularise=True, regulariser_lambda=5.0)
    a, _ = sol.reduce(Data(x)); b, _ = sol.reduce(Data(pad, w))
    bad += np.asarray(a.unweighted_indices).tolist() != np.asarray(b.unweighted_indices).tolist()
check(bad == 0, bad)
''')
bug("mapreduce-level-order", "P09", [("coreax/solvers/composite.py", "final_indices = _indices[concatenated_indices]", "final_indices = _indices[jnp.sort(concatenated_indices)]")],
 "three or more levels (the intermediate coreset has to be partitioned again)", "original indices are attached to the wrong survivors from the second level on", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding, MapReduce
class Spy(KernelHerding):
    def reduce(self, dataset, solver_state=None):
        c, s = super().reduce(dataset, solver_state)
        if not isinstance(dataset.data, jax.core.Tracer):
            SEEN.append(np.asarray(c.points.data))
        return c, s
bad = 0
for s in range(4):
    SEEN = []
    x = jr.normal(jr.key(s), (96, 2)) * 3
    c, _ = MapReduce(Spy(3, SquaredExponentialKernel(1.0)), leaf_size=8).reduce(Data(x))
    bad += not np.allclose(np.asarray(c.points.data), SEEN[-1])
check(bad == 0, bad)
''')
bug("kt-choose-unweighted", "P10", [(CS, "lambda c: mmd.compute(c, points))(candidate_coresets_jax)", "lambda c: mmd.compute(c, points.data))(\n            candidate_coresets_jax\n        )")],
 "a dataset with non-uniform weights", "the candidate with least discrepancy to the unweighted data is kept", '''
from coreax import Data, Coresubset
from coreax.kernels import SquaredExponentialKernel
from coreax.metrics import MMD
from coreax.solvers import KernelThinning
k = SquaredExponentialKernel(1.0)
sol = KernelThinning(2, kernel=k, random_key=jr.key(0), delta=0.1, sqrt_kernel=k)
bad = 0
for s in range(10):
    x = jr.normal(jr.key(s), (8, 1)) * 2
    d = Data(x, jnp.array([9.0, 9, 0.1, 0.1, 0.1, 0.1, 0.1, 0.1]))
    cs = [Coresubset(Data(jnp.array(p)), d) for p in ([0, 1], [2, 3], [4, 5], [6, 7])]
    m = [float(MMD(k).compute(Data(c.points.data), d)) for c in cs]
    i = np.ravel(np.asarray(sol.kt_choose(cs, d))).tolist()
    bad += m[i[0] // 2] > min(m) + 1e-5
check(bad == 0, bad)
''')
bug("compress-boundary", "P11", [(CS, "if not self.coreset_size <= 2**self.g * math.sqrt(effective_data_size):", "if not self.coreset_size < 2**self.g * math.sqrt(effective_data_size):")],
 "a coreset size equal to the largest feasible one", "a feasible setting is refused", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import CompressPlusPlus
k = SquaredExponentialKernel(1.0)
c, _ = CompressPlusPlus(8, g=1, kernel=k, random_key=jr.key(0), delta=0.1, sqrt_kernel=k).reduce(Data(jr.normal(jr.key(1), (17, 2))))
check(len(c) == 8, len(c))
''')
bug("tree-depth-floor", "P12", [("coreax/solvers/recombination.py", "math.ceil(math.log(n / m, tree_reduction_factor))", "math.ceil(math.log(n // m, tree_reduction_factor))")],
 "a node count slightly above a power of the reduction factor times the number of test functions", "the tree is one level too shallow", '''
from coreax import Data
from coreax.solvers import TreeRecombination
x = jr.normal(jr.key(0), (13, 2))
try:
    c, _ = TreeRecombination().reduce(Data(x))
except Exception as e:
    check(False, repr(e))
w = np.asarray(c.points.weights)
check(abs(w.sum() - 1) < 1e-4 and (w > 0).sum() <= 3 and np.allclose(w @ np.asarray(c.points.data), np.asarray(x).mean(0), atol=1e-4), w)
''')
bug("points-weight-product", "P13", [("coreax/coreset.py", "return eqx.tree_at(lambda x: x.weights, coreset_data, self._indices.weights)", "weights = coreset_data.weights * self._indices.weights\n        return eqx.tree_at(lambda x: x.weights, coreset_data, weights)")],
 "a coreset of non-uniformly weighted data", "materialised points carry the product of data and coreset weights instead of the coreset's", '''
from coreax import Data, Coresubset
d = Data(jnp.arange(5.0), jnp.array([1.0, 2, 3, 4, 5]))
c = Coresubset(Data(jnp.array([4, 1]), jnp.array([0.5, 0.25])), d)
check(np.asarray(c.points.weights).tolist() == [0.5, 0.25], c.points.weights)
''')
bug("rq-divergence-weighting", "P15", [("coreax/kernels/scalar_valued.py", "second_term = -(factor * power * sq_dist / div) * body ** -(power + 1)", "second_term = -(factor * power * sq_dist / self.length_scale**2) * (\n            body ** -(power + 1)\n        )")],
 "a rational quadratic kernel with relative weighting other than one", "the mixed divergence is not that of the kernel's values", '''
from coreax.kernels import RationalQuadraticKernel
k = RationalQuadraticKernel(1.3, 0.7, 2.5)
x, y = jnp.array([0.3, -1.0]), jnp.array([1.1, 0.4])
t = jnp.trace(jax.jacfwd(jax.grad(k.compute_elementwise, 1), 0)(x, y))
check(abs(float(t) - float(k.divergence_x_grad_y_elementwise(x, y))) < 1e-4, t)
''')
bug("amcmd-count", "P16", [("coreax/metrics.py", "1 / x3.shape[0] * (term_1", "1 / x1.shape[0] * (term_1")],
 "weighting data of a different size than the reference data", "the average is divided by the wrong count", '''
from coreax import SupervisedData, Data
from coreax.kernels import LinearKernel
from coreax.metrics import AMCMD
k = LinearKernel()
m = AMCMD(k, k, 1.0)
a = SupervisedData(jnp.array([[1.0], [2.0]]), jnp.array([[1.0], [1.0]])); b = SupervisedData(jnp.array([[1.0]]), jnp.array([[3.0]]))
w = jnp.array([[1.0], [2.0], [3.0]])
v1 = float(m.compute(a, b, weighting_data=Data(w))); v2 = float(m.compute(a, b, weighting_data=Data(jnp.vstack([w, w]))))
check(abs(v1 - v2) < 1e-5, (v1, v2))
''')
bug("qp-sparsify", "P17", [("coreax/weights.py", "solution = jnp.maximum(0.0, sol.primal)", "solution = jnp.where(sol.primal > 0.02, sol.primal, 0.0)")],
 "an optimal solution with some small positive weight", "small optimal weights are cut to zero, so the weights are not optimal", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.weights import MMDWeightsOptimiser
k = SquaredExponentialKernel(1.0)
x = jnp.concatenate([jnp.zeros(197), jnp.full(3, 30.0)])[:, None]
w = np.asarray(MMDWeightsOptimiser(k).solve(Data(x), Data(jnp.array([[0.0], [30.0]]))))
check(abs(w[1] - 0.015) < 2e-3, w)
''')
bug("weighted-replacement", "P18", [(CS, "selection_weights = dataset.weights if self.weighted else None", "selection_weights = dataset.weights if self.weighted and self.unique else None")],
 "weighted sampling with replacement", "the data weights are ignored", '''
from coreax import Data
from coreax.solvers import RandomSample
d = Data(jnp.arange(4.0), jnp.array([0.0, 0.0, 1.0, 0.0]))
c, _ = RandomSample(4, random_key=jr.key(0), weighted=True, unique=False).reduce(d)
check(set(np.asarray(c.unweighted_indices).tolist()) == {2}, c.unweighted_indices)
''')
bug("row-mean-cache", "P19", [(CS, '''            gramian_row_mean = self.kernel.gramian_row_mean(x, block_size=bs, unroll=un)
        else:
            gramian_row_mean = solver_state.gramian_row_mean

        def selection_function(
            i: int,
            kernel_similarity_penalty: Shaped[Array, " n"],''', '''            cache_key = (id(x.data), type(self.kernel))
            if isinstance(x.data, jax.core.Tracer):
                gramian_row_mean = self.kernel.gramian_row_mean(
                    x, block_size=bs, unroll=un
                )
            elif cache_key in _ROW_MEANS and _ROW_MEANS[cache_key][0] is x.data:
                gramian_row_mean = _ROW_MEANS[cache_key][1]
            else:
                gramian_row_mean = self.kernel.gramian_row_mean(
                    x, block_size=bs, unroll=un
                )
                _ROW_MEANS[cache_key] = (x.data, gramian_row_mean)
        else:
            gramian_row_mean = solver_state.gramian_row_mean

        def selection_function(
            i: int,
            kernel_similarity_penalty: Shaped[Array, " n"],'''), (CS, '''class HerdingState(eqx.Module):
    """''', '''_ROW_MEANS: dict = {}


class HerdingState(eqx.Module):
    """''')],
 "two uncompiled calls on the same data array with kernels of the same class but other parameters (or other data weights)", "the second call reuses the first call's cached row mean", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
d = Data(jr.normal(jr.key(0), (12, 1)))
fresh = KernelHerding(4, SquaredExponentialKernel(0.3)).reduce(Data(d.data + 0.0))[1].gramian_row_mean
KernelHerding(4, SquaredExponentialKernel(3.0)).reduce(d)
again = KernelHerding(4, SquaredExponentialKernel(0.3)).reduce(d)[1].gramian_row_mean
check(np.allclose(fresh, again, atol=1e-5), "stale")
''')
bug("kde-floor", "P20", [("coreax/score_matching.py", "score_result = gradients / gram_matrix_row_means[:, None]", "score_result = gradients / jnp.maximum(gram_matrix_row_means, 1e-6)[:, None]")],
 "a point far from the data (density below 1e-6 but not underflowing)", "the score collapses to zero in the tails", '''
from coreax.score_matching import KernelDensityMatching
s = KernelDensityMatching(1.0).match(jnp.zeros((3, 1)))
v = float(np.ravel(s(jnp.array([[6.0]])))[0])
check(abs(v + 6.0) < 1e-3, v)
''')
bug("annchor-sum", "P21", [("coreax/approximation.py", "max_entry = _features.max(axis=1).argmin()", "max_entry = _features.sum(axis=1).argmin()")],
 "three or more kernel points", "anchors are not the points least similar to all anchors so far", '''
from coreax.approximation import ANNchorApproximateKernel
from coreax.kernels import SquaredExponentialKernel
k = SquaredExponentialKernel(1.0)
bad = 0
for s in range(10):
    x = jr.uniform(jr.key(s), (9, 1)) * 5
    a = ANNchorApproximateKernel(k, random_key=jr.key(0), num_kernel_points=4, num_train_points=9)
    G = np.asarray(k.compute(x, x), np.float64)
    S = [0]
    while len(S) < 4: S.append(int(G[:, S].max(1).argmin()))
    F = G[:, S]; t = G.mean(0)
    fit = F @ np.linalg.lstsq(F, t, rcond=None)[0]
    bad += np.abs(fit - np.asarray(a.gramian_row_mean(x))).max() > 1e-3
check(bad == 0, bad)
''')
bug("eig-negative-lambda", "P22", [("coreax/least_squares.py", "array=array + abs(regularisation_parameter) * identity,", "array=array + regularisation_parameter * identity,")],
 "the randomised solver called directly with a negative regularisation parameter", "the negative value is used as it is", '''
from coreax.least_squares import RandomisedEigendecompositionSolver
s = RandomisedEigendecompositionSolver(jr.key(0), oversampling_parameter=3)
A = jnp.diag(jnp.array([1.0, 2.0, 3.0])); B = jnp.ones((3, 1))
check(np.allclose(s.solve(A, -0.5, B, jnp.eye(3)), s.solve(A, 0.5, B, jnp.eye(3)), atol=1e-4), "sign")
''')
BUGS = [b for b in BUGS if b["id"] not in ("index-int16", "rpc-fallback-mask", "stein-kde-unweighted", "tree-depth-floor", "points-weight-product")]  # these fail existing tests
