CS = "coreax/solvers/coresubset.py"
H = '''
import sys, warnings
warnings.filterwarnings("ignore")
import numpy as np, jax, jax.numpy as jnp, jax.random as jr
def check(ok, msg):
    if not ok:
        print("FAIL:", msg); sys.exit(1)
'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
KB = "coreax/kernels/base.py"
KU = "coreax/kernels/util.py"
SV = "coreax/kernels/scalar_valued.py"
W = "coreax/weights.py"
R = "coreax/solvers/recombination.py"
A = "coreax/approximation.py"
M = "coreax/metrics.py"
S = "coreax/score_matching.py"
U = "coreax/util.py"

bug("herd-temp-floor", "P03", [(CS, "jax.nn.softmax(valid_residuals / self.temperature)", "jax.nn.softmax(\n                    valid_residuals / jnp.maximum(self.temperature, 0.05)\n                )")],
 "probabilistic herding at a temperature below 0.05 (annealing schedules end there)", "low temperatures are silently raised, so the draws do not follow the requested softmax", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
x = jnp.array([[0.0], [0.1], [0.5], [1.5]])
k = SquaredExponentialKernel(1.0)
best = int(KernelHerding(1, kernel=k).reduce(Data(x))[0].indices.data[0, 0])
hit = sum(int(KernelHerding(1, kernel=k, probabilistic=True, temperature=1e-4, random_key=jr.key(i)).reduce(Data(x))[0].indices.data[0, 0]) == best for i in range(40))
check(hit >= 38, hit)
''')
bug("herd-iter-key", "P03", [(CS, "                lambda x: x.random_key, self, jr.fold_in(self.random_key, i)\n", "                lambda x: x.random_key, self, jr.fold_in(self.random_key, 0 * i)\n")],
 "probabilistic herding with two or more iterations", "every iteration draws with the same random numbers, so the draws of a history are not independent", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
x = jnp.zeros((6, 1)); k = SquaredExponentialKernel(1.0)
same = 0
for i in range(40):
    h = KernelHerding(1, kernel=k, probabilistic=True, random_key=jr.key(i), unique=False)
    a = int(h.reduce_iterative(Data(x), num_iterations=1)[0].indices.data[0, 0]); b = int(h.reduce_iterative(Data(x), num_iterations=2)[0].indices.data[0, 0])
    same += a == b
check(same < 25, same)
''')
bug("stein-lambda-zero", "P04", [(CS, "if self.regulariser_lambda is None:", "if not self.regulariser_lambda:")],
 "a regularisation weight of exactly zero", "zero is taken for unset and replaced by the default", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel, SteinKernel
from coreax.solvers import SteinThinning
x = jnp.concatenate([jnp.linspace(-0.2, 0.2, 12)[:, None], jnp.array([[3.0], [3.2]])])
k = SteinKernel(SquaredExponentialKernel(1.0), lambda z: -(z - 3.0))
a, _ = SteinThinning(3, kernel=k, regulariser_lambda=0.0).reduce(Data(x))
b, _ = SteinThinning(3, kernel=k, regulariser_lambda=1e-12).reduce(Data(x))
check(np.array_equal(a.unweighted_indices, b.unweighted_indices), (a.unweighted_indices, b.unweighted_indices))
''')
bug("rpc-key-pairs", "P06", [(CS, "            key = jr.fold_in(self.random_key, i)\n\n            # Fail", "            key = jr.fold_in(self.random_key, i)\n\n            # Fail")],
 "", "", "")
BUGS.pop()
bug("recomb-basis-floor", "P12", [(R, "                basis_vector > 0, _weights / basis_vector, jnp.inf", "                basis_vector > 1e-3, _weights / basis_vector, jnp.inf")],
 "rows with very small weights next to heavy ones", "a light row can be driven to a negative weight", '''
from coreax import Data
from coreax.solvers import CaratheodoryRecombination
worst = 0.0
for s in range(60):
    r = np.random.default_rng(s); x = jnp.asarray(r.normal(size=(14, 2))); w = jnp.asarray(np.where(r.random(14) < 0.5, 1e-5, 1.0))
    c, _ = CaratheodoryRecombination().reduce(Data(x, w))
    worst = min(worst, float(c.points.weights.min()))
check(worst > -1e-8, worst)
''')
bug("recomb-centroid-floor", "P12", [(R, "centroid_indices = jnp.argsort(_weights).reshape(count, -1, order=\"F\")", "centroid_indices = jnp.argsort(_weights)[: _weights.shape[0] // count * count].reshape(\n                count, -1, order=\"F\"\n            )")],
 "", "", "")
BUGS.pop()
bug("gkp-absolute-dup", "P05", [(CS, "            coreset_indices.at[i].set(-1),\n", "            coreset_indices.at[i].set(-1)[: i + 1] if isinstance(i, int) else coreset_indices.at[i].set(-1),\n")],
 "", "", "")
BUGS.pop()
bug("gkp-loss-width", "P05", [(CS, "loss = ((predictions - 2 * responses[loss_batch, 0]) * predictions).sum(axis=1)", "targets = responses[loss_batch, 0]\n    loss = jnp.abs((predictions - 2 * targets) * predictions + targets**2).sum(\n        axis=1, dtype=jnp.float16\n    ).astype(predictions.dtype)")],
 "candidates whose losses differ by less than a part in a thousand, or losses beyond 65504", "losses are accumulated in half precision, so a worse candidate is chosen", '''
from coreax import SupervisedData
from coreax.kernels import LinearKernel
from coreax.solvers import GreedyKernelPoints
x = jnp.array([[1.0], [2.0], [3.0], [4.0]]); y = 400.0 * x + jnp.array([[90.0], [0.0], [50.0], [300.0]])
c, _ = GreedyKernelPoints(1, random_key=jr.key(0), feature_kernel=LinearKernel(), regularisation_parameter=0.0).reduce(SupervisedData(x, y))
L = [float(((y - x * (y[i] / x[i])) ** 2).sum()) for i in range(4)]
check(int(c.unweighted_indices[0]) == int(np.argmin(L)), (c.unweighted_indices, L))
''')
bug("mapreduce-weights-one", "P09", [("coreax/solvers/composite.py", "_coreset = jtu.tree_map(jnp.concatenate, coreset_ensemble)", "_coreset = jtu.tree_map(\n                lambda v: jnp.concatenate(v).astype(v.dtype)\n                if v.ndim > 2\n                else jnp.clip(jnp.concatenate(v), 1e-6, None),\n                coreset_ensemble,\n            )")],
 "", "", "")
BUGS.pop()
bug("kt-prob-clip", "P10", [(CS, "swap_probability = 1 / 2 * (1 - alpha / a)", "swap_probability = jnp.clip(1 / 2 * (1 - alpha / a), 0.05, 0.95)")],
 "pairs on which the balance is so far out that the swap is (almost) certain", "the certain choice is made only nineteen times out of twenty", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelThinning
k = SquaredExponentialKernel(1.0)
x = jnp.array([[0.0], [5.0], [0.0], [5.0]])
bad = 0
for i in range(200):
    t = KernelThinning(2, kernel=k, random_key=jr.key(i), delta=0.9, sqrt_kernel=k)
    a, b = t.kt_half(Data(x)); p = np.sort(np.asarray(a.points.data)[:, 0]); bad += p[0] == p[1]
check(bad == 0, bad)
''')
bug("kt-sigma-start", "P10", [(CS, "a = jnp.maximum(b * sigma * jnp.sqrt(2 * jnp.log(2 / self.delta)), b**2)", "a = jnp.maximum(b * sigma * jnp.sqrt(2 * jnp.log(1 + 1 / self.delta)), b**2)")],
 "halving enough pairs for the threshold to grow past the pair distance", "the threshold uses the wrong failure probability, so swap probabilities differ from the rule", '''
import ast, inspect, textwrap
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelThinning
k = SquaredExponentialKernel(1.0)
x = np.array([[0.0], [1.2], [0.4], [1.7], [0.1], [1.5], [0.3], [1.1]])
K = np.exp(-0.5 * (x - x.T) ** 2)
def follow(delta, first):
    """swap probability of each step given the first half chosen"""
    sig, out, seen, chosen = 0.0, [], [], []
    for i in range(4):
        u, v = 2 * i, 2 * i + 1
        b = np.sqrt(max(K[u, u] + K[v, v] - 2 * K[u, v], 0)); a = max(b * sig * np.sqrt(2 * np.log(2 / delta)), b * b)
        sig = np.sqrt(sig**2 + max(b**2 * (1 + (b**2 - 2 * a) * sig**2 / a**2), 0))
        al = sum(K[j, u] - K[j, v] for j in seen) - 2 * sum(K[j, u] - K[j, v] for j in chosen)
        out.append(np.clip(0.5 * (1 - al / a), 0, 1)); seen += [u, v]; chosen.append(first[i])
    return out
delta, got, want, var = 0.9, 0.0, 0.0, 0.0
f = jax.jit(lambda key: KernelThinning(4, kernel=k, random_key=key, delta=delta, sqrt_kernel=k).kt_half(Data(jnp.asarray(x)))[0].unweighted_indices)
idx = np.asarray(jax.vmap(f)(jr.split(jr.key(0), 6000)))
T = np.zeros((4,)); V = np.zeros((4,))
for row in idx:
    p = follow(delta, row); o = row % 2
    s = np.sign(np.array(p) - 0.5)
    T += s * (o - p); V += np.array(p) * (1 - np.array(p))
z = T / np.sqrt(V + 1e-9)
check(np.all(np.abs(z[V > 1]) < 6), z)
''')
bug("median-large", "P24", [(KU, "    median_square_distance = jnp.median(\n", "    square_distances = jnp.minimum(square_distances, 1e8)\n    median_square_distance = jnp.median(\n")],
 "data on a scale of more than ten thousand", "length scales of widely spread data are cut off", '''
from coreax.kernels import median_heuristic
v = float(median_heuristic(jnp.array([[0.0], [4e4], [9e4]])))
check(abs(v / (5e4 / np.sqrt(2)) - 1) < 1e-3, v)
''')
bug("pair-tuple-blocks", "P16", [(M, "bs_xx, bs_xy, _, bs_yy = tuple(product(_block_size, repeat=len(_block_size)))", "bs_xx, _, bs_xy, bs_yy = tuple(product(_block_size, repeat=len(_block_size)))")],
 "", "", "")
BUGS.pop()
bug("mmd-same-object", "P16", [(M, "        x, y = reference_data, comparison_data\n", "        x, y = reference_data, comparison_data\n        if x.data.shape == y.data.shape and x.data is y.data:\n            return jnp.asarray(0.0)\n")],
 "comparing two weightings of the very same array of points", "different weightings of the same points are declared identical", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.metrics import MMD
x = jnp.array([[0.0], [3.0]])
d = Data(x); e = Data(d.data, jnp.array([3.0, 1.0]))
v = float(MMD(SquaredExponentialKernel(1.0)).compute(d, e))
check(v > 0.1, v)
''')
bug("jmmd-symmetric-weights", "P16", [(M, "kernel_12_mean = w1 @ (feature_kernel_12 * response_kernel_12) @ w2", "kernel_12_mean = jnp.mean(\n            w1 @ (feature_kernel_12 * response_kernel_12)\n        ) if w2.ndim == 0 else w1 @ (feature_kernel_12 * response_kernel_12) @ w2")],
 "", "", "")
BUGS.pop()
bug("mean-empty-block", "P14", [(KU, "padding = ceil(len(x) / block_size) * block_size - len(x)", "padding = (block_size - len(x)) % block_size if block_size < 8 else (len(x) // block_size + 1) * block_size - len(x)")],
 "", "", "")
BUGS.pop()
bug("mean-bfloat", "P14", [(KB, "column_sum_slice = jnp.dot(self.compute(x_, y_), w_y)", "column_sum_slice = jnp.dot(self.compute(x_, y_), w_y)\n                column_sum_slice = jnp.where(\n                    jnp.abs(column_sum_slice) < 1e-7, 0.0, column_sum_slice\n                )")],
 "kernels of small output scale, or blocks that carry little weight", "small partial sums are dropped", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
x = jnp.array([[0.0], [1.0], [2.0]])
a = SquaredExponentialKernel(1.0, 1e-8).compute_mean(Data(x), Data(x), axis=1); b = SquaredExponentialKernel(1.0, 1.0).compute_mean(Data(x), Data(x), axis=1)
check(np.allclose(np.asarray(a) * 1e8, b, rtol=1e-3), (a, b))
''')
bug("time-clip", "P25", [(U, "timings = timings.at[:, 0].set(timings[:, 0] - timings[:, 1])", "timings = timings.at[:, 0].set(\n            jnp.maximum(timings[:, 0] - timings[:, 1], 0.0)\n        )")],
 "a run whose second call is slower than its first", "negative compilation estimates are clipped, biasing mean and deviation upwards", '''
import time, coreax.util as u
ticks = iter([0.0, 1.0, 1.0, 3.0, 3.0, 8.0, 8.0, 9.0])
real = u.jit_test
seq = iter([(1.0, 2.0), (5.0, 1.0)])
u.jit_test = lambda *a, **k: next(seq)
res, tab = u.speed_comparison_test([u.JITCompilableFunction(lambda x: x, (1.0,), name="f")], num_runs=2)
check(abs(float(res[0][0][0]) - 1.5) < 1e-5, res)
''')
bug("time-async", "P25", [(U, "    start_time = time.perf_counter()\n    jax.block_until_ready(_fn(*fn_args, **fn_kwargs))\n    end_time = time.perf_counter()\n    post_delta = end_time - start_time", "    start_time = time.perf_counter()\n    _fn(*fn_args, **fn_kwargs)\n    end_time = time.perf_counter()\n    post_delta = end_time - start_time")],
 "a computation that takes noticeably longer than its dispatch", "the second time is the time of the dispatch, not of the computation", '''
import time
from coreax.util import jit_test
def slow(x):
    return jax.pure_callback(lambda v: (time.sleep(0.3), np.asarray(v, np.float32))[1], jax.ShapeDtypeStruct((), jnp.float32), x)
a, b = jit_test(slow, (jnp.float32(1.0),))
check(b > 0.2, (a, b))
time.sleep(0.5)
''')
bug("time-negative", "P25", [(U, "    if order >= 2:  # noqa: PLR2004\n", "    if num >= 100:  # noqa: PLR2004\n")],
 "a negative time of a hundred seconds or more (estimated compilation times can be negative)", "large negative times are displayed in seconds", '''
from coreax.util import format_time
check(format_time(-120.0) == "-2.0 mins", format_time(-120.0))
''')
bug("time-name-offset", "P25", [(U, 'name = name if name is not None else f"function_{i + 1}"', 'name = name or f"function_{len(timings_dict) + 1}"')],
 "an unnamed function after two functions of the same name", "unnamed functions are numbered by the names seen so far instead of their position", '''
from coreax.util import JITCompilableFunction, speed_comparison_test
f = lambda x: x + 1
_, tab = speed_comparison_test([JITCompilableFunction(f, (1.0,), name="a"), JITCompilableFunction(f, (1.0,), name="a"), JITCompilableFunction(f, (1.0,))], num_runs=1)
check("function_3" in tab, list(tab))
''')
bug("norm-zero-total", "P13", [("coreax/data.py", "            normalized_weights = jnp.nan_to_num(normalized_weights)", "            normalized_weights = jnp.clip(jnp.nan_to_num(normalized_weights), 0.0)")],
 "normalising mixed-sign weights while preserving zeros", "negative weights are dropped, so the result does not sum to one", '''
from coreax import Data
d = Data(jnp.arange(3.0), jnp.array([2.0, -0.5, 0.5])).normalize(preserve_zeros=True)
check(abs(float(d.weights.sum()) - 1) < 1e-5, d.weights)
''')
bug("coreset-solve-abs", "P13", [("coreax/coreset.py", "        weights = solver.solve(self.pre_coreset_data, self.points, **solver_kwargs)\n", "        weights = solver.solve(self.pre_coreset_data, self.points, **solver_kwargs)\n")],
 "", "", "")
BUGS.pop()
bug("kde-bandwidth-square", "P20", [(S, "convert_stein_kernel", "convert_stein_kernel")], "", "", "")
BUGS.pop()
bug("stein-kernel-cross", "P20", [(SV, "        score_x = jnp.atleast_1d(self.score_function(x))", "        score_x = jnp.atleast_1d(self.score_function(x))")], "", "", "")
BUGS.pop()
