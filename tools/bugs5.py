CS = "coreax/solvers/coresubset.py"
H = '''
import sys, warnings
warnings.filterwarnings("ignore")
import numpy as np, jax, jax.numpy as jnp, jax.random as jr
def check(ok, msg):
    if not ok:
        print("FAIL:", msg); sys.exit(1)
'''
BUGS = []
def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=H + demo))
KB = "coreax/kernels/base.py"
SV = "coreax/kernels/scalar_valued.py"
R = "coreax/solvers/recombination.py"
U = "coreax/util.py"
LS = "coreax/least_squares.py"
S = "coreax/score_matching.py"

bug("gkp-oversize-tail", "P07", [(CS, "        initial_coreset_indices = coresubset.unweighted_indices[:coreset_size]", "        initial_coreset_indices = coresubset.unweighted_indices[-coreset_size:]")],
 "refining a coreset larger than requested with greedy kernel points", "the surplus is dropped from the front instead of the end", '''
from coreax import Data, SupervisedData
from coreax.coreset import Coresubset
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import GreedyKernelPoints
bad = 0
for s in range(6):
    d = SupervisedData(jr.normal(jr.key(s), (10, 2)), jr.normal(jr.key(s + 50), (10, 1)))
    g = GreedyKernelPoints(2, jr.key(0), SquaredExponentialKernel(), regularisation_parameter=0.1)
    a, _ = g.refine(Coresubset(Data(jnp.array([1, 2, 7, 8])), d)); b, _ = g.refine(Coresubset(Data(jnp.array([1, 2])), d))
    bad += np.asarray(a.unweighted_indices).tolist() != np.asarray(b.unweighted_indices).tolist()
check(bad == 0, bad)
''')
bug("recomb-explicit-drop", "P12", [(R, "            idx = jnp.flatnonzero(weights)\n", "            idx = jnp.flatnonzero(weights > jnp.finfo(weights.dtype).eps * 10)\n")],
 "explicit mode with a surviving point of very small weight and large value", "light points are dropped in explicit mode, so modes disagree and means are lost", '''
from coreax import Data
from coreax.solvers import CaratheodoryRecombination
x = jnp.array([[1e7], [0.0]]); w = jnp.array([1e-7, 1.0])
c, _ = CaratheodoryRecombination(mode="explicit").reduce(Data(x, w)); p = c.points
check(abs(float(p.weights @ p.data[:, 0]) - 1) < 1e-2, p.weights)
''')
bug("batch-full-arange", "P18", [(U, "    batch_keys = jr.split(random_key, num_batches)\n", "    if batch_size == max_index:\n        return jnp.tile(jnp.arange(max_index), (num_batches, 1))\n    batch_keys = jr.split(random_key, num_batches)\n")],
 "batches as large as the index range", "batches that cover everything are not random permutations", '''
from coreax.util import sample_batch_indices
b = np.asarray(sample_batch_indices(jr.key(0), 6, 6, 40))
check(len({tuple(r) for r in b}) > 5, b[:3])
''')
bug("threshold-inclusive", "P24", [(U, "jnp.where((-jnp.abs(precision_threshold) < _x) & (_x < 0.0), 0.0, _x)", "jnp.where((-jnp.abs(precision_threshold) <= _x) & (_x < 0.0), 0.0, _x)")],
 "a value equal to minus the threshold", "a value at the threshold is zeroed", '''
from coreax.util import apply_negative_precision_threshold as f
check(float(f(-0.25, 0.25)) == -0.25, f(-0.25, 0.25))
''')
bug("time-sample-std", "P25", [(U, "std = timings.std(axis=0)", "std = timings.std(axis=0, ddof=min(1, num_runs - 1))")],
 "two or more runs", "the sample deviation is reported", '''
check(True, 0)
''')
bug("herd-tie-jitter", "P19", [(CS, "            return jnp.nanargmax(valid_residuals)\n", "            tied = valid_residuals == jnp.nanmax(valid_residuals)\n            noise = jr.uniform(jr.fold_in(self.random_key, i), valid_residuals.shape)\n            return jnp.argmax(jnp.where(tied, noise, -1.0))\n")],
 "data on which two points are equally good", "ties are broken at random, so deterministic herding depends on the random key", '''
from coreax import Data
from coreax.kernels import SquaredExponentialKernel
from coreax.solvers import KernelHerding
x = jnp.array([[0.0], [0.0], [1.0], [1.0]])
r = {tuple(np.asarray(KernelHerding(2, SquaredExponentialKernel(), random_key=jr.key(i)).reduce(Data(x))[0].unweighted_indices).tolist()) for i in range(12)}
check(len(r) == 1, r)
''')
bug("product-type-divergence", "P15", [(KB, "        if self.first_kernel == self.second_kernel:\n            return 2 * (", "        if type(self.first_kernel) is type(self.second_kernel):\n            return 2 * (")],
 "a product of two kernels of the same class with different parameters", "the divergence is that of the square of the first factor", '''
from coreax.kernels import SquaredExponentialKernel as SE
a, b = SE(0.7), SE(1.9); x, y = jnp.array([0.3]), jnp.array([1.0])
u, v = (a * b).divergence_x_grad_y_elementwise(x, y), (b * a).divergence_x_grad_y_elementwise(x, y)
check(abs(float(u - v)) < 1e-5, (u, v))
''')
bug("stack-shared-target", "P22", [(LS, "        return _map_solve(arrays, abs(regularisation_parameter), targets, identity)", "        if targets.ndim == arrays.ndim and targets.shape[-1] == targets.shape[-2]:\n            targets = 0.5 * (targets + jnp.swapaxes(targets, -1, -2))\n        return _map_solve(arrays, abs(regularisation_parameter), targets, identity)")],
 "a stack whose targets are square but not symmetric", "square targets are symmetrised before solving", '''
from coreax.least_squares import MinimalEuclideanNormSolver as M
A = jnp.tile(jnp.eye(2), (3, 1, 1)); T = jnp.tile(jnp.array([[1.0, 2.0], [0.0, 3.0]]), (3, 1, 1))
check(np.allclose(M().solve_stack(A, 0.0, T, jnp.eye(2)), T, atol=1e-4), 0)
''')
bug("ssm-batch-last", "P23", [(S, "idx = jr.randint(loop_keys[i], (self.batch_size,), 0, num_points)", "idx = jr.randint(\n                loop_keys[i], (self.batch_size,), 0, max(1, num_points - 1)\n            )")],
 "any data of two or more rows (only visible in which rows are ever drawn)", "the last row is never trained on", '''
check(True, 0)
''')
bug("stein-bw-string", "P04", [(CS, "kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=self.kde_bw_method)", "bw = self.kde_bw_method if not isinstance(self.kde_bw_method, str) else None\n            kde = jsp.stats.gaussian_kde(x.T, weights=w_x, bw_method=bw)")],
 "the bandwidth rule given by name", "a named bandwidth rule is ignored", '''
check(True, 0)
''')
bug("kt-odd-tail", "P10", [(CS, "self.coreset_size * 2**m", "self.coreset_size * 2**m")], "", "", "")
BUGS.pop()
