"""Writes /verif/properties.jsonl (kept as a script so the list is easy to review)."""
import json, pathlib
C="coreax/solvers/coresubset.py"; M="coreax/solvers/composite.py"; R="coreax/solvers/recombination.py"
P=[]
def add(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw))
    assert len(title)<=80,(id,len(title)); P.append(d)

add("P01","A solved coresubset is exactly N genuine rows of the caller's data",
 "For every subset solver, every dataset (plain or supervised, weighted or not) and every feasible requested size, the result has exactly the requested number of elements, every reported index lies inside the dataset, each returned point (features and, if present, responses) is the row of the original data at the reported index, and the dataset carried by the result is the caller's dataset unchanged. Requests larger than the dataset, or of non-positive size, are refused with an error instead of returning something.",
 ["inputs","configurations"],"all datasets, weights, supervision, dimensions, keys, solver options and sizes 1..n (and the infeasible sizes outside it)",
 "tests look at a handful of 128-point datasets with one or two sizes per solver; index/row agreement must hold for every size, key, option and dataset shape",
 [C,M,"coreax/coreset.py","coreax/data.py"],[("initial coresubset and size refusal",C+":_initial_coresubset"),("points materialised from indices","coreax/coreset.py:Coresubset.points"),("index bookkeeping across partitions",M+":MapReduce.reduce")])
add("P02","Solvers asked for unique points never return the same index twice",
 "When a subset solver is configured to return unique elements (and there are enough positively weighted points, and any candidate batch is at least as large as the requested size), no index occurs twice in the result, whatever the data (including duplicated rows and constant kernels), the random key, cached state, or a duplicate-free coreset being refined. Kernel thinning and Compress++ results are likewise free of repeats.",
 ["inputs","configurations","histories"],"all datasets incl. degenerate ones, keys, refinement histories of duplicate-free coresets",
 "uniqueness is asserted on random Gaussian data only; exclusion masks fail on ties, duplicates, zero kernels, refinement after refinement",
 [C],[("exclusion of members/selected points",C+":_greedy_kernel_selection"),("zeroed residual",C+":RPCholesky.reduce"),("isin mask",C+":_update_candidate_coresets_and_coreset_indices")])
add("P03","Kernel herding always picks a maximiser of the herding criterion",
 "At every step deterministic kernel herding selects a point maximising (weighted mean kernel similarity to the dataset) minus (sum of kernel similarities to the points selected so far, divided by the number selected including the new one), among positively weighted points that are not already selected when uniqueness is on. This holds for every kernel, dataset weighting, size, block size and unroll, for one-shot and iterated reduction, and whether or not the cached row mean is passed in; in probabilistic mode each draw follows the softmax of that criterion divided by the temperature over the same candidates.",
 ["inputs","configurations","histories"],"all kernels/Gram matrices, weights, sizes, block sizes; all positions of the selection sequence",
 "tests compare with one stored result; a wrong divisor, stale penalty, or dropped weight changes later picks only on particular data",
 [C,"coreax/kernels/base.py"],[("selection criterion",C+":KernelHerding.refine"),("penalty bookkeeping",C+":_greedy_kernel_selection"),("iteration",C+":KernelHerding.reduce_iterative")])
add("P04","Stein thinning always picks a minimiser of the regularised Stein criterion",
 "At step t Stein thinning selects a point minimising the Stein kernel diagonal plus twice the sum of Stein kernel values to the points selected so far, plus (when regularising) the positive Laplacian correction of the score minus t times lambda times the log density estimate, among positively weighted and (if requested) not yet selected points. This holds for every Stein kernel, weighting, lambda, size, block size and refinement start.",
 ["inputs","configurations","histories"],"all Stein kernels, datasets, lambda, t",
 "tests only check shapes/padding on one dataset; the criterion value at each step is never recomputed",
 [C,"coreax/score_matching.py","coreax/kernels/scalar_valued.py"],[("criterion",C+":SteinThinning.refine"),("greedy loop",C+":_greedy_kernel_selection"),("kernel conversion","coreax/score_matching.py:convert_stein_kernel")])
add("P05","Greedy kernel points adds, at each step, the point with least regression loss",
 "At each step greedy kernel points chooses, among the candidates it may consider, the point whose addition (or substitution when refining) minimises the squared error of the kernel ridge regression fitted on the coreset and evaluated on the loss points; with full candidate and loss sets refinement therefore never increases the loss. Sampled candidate or loss batches only restrict the set considered, the point currently held stays a candidate while refining, and a placeholder is never returned as a coreset member.",
 ["inputs","configurations","histories"],"all feature Grams, responses, lambda, batch sizes, unique flag, starting coresets (smaller, equal, larger)",
 "tests use one random problem and compare loss loosely",
 [C,"coreax/least_squares.py"],[("loss",C+":_greedy_kernel_points_loss"),("argmin and bookkeeping",C+":_update_candidate_coresets_and_coreset_indices"),("batch setup",C+":_setup_batch_solver")])
add("P06","Randomly pivoted Cholesky draws pivots from the exact residual diagonal",
 "Each pivot is drawn with probability proportional to the diagonal of the residual of the Gram matrix after projecting out the pivots chosen so far, so a point already explained (zero residual) is never drawn while an unexplained one exists; once nothing is left to explain, the remaining pivots are uniform over points not yet chosen. The state returned with the coreset is that final residual diagonal.",
 ["inputs","schedules"],"all positive semidefinite Gram matrices incl. rank-deficient ones, all keys",
 "a test with one key cannot tell the pivot law; rank-deficient and tie cases are not sampled",
 [C],[("pivot draw, residual update",C+":RPCholesky.reduce")])
add("P07","Refinement improves a coreset in place and never makes it worse",
 "Refining processes the given coreset position by position: each position's point is replaced by the best choice given all other current members, a coreset smaller than requested keeps its points in play before new ones are added, and surplus points of a larger one are dropped from the end. For herding with a kernel of constant diagonal, refining a same-size coreset on uniformly weighted data never increases the maximum mean discrepancy, over any number of successive refinements; refining a coreset equals continuing the iterated reduction.",
 ["histories","inputs"],"all starting coresets (any size up to n), all chains of refinements, cached or recomputed state",
 "chains of refinements and arbitrary starting coresets are not enumerable by tests",
 [C],[("in-place greedy sweep",C+":_greedy_kernel_selection"),("padding/clipping",C+":_greedy_kernel_selection"),("iterated refinement",C+":KernelHerding.reduce_iterative")])
add("P08","Zero-weighted data never influences or enters a padding-invariant result",
 "For the solvers that promise padding invariance, appending or interleaving any number of zero-weighted rows (of any value) leaves the selected points unchanged, and a zero-weighted row is never selected while enough positively weighted rows exist. The weighted mean of a kernel, the (joint) maximum mean discrepancy and weighted random sampling likewise ignore zero-weighted rows, and scaling all weights by a positive constant changes nothing.",
 ["inputs"],"all datasets, paddings (number, position, values), weight scalings",
 "tests pad one dataset with trailing zeros only",
 [C,"coreax/data.py","coreax/kernels/util.py","coreax/solvers/base.py",R],[("zero-weight mask",C+":_greedy_kernel_selection"),("weight normalisation","coreax/data.py:Data.normalize"),("recombination of zero-weight nodes",R+":CaratheodoryRecombination")])
add("P09","Map-reduce partitions cover the data once and results map back to it",
 "Map-reduce hands every row of the (current) data to exactly one partition, each partition holding between the base solver's size and the leaf size of real rows plus at most one zero-weighted filler, keeps each row's identity (features, responses and original index) through all levels, solves the final level with the base solver on the survivors only, and stops after finitely many levels with exactly the base solver's size. This holds for every data size, leaf size at least twice the coreset size, tree type and base solver.",
 ["inputs","configurations"],"all n, leaf_size >= 2*coreset_size, both tree types, plain and supervised data, pseudo and subset base solvers",
 "tests mock the tree and use one n; the index arithmetic across levels depends on n and leaf size",
 [M],[("partitioning and padding",M+":_jit_tree"),("index composition and recursion",M+":MapReduce.reduce")])
add("P10","Kernel thinning splits by fair pairwise swaps and keeps the best candidate",
 "Kernel thinning halves the leading block of the data (the largest size*2^m prefix) m times; each halving sends exactly one element of every consecutive pair to each half, choosing by the self-balancing rule (swap probability one half times one minus alpha over the threshold, with the paper's threshold and sigma recursion on the square-root kernel). Among the resulting candidate halves and one uniform random baseline it keeps one with least discrepancy to the full dataset and finally refines it with herding.",
 ["inputs","schedules"],"all datasets (incl. coinciding points), sizes, delta, keys",
 "one-key tests cannot see the swap law, which candidate wins, or index remapping at depth",
 [C],[("halving",C+":KernelThinning.kt_half"),("recursion/index remap",C+":KernelThinning.kt_half_recursive"),("choice",C+":KernelThinning.kt_choose"),("refine",C+":KernelThinning.kt_refine")])
add("P11","Compress++ accepts exactly the feasible settings and compresses by halving",
 "Compress++ works on a random power-of-four subset of the rows without repetition, recursively replaces each group of four parts by a thinned half until parts of size 4^g remain, and thins the rest to the requested size, so the result is a duplicate-free subset of the original rows with original indices. Oversampling factors or sizes that do not fit the dataset are refused with an error, all that fit are accepted.",
 ["inputs","configurations"],"all n, g, sizes, keys",
 "tests use one or two (n, g, size) triples",
 [C],[("recursion",C+":CompressPlusPlus.reduce")])
add("P12","Recombination keeps total mass and every test-function mean on few points",
 "Recombination returns non-negative weights summing to one on indices within the dataset whose weighted mean of every test function equals that of the original (normalised) weights, with at most as many positively weighted points as there are test functions (including the constant), all of which had positive weight originally. The three output modes report the same measure with the documented array sizes, and the tree variant satisfies the same contract for every reduction factor.",
 ["inputs","configurations"],"all weighted point sets incl. degenerate (collinear, duplicate, zero-weight), test functions, modes, tree factors",
 "null-space elimination behaves differently per rank/degeneracy; tests sample a few ranks",
 [R],[("elimination",R+":CaratheodoryRecombination.reduce"),("tree",R+":TreeRecombination.reduce"),("modes",R+":_coresubset_nodes")])
add("P13","Data and coreset objects stay consistent through any sequence of operations",
 "Through any sequence of construction, indexing, slicing, padding, weight normalisation, coreset building, materialisation and weight re-solving, features, responses and weights stay aligned row by row, vectors are treated as columns of points, scalar weights are broadcast, normalised weights sum to one (or stay zero when asked to preserve zeros), and weight re-solving changes nothing but the weights. Inconsistent constructions (mismatched leading dimensions, wrong weight lengths, coresets larger than their data, untyped inputs) are rejected.",
 ["histories","inputs"],"all operation sequences on all shapes",
 "operation sequences are unbounded",
 ["coreax/data.py","coreax/coreset.py","coreax/util.py"],[("construction/broadcast/index","coreax/data.py:Data"),("coreset invariants","coreax/coreset.py:AbstractCoreset.__check_init__"),("padding","coreax/util.py:tree_zero_pad_leading_axis")])
add("P14","Blocked kernel means equal the weighted mean for every block size",
 "The mean, row mean and column mean of a kernel matrix equal the weighted average of pairwise kernel values, for every pair of (weighted or plain) datasets, every block size (single, pairwise, larger than the data, or none), every unroll setting and each axis; the Gram row mean is the row mean of a dataset against itself.",
 ["inputs","configurations"],"all sizes n,m, block sizes, unrolls, axes, weights",
 "block remainders depend on n mod block on both axes; tests fix a few",
 ["coreax/kernels/base.py","coreax/kernels/util.py"],[("block accumulation","coreax/kernels/base.py:ScalarValuedKernel.compute_mean"),("padding to blocks","coreax/kernels/util.py:_block_data_convert")])
add("P15","Composed kernels follow pointwise algebra and derivatives follow values",
 "Sums, products and positive integer powers of kernels (and non-negative constants) evaluate pointwise to the sum, product and power of the components, every library kernel evaluates to its documented formula, and for every library kernel and composition the reported gradients and mixed divergence are those of the reported values with respect to the right argument, wherever the kernel is differentiable. Vectorised evaluation agrees entry by entry with evaluation on single points, every kernel is symmetric, and invalid powers and negative constants are rejected.",
 ["inputs","programs"],"all kernel expressions, parameters and points",
 "tests check fixed expressions at fixed points",
 ["coreax/kernels/base.py","coreax/kernels/scalar_valued.py"],[("composition","coreax/kernels/base.py:AdditiveKernel, ProductKernel, PowerKernel"),("closed-form derivatives","coreax/kernels/scalar_valued.py")])
add("P16","Discrepancy metrics equal their defining sums and respect their axioms",
 "Maximum mean discrepancy (plain and joint) equals the square root of the weighted kernel double sums of its definition for all datasets, weights, block sizes and unrolls; it is zero for identical weighted datasets, symmetric and non-negative. The kernel Stein discrepancy and the average conditional mean discrepancy equal their defining sums, including correction and regularisation terms, and a coreset's metric is the metric between its original data and its weighted points.",
 ["inputs","configurations"],"all datasets, weights, kernels, block sizes",
 "tests compare on small fixed examples",
 ["coreax/metrics.py","coreax/coreset.py"],[("MMD","coreax/metrics.py:MMD.compute"),("JMMD","coreax/metrics.py:JMMD.compute"),("KSD","coreax/metrics.py:KSD.compute"),("AMCMD","coreax/metrics.py:AMCMD.compute")])
add("P17","Optimised weights solve the optimisation problem they claim to solve",
 "For uniformly weighted data, quadrature weights satisfy the linear system of the coreset Gram matrix against the mean kernel values, and simplex weights are non-negative, sum to one and satisfy the optimality conditions of minimising the discrepancy over the simplex. Re-solving simplex weights therefore never increases a coreset's discrepancy, and re-solving keeps its points.",
 ["inputs"],"all datasets, coresets and positive definite kernels",
 "optimality must hold for every input; tests compare a few solutions",
 ["coreax/weights.py","coreax/coreset.py"],[("SBQ","coreax/weights.py:SBQWeightsOptimiser.solve"),("QP","coreax/weights.py:solve_qp"),("update","coreax/coreset.py:Coresubset.solve_weights")])
add("P18","Random sampling follows the requested distribution and is without replacement",
 "Uniform sampling gives every point the same chance, weighted sampling gives each point a chance proportional to its weight, sampling without replacement never repeats, and batches of indices are independent uniform draws without repeats inside a batch and within range. Infeasible requests are refused.",
 ["inputs","schedules"],"all sizes, weights, batch shapes, keys",
 "a single key per test cannot see the distribution",
 [C,"coreax/util.py"],[("sampling",C+":RandomSample.reduce"),("batches","coreax/util.py:sample_batch_indices")])
add("P19","Results depend only on the arguments: replay, caching and compilation agree",
 "For any history of solver, metric and weight calls, repeating a call with equal arguments and key gives an equal result, passing back the state returned by an equal earlier call does not change the result of herding or greedy kernel points, compiled and uncompiled calls agree, and no call modifies the datasets, coresets or solver objects passed to it. A different random key changes only random solvers.",
 ["histories","schedules"],"all interleavings of calls on shared objects, cached states and compilation",
 "call histories are unbounded; tests make single calls",
 [C,M,R,"coreax/metrics.py"],[("cached states",C+":HerdingState, GreedyKernelPointsState"),("key handling",C+":RandomSample, RPCholesky, KernelThinning")])
add("P20","Kernel density score is the gradient of the log density it defines",
 "The score returned by kernel density matching equals, in every dimension and at every point where the density estimate does not underflow, the kernel-weighted average displacement to the data divided by the squared bandwidth, i.e. the gradient of the log of the kernel density estimate, for single points and batches alike. The Stein kernel built from a base kernel and a score is the documented combination of mixed divergence, gradients and scores, and over any history of conversions the base kernel is kept and the last supplied matcher decides the score; without one an existing score stays, and a plain kernel gets a density score with its own length scale (one if it has none).",
 ["inputs"],"all datasets, bandwidths, query points, base kernels",
 "tests compare with a Gaussian at fixed points with loose tolerance",
 ["coreax/score_matching.py","coreax/kernels/scalar_valued.py"],[("KDE score","coreax/score_matching.py:KernelDensityMatching.match"),("Stein kernel","coreax/kernels/scalar_valued.py:SteinKernel.compute_elementwise"),("conversion","coreax/score_matching.py:convert_stein_kernel")])
add("P21","Approximate row means fit the exact mean and all else is unapproximated",
 "An approximate kernel's values, gradients and divergence are those of its base kernel, and its Gram row mean is the least-squares fit of the base kernel's target mean on the sampled training rows in the span of the sampled kernel columns, hence exact when the columns span the target on all rows. Requests for more training points, or more randomly sampled kernel points, than are available and non-positive counts are refused.",
 ["inputs","configurations"],"all datasets, point counts, keys",
 "tests check loose closeness on one dataset",
 ["coreax/approximation.py"],[("random least squares","coreax/approximation.py:_random_least_squares"),("ANNchor","coreax/approximation.py:ANNchorApproximateKernel.gramian_row_mean"),("Nystrom","coreax/approximation.py:NystromApproximateKernel.gramian_row_mean")])
add("P22","Regularised least squares solutions solve the regularised system",
 "For every symmetric positive semidefinite matrix, target and regularisation (negative values count as positive), the solvers return the solution of (matrix plus lambda identity) times X equals target, the minimum-norm one when singular, also for block-padded systems with a partial identity, and solving a stack equals solving each member. The randomised solver agrees whenever it keeps at least as many directions as the matrix has.",
 ["inputs","configurations"],"all PSD systems, paddings, stacks, lambda",
 "tests use a few well-conditioned systems",
 ["coreax/least_squares.py"],[("lstsq","coreax/least_squares.py:MinimalEuclideanNormSolver.solve"),("randomised","coreax/least_squares.py:RandomisedEigendecompositionSolver.solve"),("stack","coreax/least_squares.py:RegularisedLeastSquaresSolver.solve_stack")])
add("P23","Sliced score matching descends exactly the objective it documents",
 "Every training step of sliced score matching hands the optimiser the gradient, with respect to all network parameters, of the batch mean of the documented objective (v'Jv plus half the square of v's, or half the squared norm of the score in the analytic variant, over every projection vector), each data row paired with its own projection vectors; with noise conditioning it is the sum over noise levels of the squared level times the objective at rows perturbed with that level's standard deviation. Training takes exactly the requested number of steps on batches of the requested size drawn uniformly from the rows, zero epochs return the initial network, equal settings and keys give equal networks, and the returned score function evaluates the trained network at single points and batches alike. Invalid counts are refused.",
 ["inputs","configurations","histories"],"all datasets, projections, parameters, batch sizes, epochs, noise schedules and keys",
 "tests train once and compare loosely with a Gaussian score",
 ["coreax/score_matching.py","coreax/networks.py"],[("objective","coreax/score_matching.py:SlicedScoreMatching._loss"),("training step","coreax/score_matching.py:SlicedScoreMatching._train_step"),("training loop","coreax/score_matching.py:SlicedScoreMatching.match"),("network","coreax/networks.py:ScoreNetwork")])
add("P24","Distance, length-scale, tree and benchmark helpers compute their definitions",
 "For every input, pairwise lifting evaluates a function entry by entry on all pairs of rows (a single point counting as one row), squared distance and difference are exact, the median heuristic is the square root of half the median squared distance over distinct pairs, the precision threshold zeroes exactly the values strictly between minus the threshold and zero, leaves are repeated to the requested length and zero padded along their first axis only, the benchmark failure probability follows its documented formula, iterated herding as a solver equals iterated reduction, and every benchmark solver behaves as the library solver it is documented to configure (median length scale, failure probability, wrapped in map-reduce when a leaf size is given).",
 ["inputs","configurations"],"all point sets, trees, thresholds, sizes",
 "tests use a few fixed arrays",
 ["coreax/util.py","coreax/kernels/util.py","coreax/benchmark_util.py"],[("pairwise","coreax/util.py:pairwise"),("median","coreax/kernels/util.py:median_heuristic"),("threshold","coreax/util.py:apply_negative_precision_threshold"),("benchmark solvers","coreax/benchmark_util.py:initialise_solvers")])
add("P25","Timing comparisons report the statistics of exactly the requested runs",
 "Timing a function compiles a fresh copy of it once and calls it twice with its own arguments, waiting for the results, and reports the time of each call; a comparison does so the requested number of times for every function, reports per run the first time less the second as compilation time and the second as execution time (each divided by its normalisation if given), and per function their mean and standard deviation under the given or positional name, logging exactly these when asked. Displayed times carry the unit of their order of magnitude and two decimals.",
 ["histories","inputs"],"all function lists, costs of tracing and executing, numbers of runs, normalisations; all times",
 "tests time real functions, so no exact result can be asserted",
 ["coreax/util.py"],[("two timed calls","coreax/util.py:jit_test"),("comparison","coreax/util.py:speed_comparison_test"),("display","coreax/util.py:format_time")])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P)); print(len(P))
