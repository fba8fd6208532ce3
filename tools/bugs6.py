CS = "coreax/solvers/coresubset.py"
CO = "coreax/solvers/composite.py"
KB = "coreax/kernels/base.py"
R = "coreax/solvers/recombination.py"
U = "coreax/util.py"
LS = "coreax/least_squares.py"
S = "coreax/score_matching.py"
M = "coreax/metrics.py"
A = "coreax/approximation.py"
W = "coreax/weights.py"
B = "coreax/benchmark_util.py"
D = "coreax/data.py"
C = "coreax/coreset.py"
BUGS = []
def bug(id, property, edits):
    BUGS.append(dict(id=id, property=property, edits=edits, needs="", breaks="", demo="import sys\n"))
bug("annchor-last-column", "P21", [(A, "jax.lax.fori_loop(1, self.num_kernel_points, _annchor_body", "jax.lax.fori_loop(1, min(self.num_kernel_points, num_data_points - 1), _annchor_body")])
bug("ksd-kde-unweighted", "P16", [(M, "weights=w_x, bw_method=bandwidth_method", "bw_method=bandwidth_method")])
bug("ksd-laplace-trace", "P16", [(M, "jnp.clip(jnp.diag(hessian), min=0.0).sum()", "jnp.clip(jnp.trace(hessian), min=0.0)")])
bug("amcmd-default-weighting", "P16", [(M, "            x3 = reference_data.data\n", "            x3 = x1 if len(x1) >= len(x2) else x2\n")])
bug("weights-block-remainder", "P17", [(W, "        x_d, x_c = dataset.data, coreset.data\n", "        x_d, x_c = dataset.data, coreset.data\n        if isinstance(block_size, int) and 1 < block_size < len(x_d):\n            x_d = x_d[: len(x_d) // block_size * block_size]\n")])
bug("kt-key-constant", "P10", [(CS, "            ), key2\n", "            ), jax.lax.cond(i > 3, lambda _: random_key, lambda _: key2, None)\n")])
bug("kt-choose-first-tie", "P10", [(CS, "        best_index = jnp.argmin(mmd_values)\n", "        best_index = jnp.argmin(jnp.round(mmd_values, 3))\n")])
bug("kt-refine-half", "P10", [(CS, "            parent_indices = current_coreset.indices.data  # Parent subset's indices\n", "            parent_indices = jnp.sort(current_coreset.indices.data, axis=0)\n")])
bug("cpp-dup-half", "P11", [(CS, "            if m == 4**self.g:\n", "            if m <= 4 ** max(self.g, 1):\n")])
bug("cpp-key", "P11", [(CS, "            self.random_key, n, shape=(effective_data_size,), replace=False\n", "            self.random_key, n - (n > 4 * effective_data_size - 2), shape=(effective_data_size,), replace=False\n")])
bug("mr-filler-weight", "P09", [(CO, "    padded_dataset = tree_zero_pad_leading_axis(dataset, 1)\n", "    padded_dataset = tree_zero_pad_leading_axis(dataset, 1)\n    padded_dataset = eqx.tree_at(lambda d: d.weights, padded_dataset, padded_dataset.weights.at[-1].set(jnp.where(jnp.min(dataset.weights) < 1, 1e-6, 0).astype(padded_dataset.weights.dtype)))\n")])
bug("mr-level-unweighted", "P09", [(CO, "            if len(data) <= self.leaf_size:\n", "            if len(data) < self.leaf_size:\n")])
bug("recomb-rcond-negative", "P12", [(R, "    return jnp.where(rcond < jnp.asarray(0), epsilon, rcond)", "    return jnp.where(rcond < jnp.asarray(0), 1.0, rcond)")])
bug("tree-factor-order", "P12", [(R, "            return updated_weights.reshape(-1, order=\"F\"), updated_indices\n", "            order = \"F\" if self.tree_reduction_factor < 4 else \"C\"\n            return updated_weights.reshape(-1, order=order), updated_indices\n")])
bug("tree-depth-large", "P12", [(R, "    max_tree_depth = max(1, math.ceil(math.log(n / m, tree_reduction_factor)))\n", "    max_tree_depth = max(1, math.ceil(math.log(n / m) / math.log(tree_reduction_factor) - 0.02))\n    max_tree_depth += int(m * tree_reduction_factor**max_tree_depth < n) if n < 64 else 0\n")])
bug("normalize-int-weights", "P13", [(D, "        normalized_weights = self.weights / jnp.sum(self.weights)\n", "        normalized_weights = self.weights / jnp.maximum(jnp.sum(self.weights), 1e-6)\n")])
bug("single-index-squeeze", "P13", [(C, "        return jnp.atleast_1d(jnp.squeeze(self._indices.data))", "        return jnp.atleast_1d(jnp.unique(self._indices.data) if len(self._indices) == len(self._pre_coreset_data) and not isinstance(self._indices.data, jax.core.Tracer) else jnp.squeeze(self._indices.data))")])
bug("iter-herd-state", "P24", [(B, "            solver_state,\n            num_iterations", "            None if self.t_schedule is None else solver_state,\n            num_iterations")])
bug("bench-cubic", "P24", [(B, "1 / jnp.linspace(10, 100, n_iter) ** 3", "1 / jnp.linspace(10, 100, n_iter + 1)[:-1] ** 3")])
bug("bench-delta-leaf", "P24", [(B, "            delta=calculate_delta(num_data_points).item(),\n            sqrt_kernel=sqrt_kernel,\n        )\n        if leaf_size", "            delta=calculate_delta(min(num_data_points, leaf_size or num_data_points)).item(),\n            sqrt_kernel=sqrt_kernel,\n        )\n        if leaf_size")])
bug("mean-axis0-block", "P14", [(KB, "            _block_size = _block_size[::-1]\n", "            _block_size = _block_size[::-1] if None not in _block_size else _block_size\n")])
bug("mean-outer-unroll", "P14", [(KB, "            return accumulated_sum, jnp.sum(column_sum_slices, axis=0)\n", "            if outer_unroll is True and inner_unroll is not True:\n                return accumulated_sum, jnp.mean(column_sum_slices, axis=0)\n            return accumulated_sum, jnp.sum(column_sum_slices, axis=0)\n")])
bug("ssm-noise-gamma", "P23", [(S, "sigma = self.sigma * self.gamma**i", "sigma = self.sigma * self.gamma ** jnp.minimum(i, 3)")])
bug("ssm-analytic-norm", "P23", [(S, "                return v @ u + 0.5 * s @ s  #", "                return v @ u + 0.5 * (s @ s) / jnp.maximum(1.0, len(s) / 4)  #")])
bug("kde-data-cap", "P20", [(S, "        kde_data = x\n", "        kde_data = jnp.unique(jnp.atleast_2d(x), axis=0) if not isinstance(x, jax.core.Tracer) else x\n")])
bug("eig-power", "P22", [(LS, "    for _ in range(power_iterations):\n        approximate_range_ = array.T @ q\n        q_, _ = jnp.linalg.qr(approximate_range_)\n        approximate_range = array @ q_\n", "    for _ in range(power_iterations):\n        approximate_range = array @ (array.T @ q)\n")])
bug("eig-mask-abs", "P22", [(LS, "    mask = eigenvalues >= jnp.array(rcond) * jnp.max(eigenvalues)\n", "    mask = jnp.abs(eigenvalues) >= jnp.array(rcond)\n")])
bug("gkp-loss-responses", "P05", [(CS, "        padded_responses = jnp.vstack((y, jnp.zeros(y.shape[1])))\n", "        padded_responses = jnp.vstack((y - jnp.mean(y, axis=0) * (len(y) > 12), jnp.zeros(y.shape[1])))\n")])
bug("gkp-candidates-held", "P05", [(CS, "            (candidate_batch_indices, initial_coreset_indices[:, jnp.newaxis])\n", "            (candidate_batch_indices, jnp.where(initial_coreset_indices < 0, initial_coreset_indices[0], initial_coreset_indices)[:, jnp.newaxis])\n")])
bug("stein-count", "P04", [(CS, "                ksd + laplace_correction - (i + 1) * regularised_log_pdf\n", "                ksd + laplace_correction - jnp.minimum(i + 1, _coreset_size) * regularised_log_pdf\n")])
bug("herd-count-refine", "P03", [(CS, "        coreset_size = jnp.where(coreset_weights[i] > 0, coreset_size, coreset_size + 1)\n", "        coreset_size = jnp.where(coreset_weights[i] > 0, coreset_size, jnp.minimum(coreset_size + 1, len(data) - 1))\n")])
bug("rpc-underflow", "P06", [(CS, "                    jnp.all(residual_diagonal == 0),\n", "                    jnp.sum(residual_diagonal > 0) <= 1,\n")])
bug("herd-zero-weight-refine", "P08", [(CS, "            data_weights > 0, kernel_similarity_penalty, jnp.nan\n", "            (data_weights > 0) | (jnp.arange(len(data)) == coreset_indices[i]) & (coreset_weights[i] > 0), kernel_similarity_penalty, jnp.nan\n")])
