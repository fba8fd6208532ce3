"""Kernels defined by the harness; integer tables make the solvers' arithmetic exact."""
import equinox as eqx
import jax.numpy as jnp
from coreax.kernels import ScalarValuedKernel, SteinKernel


def _id(x):
    return jnp.round(jnp.ravel(jnp.asarray(x))[0]).astype(jnp.int32)


class TableKernel(ScalarValuedKernel):
    """k(x, y) = table[x_0, y_0]; the first feature of a point is its identifier (0 = padding)."""

    table: jnp.ndarray

    def compute_elementwise(self, x, y):
        return self.table[_id(x), _id(y)]


class TableSteinKernel(SteinKernel):
    """A Stein kernel whose values are a table; score function supplied."""

    table: jnp.ndarray = None

    def __init__(self, base_kernel, score_function, table):
        self.base_kernel = base_kernel
        self.score_function = score_function
        self.table = table

    def compute_elementwise(self, x, y):
        return self.table[_id(x), _id(y)]


def padded_table(K):
    """n x n -> (n+1) x (n+1) with row/column 0 for the padding point (arbitrary values)."""
    import numpy as np

    n = len(K)
    t = np.full((n + 1, n + 1), 3.0, dtype=np.float32)
    t[1:, 1:] = K
    return jnp.asarray(t)
