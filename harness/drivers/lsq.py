"""Regularised least-squares solvers on integer systems."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.random as jr
import numpy as np
from coreax.least_squares import MinimalEuclideanNormSolver, RandomisedEigendecompositionSolver

from harness.common import attempt
from harness.drivers.greedy import pow2

S = 10000


def matrix(rng, n, style):
    if style == "pd":
        A = rng.integers(-1, 2, (n, n))
        A = np.triu(A, 1) + np.triu(A, 1).T
        np.fill_diagonal(A, np.abs(A).sum(1) + rng.integers(1, 4, n))
        return A
    if style == "spread":  # eigenvalues over several orders of magnitude
        d = rng.permutation(np.array([4096, 1, 32, 1, 1024, 2])[:n] if rng.random() < 0.5 else np.array([1024, 1, 16, 3, 64, 1])[:n])
        A = np.diag(d)
        i, j = int(np.argmax(d)), int(np.argmin(d))
        if i != j and d[i] > d[j]:
            A[i, j] = A[j, i] = int(rng.integers(0, 2)) * (1 if d[j] > 0 else 0)
        return A
    if style == "gram":  # rank deficient
        B = rng.integers(-1, 2, (max(1, n - int(rng.integers(1, n + 1))), n))
        return B.T @ B
    if style == "dup":
        A = matrix(rng, n, "pd")
        A[n - 1] = A[0]
        A[:, n - 1] = A[:, 0]
        A[n - 1, n - 1] = A[0, n - 1] = A[n - 1, 0] = A[0, 0]
        return A
    return np.zeros((n, n), int)


def small_kernel(A):
    """rank-deficient test matrices are only useful if small integer vectors span their kernel"""
    n = len(A)
    V = np.array(np.meshgrid(*[[-2, -1, 0, 1, 2]] * n)).reshape(n, -1)
    N = V[:, np.all(A @ V == 0, axis=0)]
    return np.linalg.matrix_rank(N) == n - np.linalg.matrix_rank(A)


@functools.lru_cache(maxsize=None)
def solver(kind, over, power, rcond):
    if kind == "min":
        return eqx.filter_jit(lambda key, A, lam, B, I: MinimalEuclideanNormSolver(rcond=rcond).solve(A, lam, B, I))
    return eqx.filter_jit(lambda key, A, lam, B, I: RandomisedEigendecompositionSolver(
        key, oversampling_parameter=over, power_iterations=power, rcond=rcond).solve(A, lam, B, I))


def rec_solve(A, lam2, idd, B, X, full, x64, what):
    X = np.asarray(X, float)
    fin = bool(np.all(np.isfinite(X)) and np.abs(X).max(initial=0) < 500)
    big = max(1.0, float(np.abs(X).max(initial=0))) if fin else 1.0
    norm = 2 * np.abs(A).sum(1).max() + abs(lam2) + 1
    if fin:  # beyond the integer range of the specification: as good as infinite
        r = np.abs((2 * A + abs(lam2) * np.diag(idd)) @ X - 2 * B).max(initial=0)
        fin = bool(big * norm * S < 1e9 and r * S * norm < 2e9)
    # float32 accuracy scaled by the size of the system; rounding of X contributes norm / 2
    acc = (1e-8 if x64 else 3e-6) * S * norm * big * len(A)
    tol = norm + acc
    return dict(_spec="LeastSquaresTrace", kind="solve", status="ok", what=what, A=A.tolist(), lam2=int(lam2), id=[int(v) for v in idd],
                B=(B * S).tolist(), X=np.round(X * S).astype(int).tolist() if fin else [], nan=not fin, full=bool(full),
                tol=int(tol if full else tol * norm * 2), toln=int(4 + len(A) * 2 + acc))


def runs(seed, kind, n, m, over=25, power=1, rcond=None, x64=False, reps=40, styles=("pd", "gram", "dup", "zero"), block=True):
    rng = np.random.default_rng(seed)
    f = solver(kind, over, power, rcond)
    recs = []
    for i in range(reps):
        style = styles[i % len(styles)]
        if style == "dup" and n < 2:
            style = "pd"
        while True:
            nb = n if not block or rng.random() < 0.5 or n == 1 else int(rng.integers(1, n))
            core = matrix(rng, nb, style if not (style == "dup" and nb < 2) else "pd")
            A = np.zeros((n, n), int)
            A[:nb, :nb] = core
            lam2 = int(rng.choice([0, 1, 2, 4, -1, -2, -4])) if style != "zero" else int(rng.choice([0, 2, -1]))
            idd = np.array([1] * nb + [0] * (n - nb))
            M = 2 * A + abs(lam2) * np.diag(idd)
            if kind == "rand" and np.linalg.matrix_rank(M) > over:
                continue
            if np.linalg.matrix_rank(M) == n or (n <= 4 and small_kernel(M)):
                break
        B = rng.integers(-3, 4, (n, m))
        if nb < n:
            B[nb:] = 0
        if rng.random() < 0.3 and n == m:
            B = np.diag(idd)
        sa, sb = pow2(rng, 12), pow2(rng, 8)
        with jax.enable_x64(x64):
            dt = jnp.float64 if x64 else jnp.float32
            st, X = attempt(lambda: sa / sb * np.asarray(f(jr.key(int(rng.integers(1 << 30))), jnp.asarray(A * sa, dt), jnp.asarray(lam2 * sa / 2, dt),
                                                           jnp.asarray(B * sb, dt), jnp.asarray(np.diag(idd), dt))))
        full = np.linalg.matrix_rank(M) == n
        if st != "ok":
            recs.append(dict(_spec="LeastSquaresTrace", kind="solve", status=X, what=kind))
            continue
        recs.append(rec_solve(A, lam2, idd, B, X, full, x64, f"{kind} over={over} power={power} rcond={rcond} {style}"))
    return recs


def stacks(seed, reps=6):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        n, m, L = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
        key = jr.key(i)
        sol = MinimalEuclideanNormSolver() if i % 2 == 0 else RandomisedEigendecompositionSolver(key)
        A = np.stack([matrix(rng, n, "pd") for _ in range(L)])
        B = rng.integers(-3, 4, (L, n, m))
        I = np.eye(n)
        lam2 = int(rng.choice([0, 1, -2, 4]))
        j = lambda v: jnp.asarray(v, jnp.float32)  # noqa: E731
        if i % 3 == 2:
            lams = rng.choice([0, 1, -2, 4], L)
            call = lambda: sol.solve_stack(j(A), j(lams / 2), j(B), j(np.stack([I] * L)), in_axes=(0, 0, 0, 0))  # noqa: E731
        elif i % 3 == 1:
            lams = [lam2] * L
            B = np.stack([B[0]] * L)
            call = lambda: sol.solve_stack(j(A), lam2 / 2, j(B[0]), j(I), in_axes=(0, None, None, None))  # noqa: E731
        else:
            lams = [lam2] * L
            call = lambda: sol.solve_stack(j(A), lam2 / 2, j(B), j(I))  # noqa: E731
        st, X = attempt(lambda: np.asarray(call()))
        if st != "ok" or X.shape != (L, n, m):
            recs.append(dict(_spec="LeastSquaresTrace", kind="stack", status=str(X) if st != "ok" else f"shape {X.shape}", a=[], b=[]))
            continue
        for q in range(L):
            one = np.asarray(sol.solve(j(A[q]), float(lams[q]) / 2, j(B[q]), j(I)))
            close = np.allclose(X[q], one, rtol=1e-4, atol=1e-4)
            a = np.round(X[q] * 1000).astype(int).tolist()
            recs.append(dict(_spec="LeastSquaresTrace", kind="stack", status="ok", a=a, b=a if close else np.round(one * 1000).astype(int).tolist()))
            recs.append(rec_solve(A[q], int(lams[q]), [1] * n, B[q], X[q], True, False, f"stack {i}"))
    return recs


def guards():
    key = jr.key(0)
    recs = []

    def g(rule, what, v, fn):
        recs.append(dict(_spec="LeastSquaresTrace", kind="guard", status="ok", rule=rule, what=what, h=int(2 * v), isint=isinstance(v, int), accepted=attempt(fn)[0] == "ok"))

    for v in (-1, 0, 1, 5, 1.0, 2.5, -0.5):
        g("over", f"oversampling {v!r}", v, lambda v=v: RandomisedEigendecompositionSolver(key, oversampling_parameter=v))
        g("power", f"power iterations {v!r}", v, lambda v=v: RandomisedEigendecompositionSolver(key, power_iterations=v))
    for v in (-2.0, -1, -0.5, 0.0, 0.001, 1.0):
        g("rcond", f"rcond {v!r}", v, lambda v=v: RandomisedEigendecompositionSolver(key, rcond=v))
    recs[-1]["h"] = 1
    s = RandomisedEigendecompositionSolver(key, oversampling_parameter=3)
    for shape in ((2, 3), (3,), (2, 2, 2), (3, 3)):
        sq = len(shape) == 2 and shape[0] == shape[1]
        recs.append(dict(_spec="LeastSquaresTrace", kind="guard", status="ok", rule="square", what=f"shape {shape}", h=int(sq), isint=True,
                         accepted=attempt(lambda shape=shape: s.randomised_eigendecomposition(jnp.ones(shape)))[0] == "ok"))
    return recs
