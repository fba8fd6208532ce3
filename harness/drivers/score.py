"""Kernel density scores, Stein kernels and conversions."""
import contextlib

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from coreax import kernels as K
from coreax.kernels import SteinKernel
from coreax.score_matching import KernelDensityMatching, ScoreMatching, convert_stein_kernel

from harness.common import attempt
from harness.drivers.kernelalg import build, ints

S = 10000
HS = (5000, 7500, 10000, 14000, 20000)


def x64(on):
    return jax.enable_x64(True) if on else contextlib.nullcontext()


def fix(a, scale=S):
    """(values, nan) - out of range counts as not finite"""
    a = np.asarray(a, float) * scale
    bad = not bool(np.all(np.isfinite(a)) and (a.size == 0 or np.abs(a).max() < 1e8))
    return (np.zeros(a.shape, int) if bad else np.round(a).astype(int)).tolist(), bad


def points(rng, n, d, spread=8):
    return rng.integers(-spread, spread + 1, (n, d))


def kde(seed, reps, n, d, m):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        h = int(rng.choice(HS))
        data = points(rng, n, d)
        if i % 3 == 0 and n > 1:
            data[1] = data[0]
        Q = points(rng, m, d, 10)
        if i % 2:
            Q[0] = data[0]
        lim = 60 * 2 * (h / S) ** 2 * 16      # nearest point well within the range of the exponential
        Q = np.array([q if ((data - q) ** 2).sum(1).min() < lim else data[-1] for q in Q])
        big = i % 4 == 3
        X, qs = data / 4, Q / 4
        with x64(big):
            st, f = attempt(lambda: KernelDensityMatching(h / S).match(jnp.asarray(X, float)))
            outs = []
            if st != "ok":
                outs.append(("match", st, f, 0, ()))
            else:
                outs.append(("batch", *attempt(lambda: np.asarray(f(jnp.asarray(qs, float)))), None, (m, d)))
                outs.append(("jit", *attempt(lambda: np.asarray(eqx.filter_jit(f)(jnp.asarray(qs, float)))), None, (m, d)))
                outs.append(("one row", *attempt(lambda: np.asarray(f(jnp.asarray(qs[:1], float)))), 0, (1, d)))
                outs.append(("point", *attempt(lambda: np.asarray(f(jnp.asarray(qs[0], float)))), 0, (d,)))
                outs.append(("vmap", *attempt(lambda: np.asarray(jax.vmap(f)(jnp.asarray(qs, float)))), None, (m, d)))
                if d == 1:
                    outs.append(("number", *attempt(lambda: np.asarray(f(float(qs[0, 0])))), 0, (1, 1)))
                    outs.append(("zero-dimensional", *attempt(lambda: np.asarray(f(jnp.asarray(qs[0, 0], float)))), 0, (1, 1)))
                if d == 1 and n == 1:
                    outs.append(("number data", *attempt(lambda: np.asarray(KernelDensityMatching(h / S).match(float(X[0, 0]))(float(qs[0, 0])))), 0, (1, 1)))
        for form, st, v, row, want in outs:
            for q in (range(m) if row is None else (0,)):
                r = dict(_spec="ScoreTrace", kind="kde", form=form, data=data.tolist(), h=h, x=Q[q].tolist(), status="ok" if st == "ok" else v,
                         shape=[], want=list(want), s=[], nan=False,
                         tol=int(20 + 15 * np.abs(data - Q[q]).max() / 4 / (h / S) ** 2))
                if st == "ok":
                    r["shape"] = list(v.shape)
                    if v.shape == want:
                        r["s"], r["nan"] = fix(v.reshape(-1, d)[q])
                recs.append(r)
    return recs


class Aff(eqx.Module):
    A: jax.Array
    b: jax.Array

    def __call__(self, z):
        return jnp.asarray(z) @ self.A.T + self.b


def exact(exprs, seed, pts=3):
    rng = np.random.default_rng(seed)
    recs = []
    for ex in exprs:
        d = int(rng.integers(1, 4))
        lim = 2 if d < 3 else 1
        X, Y = rng.integers(-lim, lim + 1, (pts, d)), rng.integers(-lim, lim + 1, (pts, d))
        Y[0] = X[0]
        A, b = rng.integers(-2, 3, (d, d)), rng.integers(-2, 3, d)
        with x64(True):
            sc = Aff(jnp.asarray(A, float), jnp.asarray(b, float))
            xs, ys = jnp.asarray(X, float), jnp.asarray(Y, float)
            st, out = attempt(lambda: (lambda k: dict(
                matrix=np.asarray(k.compute(xs, ys)), single=np.array([[k.compute_elementwise(p, q) for q in ys] for p in xs]),
                mean=np.asarray(k.compute_mean(xs, ys, axis=1)) * pts))(SteinKernel(build(ex), sc)))
        for form in ("matrix", "single"):
            for i in range(pts):
                for j in range(pts):
                    r = dict(_spec="ScoreTrace", kind="exact", form=form, ex=ex, x=X[i].tolist(), y=Y[j].tolist(), A=A.tolist(), b=b.tolist(),
                             status="ok" if st == "ok" else out, v=0, nan=False)
                    if st == "ok":
                        if out[form].shape != (pts, pts):
                            r["status"] = f"shape {out[form].shape}"
                        else:
                            r["v"] = ints(out[form][i, j])
                    recs.append(r)
    return recs


BASES = dict(se=lambda: K.SquaredExponentialKernel(1.2, 1.5), pc=lambda: K.PCIMQKernel(0.8, 1.0), lin=lambda: K.LinearKernel(0.5, 1.0),
             sum=lambda: K.SquaredExponentialKernel(0.9) + K.PCIMQKernel(1.1), rq=lambda: K.RationalQuadraticKernel(1.1, 0.9, 1.5),
             mat=lambda: K.MaternKernel(1.3, 0.8, degree=2), prod=lambda: K.PCIMQKernel(1.2) * K.LinearKernel(0.5, 1.0),
             powk=lambda: K.SquaredExponentialKernel(1.4) ** 2, const=lambda: 0.5 * K.PCIMQKernel(0.9, 1.2),
             lap=lambda: K.LaplacianKernel(1.1, 1.3), expo=lambda: K.ExponentialKernel(0.9, 1.2))


def jets(base, x, y):
    return dict(k=base.compute_elementwise(x, y), gx=base.grad_x_elementwise(x, y), gy=base.grad_y_elementwise(x, y),
                dv=base.divergence_x_grad_y_elementwise(x, y))


def library(seed, reps, lo=0):
    """Stein kernels of library kernels, nested ones included, against the base kernel's own derivatives"""
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(lo, reps, 6):
        d = int(rng.integers(1, 4))
        name = list(BASES)[i % len(BASES)]
        nested = i % 5 == 4
        x, y = (points(rng, 1, d, 6)[0] / 4 for _ in range(2))
        if name in ("lap", "expo"):
            y = x + rng.choice([-3, -2, 1, 2, 5], d) / 4
        elif i % 4 == 1:
            y = x.copy()
        with x64(True):
            data = jnp.asarray(points(rng, 4, d) / 4, float)
            sc = KernelDensityMatching(float(rng.choice([0.8, 1.2, 2.0]))).match(data) if i % 2 else Aff(
                jnp.asarray(rng.integers(-1, 2, (d, d)), float), jnp.asarray(rng.integers(-1, 2, d), float))
            base = BASES[name]()
            if nested:
                base = SteinKernel(K.SquaredExponentialKernel(1.6, 1.0), Aff(jnp.asarray(-np.eye(d)), jnp.zeros(d)))

            def go():
                ker = SteinKernel(base, sc)
                xs, ys = jnp.asarray(x), jnp.asarray(y)
                j = jets(base, xs, ys)
                other = jnp.asarray(points(rng, 2, d, 5) / 4, float)
                full = ker.compute(jnp.vstack([xs[None], other]), jnp.vstack([other, ys[None]]))
                rows = ker.compute_mean(xs[None], ys[None], axis=1)
                vals = dict(single=ker.compute_elementwise(xs, ys), matrix=full[0, 2], mean=rows[0],
                            swapped=ker.compute_elementwise(ys, xs), gram=ker.gramian_row_mean(xs[None], block_size=1)[0])
                return {k: np.asarray(v) for k, v in j.items()}, np.asarray(sc(xs)), np.asarray(sc(ys)), {k: float(v) for k, v in vals.items()}

            st, out = attempt(go)
        if st != "ok":
            recs.append(dict(_spec="ScoreTrace", kind="stein", form=name, status=out, nan=False))
            continue
        j, sx, sy, vals = out
        for form, v in vals.items():
            if form == "gram":
                continue
            r = dict(_spec="ScoreTrace", kind="stein", form=("nested " if nested else name + " ") + form, status="ok", nan=False, tol=5)
            for key, val in dict(j, sx=sx, sy=sy, v=v).items():
                r[key], bad = fix(val)
                r["nan"] = r["nan"] or bad
            recs.append(r)
    return recs


class AffMatcher(ScoreMatching):
    A: jax.Array

    def match(self, x):
        return Aff(self.A, jnp.asarray(x)[0])


def convert(histories, seed):
    rng = np.random.default_rng(seed)
    recs = []
    for hst in histories:
        d = 2
        D = [points(rng, 3, d, 6), points(rng, 4, d, 6)]
        A, A2, b = rng.integers(-1, 2, (d, d)), rng.integers(-1, 2, (d, d)), rng.integers(-2, 3, d)
        x, y = points(rng, 1, d, 5)[0], points(rng, 1, d, 5)[0]
        ops = [o for o in hst["ops"] if o["m"] != "end"]
        # the history so far, up to the first supplied matcher and at the end
        first = next((i for i, o in enumerate(ops) if o["m"] != "none"), len(ops))
        cuts = sorted({1, max(first, 1), len(ops)})
        recs += [_converted(hst, ops[:c], D, A, A2, b, x, y) for c in cuts]
    return recs


def _converted(hst, ops, D, A, A2, b, x, y):
    r = dict(_spec="ScoreTrace", kind="convert", base=hst["base"], stein=hst["stein"], ops=ops, data=[q.tolist() for q in D],
             A=A.tolist(), A2=A2.tolist(), b=b.tolist(), x=x.tolist(), y=y.tolist(), nan=False, tol=220)
    with x64(True):
        def go():
            base = BASES[hst["base"]]()
            ker = SteinKernel(base, Aff(jnp.asarray(A, float), jnp.asarray(b / 4))) if hst["stein"] else base
            for o in ops:
                mt = {"none": lambda: None, "kde1": lambda: KernelDensityMatching(1.0), "kde2": lambda: KernelDensityMatching(0.6),
                      "affine": lambda: AffMatcher(jnp.asarray(A2, float))}[o["m"]]()
                ker = convert_stein_kernel(jnp.asarray(D[o["data"] - 1] / 4, float), ker, mt)
            xs, ys = jnp.asarray(x / 4), jnp.asarray(y / 4)
            return dict({k: np.asarray(v) for k, v in jets(base, xs, ys).items()}, sx=np.asarray(ker.score_function(xs)),
                        sy=np.asarray(ker.score_function(ys)), v=float(ker.compute_elementwise(xs, ys)))

        st, out = attempt(go)
    r["status"] = "ok" if st == "ok" else out
    if st == "ok":
        for key, val in out.items():
            r[key], bad = fix(val)
            r["nan"] = r["nan"] or bad
    return r
