"""Kernel expressions: values, derivatives, calling forms and refused constructions."""
import itertools

import jax
import jax.numpy as jnp
import numpy as np
from coreax import kernels as K
from coreax.kernels import base as KB

from harness.common import attempt

S = 10000
U = 10**7
H = 1 / 32


def build(ex, scale=1, left=False):
    """library kernel of an expression; parameters divided by scale (1: integers, S: fixed point)"""
    op, p, s = ex["op"], ex["p"], ex["s"]
    q = [v / scale for v in p]
    if op == "lin":
        return K.LinearKernel(output_scale=q[0], constant=q[1])
    if op == "poly":
        return K.PolynomialKernel(output_scale=q[0], constant=q[1], degree=p[2])
    if op == "exp":
        return K.ExponentialKernel(output_scale=q[0], length_scale=q[1])
    if op == "lap":
        return K.LaplacianKernel(output_scale=q[0], length_scale=q[1])
    if op == "se":
        return K.SquaredExponentialKernel(output_scale=q[0], length_scale=q[1])
    if op == "pc":
        return K.PCIMQKernel(output_scale=q[0], length_scale=q[1])
    if op == "rq":
        return K.RationalQuadraticKernel(output_scale=q[0], length_scale=q[1], relative_weighting=p[2] / 2)
    if op == "mat":
        return K.MaternKernel(output_scale=q[0], length_scale=q[1], degree=p[2])
    if op == "per":
        return K.PeriodicKernel(output_scale=q[0], length_scale=q[1], periodicity=q[2])
    if op == "lp":
        return K.LocallyPeriodicKernel(periodic_output_scale=q[0], periodic_length_scale=q[1], periodicity=q[2],
                                       squared_exponential_output_scale=q[3], squared_exponential_length_scale=q[4])
    if op == "poi":
        return K.PoissonKernel(output_scale=q[0], index=q[1])
    if op == "pow":
        return build(s[0], scale) ** p[0]
    if op == "const":
        raise ValueError
    a, b = s
    num = lambda e: e["p"][0] / scale if e["p"][0] % scale else e["p"][0] // scale  # noqa: E731
    if a["op"] == "const":
        k = build(b, scale)
        return num(a) + k if op == "add" else num(a) * k
    if b["op"] == "const":
        k = build(a, scale)
        return k + num(b) if op == "add" else k * num(b)
    a, b = build(a, scale), build(b, scale)
    return a + b if op == "add" else a * b


def ints(a, scale=1):
    a = np.asarray(a, float) * scale
    if not np.all(np.isfinite(a)):
        a = np.where(np.isfinite(a), a, 2.0e9)
    a = np.clip(np.round(a), -2.0e9, 2.0e9)
    return a.astype(int).tolist()


def exact(exprs, seed, pts=3):
    rng = np.random.default_rng(seed)
    recs = []
    for ex in exprs:
        d = int(rng.integers(1, 4))
        lim = 2 if d < 3 else 1
        X = rng.integers(-lim, lim + 1, (pts, d))
        Y = rng.integers(-lim, lim + 1, (pts, d))
        Y[0] = X[0]
        st, k = attempt(build, ex)
        with jax.enable_x64(True):
            xs, ys = jnp.asarray(X, float), jnp.asarray(Y, float)
            if st == "ok":
                st, out = attempt(lambda: [np.asarray(f(xs, ys)) for f in (k.compute, k.grad_x, k.grad_y, k.divergence_x_grad_y)]
                                  + [np.asarray(k.compute(ys, xs))])
            else:
                out = k
        for i in range(pts):
            r = dict(_spec="KernelTrace", kind="exact", ex=ex, x=X[i].tolist(), y=Y[i].tolist(), status="ok" if st == "ok" else out)
            if st == "ok":
                v, gx, gy, dv, vs = out
                ok = v.shape == (pts, pts) and gx.shape == gy.shape == (pts, pts, d) and dv.shape == (pts, pts)
                if not ok:
                    r["status"] = f"shapes {v.shape} {gx.shape} {gy.shape} {dv.shape}"
                else:
                    r.update(v=ints(v[i, i]), gx=ints(gx[i, i]), gy=ints(gy[i, i]), dv=ints(dv[i, i]), vs=ints(vs[i, i]))
            recs.append(r)
    return recs


def leaf(rng, d, unit_periodic=True):
    a = int(rng.choice([5000, 10000, 15000, 22500]))
    ln = int(rng.choice([7500, 10000, 12500, 16000]))
    ops = ["lin", "poly", "exp", "lap", "se", "pc", "rq", "mat", "per", "lp", "se", "pc", "rq", "mat"] + (["poi", "poi"] if d == 1 else [])
    op = str(rng.choice(ops))
    p = {"lin": [a, 5000 * int(rng.integers(0, 3))], "poly": [5000, 5000 * int(rng.integers(0, 3)), int(rng.integers(2, 4))],
         "rq": [a, ln, int(rng.choice([1, 2, 3, 4, 6]))], "mat": [int(rng.choice([5000, 10000, 12500])), ln, int(rng.integers(0, 4))],
         "per": [10000 if unit_periodic else 15000, ln, int(rng.choice([15000, 20000, 30000]))],
         "lp": [10000 if unit_periodic else 15000, ln, int(rng.choice([15000, 20000, 30000])), a, ln],
         "poi": [a, int(rng.choice([2500, 5000, 6500]))]}.get(op, [a, ln])
    return dict(op=op, p=p, s=[])


def tree(rng, d, depth, first=None):
    e = first or leaf(rng, d)
    for _ in range(depth):
        k = int(rng.integers(0, 5))
        if k == 0:
            e = dict(op="add", p=[], s=[e, leaf(rng, d)])
        elif k == 1:
            e = dict(op="mul", p=[], s=[leaf(rng, d), e])
        elif k == 2:
            e = dict(op="pow", p=[int(rng.integers(1, 4))], s=[e])
        else:
            c = dict(op="const", p=[int(rng.choice([0, 5000, 10000, 20000]))], s=[])
            e = dict(op=str(rng.choice(["add", "mul"])), p=[], s=[c, e] if k == 3 else [e, c])
    return e


def ops_of(e):
    return {(e["op"], tuple(e["p"]))}.union(*(ops_of(s) for s in e["s"]))


def smooth(seed, count, depth=0, first=None, spoiled=False):
    """count expressions, evaluated at a generic pair and, where differentiable, at a coincident pair"""
    rng = np.random.default_rng(seed)
    recs = []
    for c in range(count):
        d = int(rng.integers(1, 4))
        if first is not None and first["op"] == "poi":
            d = 1
        e = tree(rng, d, depth, first)
        if spoiled:
            e = leaf(rng, d, unit_periodic=False)
            while e["op"] not in ("per", "lp"):
                e = leaf(rng, d, unit_periodic=False)
        names = ops_of(e)
        kinds = {n for n, _ in names}
        kink0 = bool(kinds & {"exp", "lap", "per", "lp"} or ("mat" in kinds and any(n == "mat" and p[2] == 0 for n, p in names)))
        rough = any(n == "mat" and p[2] == 1 for n, p in names)
        st, k = attempt(build, e, S)
        for pair in range(3):
            while True:
                x = rng.integers(-6, 7, d)
                y = rng.integers(-6, 7, d)
                if "poi" in kinds:
                    x, y = rng.integers(0, 24, d), rng.integers(0, 24, d)
                if pair == 2:
                    y = x.copy()
                if ("lin" in kinds or "poly" in kinds) and (np.abs(x).sum() > 8 or np.abs(y).sum() > 8):
                    continue
                if pair < 2 and (np.linalg.norm(x - y) < 3 or np.linalg.norm(x - y) > 14):
                    continue
                if pair < 2 and "lap" in kinds and np.any(x == y):
                    continue
                break
            if pair == 2 and (kink0 or (rough and depth > 0)):
                continue
            r = dict(_spec="KernelTrace", kind="smooth", ex=e, x=x.tolist(), y=y.tolist(), status="ok" if st == "ok" else k)
            if st == "ok":
                offs = [np.zeros(d)] + [a * H * np.eye(d)[i] for i in range(d) for a in (-2, -1, 1, 2)]
                with jax.enable_x64(True):
                    xs = jnp.asarray(x / 4 + np.array(offs))
                    ys = jnp.asarray(y / 4 + np.array(offs))
                    s2, out = attempt(lambda: (np.asarray(k.compute(xs, ys)), np.asarray(k.grad_x(xs[:1], ys[:1])),
                                               np.asarray(k.grad_y(xs[:1], ys[:1])), np.asarray(k.divergence_x_grad_y(xs[:1], ys[:1])),
                                               float(k.compute(ys[:1], xs[:1])[0, 0])))
                if s2 != "ok":
                    r["status"] = out
                else:
                    V, gx, gy, dv, vs = out
                    if V.shape != (len(offs),) * 2 or gx.shape != (1, 1, d) or gy.shape != (1, 1, d) or dv.shape != (1, 1):
                        r["status"] = f"shapes {V.shape} {gx.shape} {gy.shape} {dv.shape}"
                    else:
                        fin = all(np.all(np.isfinite(a)) for a in (V, gx, gy, dv))
                        big = max(np.abs(V).max(), np.abs(gx).max(), np.abs(gy).max(), np.abs(dv).max() / 2) if fin else 0
                        if big > 60:
                            continue
                        slack = 1 if not rough or pair < 2 else 1 + 4e6 * abs(dv[0, 0]) / 50000
                        mag = 1 + big
                        nops = depth + 1
                        r.update(nan=not fin, v=ints(V[0, 0], U), vs=ints(vs, U), gx=ints(gx[0, 0], U), gy=ints(gy[0, 0], U), dv=ints(dv[0, 0], U),
                                 FX=[ints(V[1 + 4 * i:5 + 4 * i, 0], U) for i in range(d)], FY=[ints(V[0, 1 + 4 * i:5 + 4 * i], U) for i in range(d)],
                                 FXY=[ints(V[1 + 4 * i:5 + 4 * i, 1 + 4 * i:5 + 4 * i], U) for i in range(d)],
                                 tolv=int(15 + 15 * nops * mag), tolg=int(10000 * mag), told=int(50000 * mag * slack))
            if spoiled:
                r["_meta"] = dict(finding="periodic-divergence-scale")
            recs.append(r)
    return recs


def forms(seed, count):
    """scalars, zero-dimensional arrays, vectors and matrices against single-point evaluation"""
    rng = np.random.default_rng(seed)
    recs = []
    for c in range(count):
        d = 1 if c % 2 else int(rng.integers(2, 4))
        e = tree(rng, d, int(rng.integers(0, 3)))
        k = build(e, S)
        n, m = ((2, 1), (1, 2), (3, 1), (2, 2))[c % 4]
        X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, d)) + 0.3
        for name, tail in (("compute", 0), ("grad_x", 1), ("grad_y", 1), ("divergence_x_grad_y", 0)):
            el = getattr(k, name + "_elementwise")
            cases = [("matrix", X, Y, n, m), ("vector", X[0], Y[0], 1, 1), ("mixed", X, Y[0], n, 1)]
            if d == 1:
                cases += [("float", float(X[0, 0]), float(Y[0, 0]), 1, 1), ("0-d", np.asarray(X[0, 0]), np.asarray(Y[0, 0]), 1, 1)]
            for form, x, y, a, b in cases:
                with jax.enable_x64(True):
                    cv = lambda v: v if isinstance(v, float) else jnp.asarray(v)  # noqa: E731
                    st, got = attempt(lambda: np.asarray(getattr(k, name)(cv(x), cv(y))))
                    if form in ("float", "0-d"):
                        st2, ref = attempt(lambda: np.asarray(el(cv(x), cv(y))))
                    else:
                        st2, ref = attempt(lambda: np.stack([np.stack([np.asarray(el(jnp.asarray(X[i]), jnp.asarray(Y[j]))) for j in range(b)]) for i in range(a)]))
                r = dict(_spec="KernelTrace", kind="forms", ex=e, form=f"{name} {form}", status="ok")
                if st != "ok" or st2 != "ok":
                    r["status"] = str(got if st != "ok" else ref)
                else:
                    r.update(shape=list(got.shape), want=[a, b] + [d] * tail, got=ints(got.ravel(), 10**5), ref=ints(ref.ravel(), 10**5))
                recs.append(r)
    return recs


def guards():
    recs = []
    mk = {
        "pow": [(f"power {v!r}", lambda v=v: K.LinearKernel() ** v, v) for v in (-1, 0, 1, 2, 3, 0.5, 1.5, 2.0, -2.0)]
        + [(f"PowerKernel {v!r}", lambda v=v: KB.PowerKernel(K.PCIMQKernel(), v), v) for v in (-1, 0, 1, 2, 1.0)],
        "const": list(itertools.chain.from_iterable(
            [(f"{n} {v!r}", f, v) for n, f in (("k+", lambda v=v: K.LaplacianKernel() + v), ("+k", lambda v=v: v + K.LaplacianKernel()),
                                               ("k*", lambda v=v: K.LaplacianKernel() * v), ("*k", lambda v=v: v * K.LaplacianKernel()))]
            for v in (-2, -0.5, 0, 0.0, 0.5, 1, 3))),
        "positive": [(f"{c.__name__} {f} {v}", lambda c=c, f=f, v=v: c(**{f: v}), v)
                     for c in (K.ExponentialKernel, K.LaplacianKernel, K.SquaredExponentialKernel, K.PCIMQKernel, K.RationalQuadraticKernel,
                               K.MaternKernel, K.PeriodicKernel) for f in ("length_scale", "output_scale") for v in (-1.0, 0.0, 0.5, 2.0)]
        + [(f"{c.__name__} output_scale {v}", lambda c=c, v=v: c(output_scale=v), v) for c in (K.LinearKernel, K.PolynomialKernel, K.PoissonKernel) for v in (-1.0, 0.0, 0.5)],
        "nonneg": [(f"{c.__name__} constant {v}", lambda c=c, v=v: c(constant=v), v) for c in (K.LinearKernel, K.PolynomialKernel) for v in (-1.0, 0.0, 0.5)]
        + [("rq weighting negative", lambda: K.RationalQuadraticKernel(relative_weighting=-1.0), -1.0)],
        "degree2": [(f"polynomial degree {v}", lambda v=v: K.PolynomialKernel(degree=v), v) for v in (-1, 0, 1, 2, 3, 2.5, 2.0)],
        "degree0": [(f"matern degree {v}", lambda v=v: K.MaternKernel(degree=v), v) for v in (-1, 0, 1, 2, 1.5, 1.0)],
        "unit": [(f"poisson index {v}", lambda v=v: K.PoissonKernel(index=v), v) for v in (-0.5, 0.0, 0.5, 1.0, 1.5)],
        "operand": [(f"{o} {v!r}", lambda o=o, v=v: (K.LinearKernel() + v if o == "add" else K.LinearKernel() * v), 0) for o in ("add", "mul") for v in ("1", None, [1.0])]
        + [("additive of a function", lambda: KB.AdditiveKernel(K.LinearKernel(), lambda x, y: 1.0), 0),
           ("product of a number", lambda: KB.ProductKernel(2.0, K.LinearKernel()), 0), ("power of a number", lambda: KB.PowerKernel(2.0, 2), 0)],
    }
    for rule, cases in mk.items():
        for what, f, v in cases:
            st, _ = attempt(f)
            recs.append(dict(_spec="KernelTrace", kind="guard", status="ok", rule=rule, what=what, h=int(2 * v), isint=isinstance(v, int), accepted=st == "ok"))
    return recs


def sqrts(seed, count):
    """the square-root kernel convolved with itself is the kernel (sum over a grid)"""
    rng = np.random.default_rng(seed)
    recs = []
    for c in range(count):
        d = 1 + c % 2
        ln, a = float(rng.choice([0.75, 1.0, 1.5])), float(rng.choice([0.5, 1.0, 2.25]))
        k = K.SquaredExponentialKernel(length_scale=ln, output_scale=a)
        st, rt = attempt(k.get_sqrt_kernel, d)
        x, y = rng.normal(size=d) * 0.5, rng.normal(size=d) * 0.5
        h = 0.5 * ln
        axis = np.arange(-9, 10) * h
        Z = np.array(list(itertools.product(axis, repeat=d)))
        r = dict(_spec="KernelTrace", kind="sqrt", status="ok" if st == "ok" else rt, what=f"d={d} length={ln} scale={a}")
        if st == "ok":
            with jax.enable_x64(True):
                j = jnp.asarray
                r.update(A=ints(np.asarray(rt.compute(j(x)[None], j(Z)))[0], S), B=ints(np.asarray(rt.compute(j(Z), j(y)[None]))[:, 0], S),
                         cell=int(round(h**d * S)), v=ints(np.asarray(k.compute(j(x)[None], j(y)[None]))[0, 0], S))
        recs.append(r)
    return recs
