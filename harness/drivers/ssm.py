"""Sliced score matching, observed through a user-supplied optimiser and generator.

The optimiser puts the parameters at chosen integers in its first step and afterwards moves
them by minus the gradient it is given, so evaluating the returned score function reveals
exactly which gradients the training produced."""
import jax
import jax.numpy as jnp
import jax.random as jr
import jax.tree_util as jtu
import numpy as np
import optax
from coreax.score_matching import SlicedScoreMatching

from harness.common import attempt

TARGET = {}  # shape -> array, read when the optimiser state is created
VECTORS = {}


def _init(params):
    return (jnp.zeros((), jnp.int32), jtu.tree_map(lambda p: TARGET.get(p.shape, jnp.zeros(p.shape)) + 0.0, params))


def _update(grads, state, params=None):
    k, target = state
    upd = jtu.tree_map(lambda t, p, g: jnp.where(k == 0, t - p, -g), target, params, grads)
    return upd, (k + 1, target)


PLACE = optax.GradientTransformation(_init, _update)
COUNT = optax.GradientTransformation(lambda params: (), lambda g, s, params=None: (
    jtu.tree_map(lambda q: jnp.ones_like(q) if q.ndim == 1 else jnp.zeros_like(q), g), s))


def vectors(key, shape, dtype):
    v = VECTORS["v"]
    if tuple(shape) != v.shape:
        raise ValueError(f"asked for projections of shape {shape}")
    return jnp.asarray(v, dtype)


def matcher(key, opt=PLACE, **k):
    k = dict(dict(noise_conditioning=False, hidden_dims=()), **k)
    return SlicedScoreMatching(jr.key(key), vectors, optimiser=opt, **k)


def affine(score, d):
    """parameters of an affine score function"""
    out = np.asarray(score(jnp.concatenate([jnp.zeros((1, d)), jnp.eye(d)])), float)
    return out[1:] - out[0], out[0]


def setup(rng, n, m, d, lim=2, zero_w=False, zero_b=False):
    X = rng.integers(-lim, lim + 1, (n, d))
    V = rng.integers(-lim, lim + 1, (n, m, d))
    W = rng.integers(-lim, lim + 1, (d, d)) * (not zero_w)
    b = rng.integers(-lim, lim + 1, d) * (not zero_b)
    TARGET.clear()
    TARGET.update({(d, d): jnp.asarray(W, jnp.float32), (d,): jnp.asarray(b, jnp.float32)})
    VECTORS["v"] = V
    return X, V, W, b


def ints(a, s=1):
    a = np.nan_to_num(np.asarray(a, float) * s, nan=9e8, posinf=9e8, neginf=9e8)
    return np.clip(np.round(a), -9e8, 9e8).astype(int).tolist()


def one(seed, n, m, d, batch, an=False, reps=10):
    rng = np.random.default_rng(seed)
    recs = []
    for _ in range(reps):
        X, V, W, b = setup(rng, n, m, d)
        st, v = attempt(lambda: affine(matcher(int(rng.integers(1 << 30)), use_analytic=an, num_random_vectors=m, num_epochs=2, batch_size=batch)
                                       .match(jnp.asarray(X, jnp.float32)), d))
        r = dict(_spec="SSMTrace", kind="one", status="ok" if st == "ok" else v, X=X.tolist(), V=V.tolist(), W=W.tolist(), b=b.tolist(), an=an, batch=batch, W1=[], b1=[])
        if st == "ok":
            r.update(W1=ints(W - v[0], batch * m), b1=ints(b - v[1], batch * m))
        recs.append(r)
    return recs


def chain(seed, n, d, steps, an=False, reps=10):
    rng = np.random.default_rng(seed)
    recs = []
    for _ in range(reps):
        X, V, W, b = setup(rng, n, 1, d, lim=1)
        st, v = attempt(lambda: affine(matcher(int(rng.integers(1 << 30)), use_analytic=an, num_epochs=1 + steps, batch_size=1)
                                       .match(jnp.asarray(X, jnp.float32)), d))
        r = dict(_spec="SSMTrace", kind="chain", status="ok" if st == "ok" else v, X=X.tolist(), V=V.tolist(), W=W.tolist(), b=b.tolist(), an=an, steps=steps, W1=[], b1=[])
        if st == "ok":
            r.update(W1=ints(v[0]), b1=ints(v[1]))
        recs.append(r)
    return recs


def noise(seed, d, batch, levels, sigma, gamma, an=False, reps=6):
    """levels with sigma, gamma powers of two"""
    rng = np.random.default_rng(seed)
    recs = []
    sig = [sigma * gamma**i for i in range(levels)]
    den = 1
    while any((den * s * s) % 1 for s in sig):
        den *= 2
    num = int(den * sum(s * s for s in sig))
    for i in range(reps):
        X, V, W, b = setup(rng, 1, 1, d, zero_w=True, zero_b=i % 2 == 0)
        st, v = attempt(lambda: affine(matcher(int(rng.integers(1 << 30)), use_analytic=an, num_epochs=2, batch_size=batch, noise_conditioning=True,
                                               num_noise_models=levels, sigma=sigma, gamma=gamma).match(jnp.asarray(X, jnp.float32)), d))
        eb = num * np.abs((b if an else (V[0, 0] @ b) * V[0, 0])).max()
        r = dict(_spec="SSMTrace", kind="noise", status="ok" if st == "ok" else v, X=X.tolist(), V=V.tolist(), W=W.tolist(), b=b.tolist(), an=an, batch=batch,
                 num=num, den=den, W1=[], b1=[], tol=2 + int(batch * eb * 1e-4), cube=int(np.ceil(6 * sigma)), perturbed=bool(eb > 8))
        if st == "ok":
            r.update(W1=ints(W - v[0], batch * den), b1=ints(b - v[1], batch * den))
        recs.append(r)
    return recs


def spread(seed, reps=4, batch=4096):
    """analytic objective at x = 0, b = 0, W = I: the gradient is v v' + sigma^2 mean(e e')"""
    rng = np.random.default_rng(seed)
    recs = []
    d = 3
    for i in range(reps):
        sigma = [0.5, 1.0, 2.0, 4.0][i % 4]
        TARGET.clear()
        TARGET.update({(d, d): jnp.eye(d), (d,): jnp.zeros(d)})
        VECTORS["v"] = np.zeros((1, 1, d))
        st, v = attempt(lambda: affine(matcher(int(rng.integers(1 << 30)), use_analytic=True, num_epochs=2, batch_size=batch, noise_conditioning=True,
                                               num_noise_models=1, sigma=sigma, gamma=0.5).match(jnp.zeros((1, d))), d))
        r = dict(_spec="SSMTrace", kind="spread", status="ok" if st == "ok" else v, ms=[], lo=860, hi=1140)
        if st == "ok":
            r["ms"] = ints(np.diag(np.eye(d) - v[0]) / sigma**4, 1000)
        recs.append(r)
    return recs


def rows(seed, n=3, batch=3000, noise=False):
    """rows with unit projections e_i and b = 1, W = 0: the bias gradient counts how often each row was used,
    the weight gradient pairs each use with that row's features"""
    rng = np.random.default_rng(seed)
    X = rng.integers(-3, 4, (n, n))
    TARGET.clear()
    TARGET.update({(n, n): jnp.zeros((n, n)), (n,): jnp.ones(n)})
    VECTORS["v"] = np.eye(n)[:, None, :]
    st, v = attempt(lambda: affine(matcher(int(rng.integers(1 << 30)), num_epochs=2, batch_size=batch).match(jnp.asarray(X, jnp.float32)), n))
    dev = 6 * np.sqrt(batch / n * (1 - 1 / n)) + 3
    r = dict(_spec="SSMTrace", kind="rows", status="ok" if st == "ok" else v, X=X.tolist(), batch=batch, b1=[], W1=[], lo=int(batch / n - dev), hi=int(batch / n + dev))
    if st == "ok":
        r.update(b1=ints(1 - v[1], batch), W1=ints(-v[0], batch))
    return [r]


def count(seed, reps=4):
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        n, d = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        epochs = [0, 1, 3, 7, 12][i % 5]
        X, V, _, _ = setup(rng, n, 2, d)
        key = int(rng.integers(1 << 30))
        k = dict(num_random_vectors=2, batch_size=int(rng.integers(1, 6)), noise_conditioning=bool(i % 2), num_noise_models=3)
        x = jnp.asarray(X, jnp.float32)
        st, v = attempt(lambda: [affine(matcher(key, COUNT, num_epochs=e, **k).match(x), d) for e in (0, epochs)])
        r = dict(_spec="SSMTrace", kind="count", status="ok" if st == "ok" else v, moved=[], epochs=epochs)
        if st == "ok":
            r["moved"] = ints(v[1][1] - v[0][1])
            recs.append(dict(_spec="SSMTrace", kind="same", status="ok", what="weights the optimiser leaves alone", a=ints(v[0][0], 1e4), c=ints(v[1][0], 1e4)))
        recs.append(r)
    return recs


# Second step of REVEAL: everything zero except the last bias, which receives one piece of the gradient.
def _rev_init(params):
    TARGET["leaves"] = [p.shape for p in jtu.tree_leaves(params)]
    return (jnp.zeros((), jnp.int32), jnp.asarray(TARGET["piece"], jnp.int32), jtu.tree_map(lambda p: TARGET[p.shape] + 0.0, params))


def _rev_update(grads, state, params=None):
    k, piece, target = state
    flat = jnp.concatenate([g.ravel() for g in jtu.tree_leaves(grads)])
    shapes = [p.shape for p in jtu.tree_leaves(params)]
    d = [q for q in shapes if len(q) == 1][-1]
    part = jax.lax.dynamic_slice(jnp.pad(flat, (0, d[0])), (piece * d[0],), d)
    upd = jtu.tree_map(lambda t, p: jnp.where(k == 0, t - p, (part if p.shape == d else jnp.zeros_like(p)) - p), target, params)
    return upd, (k + 1, piece, target)


REVEAL = optax.GradientTransformation(_rev_init, _rev_update)


def hidden(seed, d, h, an=False, batch=2, reps=8):
    """networks with one hidden layer, d # h; the whole gradient"""
    rng = np.random.default_rng(seed)
    recs = []
    for _ in range(reps):
        T = {s: rng.integers(-1, 2, s) for s in ((d, h), (h,), (h, d), (d,))}
        X, V = rng.integers(-1, 2, (1, d)), rng.integers(-1, 2, (1, 1, d))
        TARGET.clear()
        TARGET.update({s: jnp.asarray(v, jnp.float32) for s, v in T.items()})
        VECTORS["v"] = V
        key = int(rng.integers(1 << 30))
        x = jnp.asarray(X, jnp.float32)
        k = dict(hidden_dims=(h,), batch_size=batch, use_analytic=an)

        def go():
            TARGET["piece"] = 0
            s0 = np.asarray(matcher(key, REVEAL, num_epochs=1, **k).match(x)(x), float)[0]
            size = 2 * d * h + h + d
            g = []
            for piece in range(-(-size // d)):
                TARGET["piece"] = piece
                g.extend(np.asarray(matcher(key, REVEAL, num_epochs=2, **k).match(x)(x), float)[0])
            out, at = {}, 0
            for s in TARGET["leaves"]:
                out[s] = np.reshape(g[at:at + int(np.prod(s))], s)
                at += int(np.prod(s))
            return s0, out

        st, v = attempt(go)
        r = dict(_spec="SSMTrace", kind="hidden", status="ok" if st == "ok" else v, W=T[d, h].tolist(), b=T[h,].tolist(), W2=T[h, d].tolist(), b2=T[d,].tolist(),
                 x=X[0].tolist(), v=V[0, 0].tolist(), an=an, s=[], gb=[], gw=[], hb=[], hw=[], tol=12)
        if st == "ok":
            g = v[1]
            r.update(s=ints(v[0], 1e4), gb=ints(g[d,], 1e4), gw=ints(g[h, d], 1e4), hb=ints(g[h,], 1e4), hw=ints(g[d, h], 1e4))
        recs.append(r)
    return recs


def replay(seed, reps=3):
    """equal settings give equal networks; single points are evaluated like batches"""
    rng = np.random.default_rng(seed)
    recs = []
    for i in range(reps):
        n, d = int(rng.integers(2, 6)), int(rng.integers(1, 4))
        x = jnp.asarray(rng.normal(size=(n, d)), jnp.float32)
        key = jr.key(int(rng.integers(1 << 30)))
        k = dict(num_epochs=[0, 2, 5][i % 3], batch_size=3, hidden_dims=[(), (4,), (5, 3)][i % 3], noise_conditioning=i % 2 == 0, num_noise_models=4, num_random_vectors=2)
        gen = jr.rademacher if i % 2 else jr.normal
        st, v = attempt(lambda: [SlicedScoreMatching(key, gen, **k).match(x) for _ in range(2)])
        if st != "ok":
            recs.append(dict(_spec="SSMTrace", kind="same", status=v, what="", a=[], c=[]))
            continue
        q = jnp.asarray(rng.normal(size=(4, d)), jnp.float32)
        st, v = attempt(lambda: [ints(v[0](q), 1e4), ints(v[1](q), 1e4), np.asarray([np.asarray(v[0](p)) for p in q]), np.asarray(v[0](q))])
        ok = st == "ok"
        recs.append(dict(_spec="SSMTrace", kind="same", status="ok" if ok else v, what="two trainings with equal arguments", a=v[0] if ok else [], c=v[1] if ok else []))
        if ok:
            recs.append(dict(_spec="SSMTrace", kind="same", status="ok", what="single points and batches", a=[list(q.shape)] + ints(v[3], 1e4),
                             c=[list(v[2].shape)] + (ints(v[3], 1e4) if v[2].shape == v[3].shape and np.allclose(v[2], v[3], atol=1e-4) else ints(v[2], 1e4))))
    return recs


def guards():
    recs = []
    for name, rule in (("num_epochs", "nonneg"), ("batch_size", "nonneg"), ("num_random_vectors", "pos"), ("num_noise_models", "pos")):
        for val in (-3, -1, 0, 1, 2, 7, 1.5, 2.0):
            st, v = attempt(lambda: SlicedScoreMatching(jr.key(0), jr.normal, **{name: val}))
            recs.append(dict(_spec="SSMTrace", kind="guard", status="ok", what=f"{name}={val}", rule=rule, isint=isinstance(val, int), h=int(val), accepted=st == "ok"))
    return recs
