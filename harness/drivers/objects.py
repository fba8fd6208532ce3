"""Replay of TLC-generated histories of data / coreset operations."""
import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
from coreax.coreset import Coresubset, PseudoCoreset
from coreax.data import Data, SupervisedData, as_data, as_supervised_data
from coreax.util import tree_zero_pad_leading_axis
from coreax.weights import WeightsOptimiser

S = 5040000


class StubWeights(WeightsOptimiser):
    """Answers with prescribed weights."""

    answer: jnp.ndarray

    def solve(self, dataset, coreset, epsilon=1e-10):
        return self.answer


def ints(a):
    a = np.asarray(a)
    if not np.all(np.isfinite(a)) or np.any(a != np.round(a)):
        return [["not an integer"]]
    return a.astype(int).tolist()


def dataset(d):
    w = np.asarray(d.weights, float)
    return dict(X=ints(d.data), Y=ints(d.supervision) if isinstance(d, SupervisedData) else [],
                W=[int(round(v * S)) if np.isfinite(v) and abs(v) < 200 else -10**9 for v in w.ravel()] if w.ndim == 1 else [],
                n=len(d), A=ints(jnp.asarray(d)))


NONE = dict(X=[], Y=[], W=[], n=0, A=[])


def observe(o):
    if isinstance(o, Data):
        return dict(kind="data", rows=dataset(o), pre=NONE, idx=[], err="")
    b = dict(kind="subset" if isinstance(o, Coresubset) else "pseudo", rows=dataset(o.points), pre=dataset(o.pre_coreset_data), idx=[], err="")
    if len(o) != len(o.points):
        b["kind"] = "coreset of inconsistent length"
    if isinstance(o, Coresubset):
        b["idx"] = [int(i) + 1 for i in np.asarray(o.unweighted_indices)]
    return b


def warg(op, n, f):
    if op["wkind"] == "none":
        return None
    if op["wkind"] == "scalar":
        return f(op["W"][0])
    return jnp.asarray(np.asarray(op["W"]) / op["div"], jnp.float32)


def apply(o, op, variant):
    k = op["op"]
    num = [float, int, jnp.asarray][variant % 3]
    if k == "new":
        X = jnp.asarray(op["X"], jnp.float32 if variant % 2 else jnp.int32)
        if op["form"] == "vector":
            X = X[:, 0]
        elif op["form"] == "scalar":
            X = X[0, 0] if variant % 2 else float(X[0, 0])
        w = warg(op, len(op["X"]), num)
        args = () if w is None else (w,)
        if not op["Y"]:
            return Data(X, *args)
        Y = jnp.asarray(op["Y"], jnp.float32)
        if Y.shape[1] == 1 and variant % 2:
            Y = Y[:, 0]
        if w is None and variant % 3 == 0:
            return as_supervised_data((X, Y))
        return SupervisedData(X, Y, *args)
    if k == "take":
        n = len(o)
        sel = np.asarray(op["sel"]) - 1
        if op["via"] == "mask":
            m = np.zeros(n, bool)
            m[sel] = True
            return o[jnp.asarray(m)]
        if op["via"] == "slice":
            step = int(sel[1] - sel[0]) if len(sel) > 1 else 1
            if step < 0:
                return o[::-1]
            return o[int(sel[0]):int(sel[-1]) + 1:step]
        return o[jnp.asarray(sel)] if variant % 2 else o[sel]
    if k == "pad":
        return tree_zero_pad_leading_axis(o, op["k"])
    if k == "norm":
        return o.normalize()
    if k == "normz":
        return o.normalize(preserve_zeros=True)
    if k == "jit":
        if variant % 2:
            return eqx.filter_jit(lambda v: v)(o)
        leaves, tree = jtu.tree_flatten(o)
        return jtu.tree_unflatten(tree, leaves)
    if k == "asdata":
        return as_data(o)
    if k in ("subset", "pseudo"):
        cls = Coresubset if k == "subset" else PseudoCoreset
        raw = jnp.asarray(np.asarray(op["sel"]) - 1 if k == "subset" else op["X"], jnp.int32 if k == "subset" else jnp.float32)
        w = warg(op, len(raw), num)
        nodes = Data(raw, w) if w is not None or op["via"] in ("init", "raw-data") or variant % 2 else raw
        pre = o
        if op["via"] in ("array", "raw-data"):
            pre = (o.data, o.supervision) if isinstance(o, SupervisedData) else o.data
        if op["via"] == "raw-nodes":
            return cls(raw, o)
        if op["via"] in ("init", "raw-data"):
            return cls(nodes, pre)
        return cls.build(nodes, pre)
    if k == "points":
        return o.points
    if k == "pre":
        return o.pre_coreset_data
    if k == "solve":
        return o.solve_weights(StubWeights(jnp.asarray(op["W"], jnp.float32)))
    raise AssertionError(k)


def replay(histories, start=0):
    recs = []
    for h, ops in enumerate(histories):
        o, obs, objs = None, [], []
        for i, op in enumerate(ops):
            try:
                new = apply(o, op, start + 3 * h + i)
                b = observe(new)
                o = new
                objs.append(new)
            except (ValueError, TypeError) as e:
                b = dict(kind="rejected", rows=NONE, pre=NONE, idx=[], err=type(e).__name__ + " " + str(e)[:80])
                objs.append(None)
            except Exception as e:  # noqa: BLE001
                b = dict(kind="failed", rows=NONE, pre=NONE, idx=[], err=type(e).__name__ + " " + str(e)[:80])
                objs.append(None)
                obs.append(b)
                break
            obs.append(b)
        again = [b if q is None else observe(q) for q, b in zip(objs, obs)]
        recs.append(dict(_spec="ObjectsTrace", ops=ops[:len(obs)], obs=obs, again=again))
    return recs
