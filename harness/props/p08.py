import random

G = "harness.drivers.greedy:"


def plan(tier, seed):
    big = tier == "thorough"
    c = 6 if big else 1
    rnd = random.Random(seed * 3 + 2)
    jobs = []

    def add(fn, **k):
        jobs.append((fn, dict(seed=seed * 1000 + 17 * len(jobs), **k)))

    for where in ("mixed", "front", "end"):
        for uniq in (True, False):
            add(G + "padded", count=12 * c, n=5, pad=3, m=3, solver="herd", uniq=uniq, where=where)
            add(G + "padded", count=12 * c, n=5, pad=4, m=3, solver="stein", uniq=uniq, where=where, reg=False)
        add(G + "padded", count=12 * c, n=6, pad=3, m=3, solver="stein", where=where, reg=True)
        add(G + "padded", count=10 * c, n=5, pad=2, m=2, solver="herd", mode="refine", where=where)
        add(G + "padded", count=10 * c, n=5, pad=2, m=2, solver="stein", mode="refine", where=where, reg=False)
    for u in (True, False):  # refining coresets that hold zero-weighted rows
        add(G + "herd_table", count=25 * c, n=9, m=4, nstart=4, mode="refine", uniq=u, iters=2)
        add(G + "stein_table", count=15 * c, n=9, m=4, nstart=4, mode="refine", uniq=u, reg=False)
    for s in (0.25, 16):
        add(G + "padded", count=10 * c, n=5, pad=1, m=4, solver="herd", scale_w=s)
        add(G + "padded", count=10 * c, n=5, pad=1, m=4, solver="stein", scale_w=s, reg=True)
        add(G + "padded", count=6 * c, n=5, pad=0, m=4, solver="herd", scale_w=s)
    add(G + "padded", count=10 * c, n=3, pad=9, m=3, solver="herd")
    add(G + "padded", count=10 * c, n=3, pad=9, m=3, solver="stein", reg=False)
    add(G + "padded", count=10 * c, n=4, pad=5, m=4, solver="stein", mode="refine", reg=False)
    add(G + "herd_soft", count=6 * c, n=5, weighted=True)
    add(G + "herd_soft", count=4 * c, n=5, weighted=True, start=True)
    jobs.append((G + "stein_default_padding", {}))
    # kernel means
    cases = []
    for s in [(2, 4), (5, 3), (6, 6), (3, 1)]:
        for ax in ("all", "0", "1"):
            for b in rnd.sample([None, 1, 2, 4, (2, 3), 50], 3):
                cases.append((*s, ax, b, 1, "data", rnd.choice(["data", "sup"]), rnd.choice([1.0, 0.25, 8.0]), False, False))
        cases.append((*s, "0", rnd.choice([None, 2]), 1, "data", "data", 4.0, False, True))
    for i in range(4):
        jobs.append(("harness.drivers.means:runs", dict(seed=seed * 100 + i, cases=cases[i::4], reps=5 * c)))
    # metrics
    m = []
    for n, k in [(4, 3), (6, 2), (5, 4)]:
        for via in ("direct", "subset", "pseudo"):
            m.append((n, k, rnd.choice([None, 1, 2, (2, 3)]), 1, via, False, "mixed", "mixed", "any", rnd.choice([1.0, 0.25, 8.0])))
    for i in range(3):
        jobs.append(("harness.drivers.metrics:mmd", dict(seed=seed * 50 + i, cases=m[i::3], reps=6 * c)))
    add("harness.drivers.metrics:jmmd", count=12 * c, n=4, m=4, scale=8.0)
    add("harness.drivers.metrics:jmmd", count=12 * c, n=4, m=4, scale=0.125)
    for k in ("se", "lap"):
        add("harness.drivers.metrics:axioms", count=20 * c, n=5, m=4, kern=k)
    # weighted sampling
    for kind, n, k, w, s in [("wwith", 4, 2, [0, 2, 1, 0], 1.0), ("wwithout", 4, 2, [0, 2, 1, 1], 4.0),
                             ("wwithout", 5, 2, [3, 0, 1, 0, 0], 1.0), ("wwith", 3, 2, [0, 0, 5], 0.5)]:
        add("harness.drivers.sampling:sample", kind=kind, n=n, m=k, weights=w, scale=s)
    return dict(models=[dict(module="GreedyMC", workers=2), dict(module="MetricMC", workers=2)], jobs=jobs, chunks=7,
                assumptions=["metrics: maximum mean discrepancy and its joint variant",
                             "Stein thinning with an explicit score (default score: known finding)"])
