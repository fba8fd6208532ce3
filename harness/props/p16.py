import random

D = "harness.drivers.metrics:"


def plan(tier, seed):
    big = tier == "thorough"
    rnd = random.Random(seed * 13 + 5)
    c = 8 if big else 1
    blocks = [None, 1, 2, 3, 9, (2, 3), (1, None), (None, 2), (3, 1)]
    unrolls = [1, 2, True, (1, 2), (2, 1)]
    cases = []
    for n, m in [(1, 1), (2, 1), (4, 3), (5, 5), (3, 3), (6, 2)]:
        for _ in range(18 if big else 5):
            wx, wy = rnd.choice(["one", "mixed", "mixed"]), rnd.choice(["one", "mixed", "mixed", "mixed", "zero"])
            cases.append((n, m, rnd.choice(blocks), rnd.choice(unrolls), rnd.choice(["direct", "subset", "pseudo"]),
                          rnd.random() < 0.3, wx, wy, rnd.choice(["any", "psd"]), rnd.choice([1.0, 0.25, 4.0])))
    cases += [(k, k, rnd.choice(blocks), 1, "same", k == 3, "mixed", "mixed", "psd", 1.0) for k in (2, 3, 5)]
    for n, m in [(20, 9), (33, 4)]:
        cases.append((n, m, rnd.choice(blocks + [8]), rnd.choice(unrolls), rnd.choice(["direct", "subset"]), False, "mixed", "mixed", "any", 1.0))
    jobs = [(D + "mmd", dict(seed=seed * 10 + i, cases=cases[i::8], reps=4 * (3 if big else 1))) for i in range(8)]

    def add(fn, **k):
        jobs.append((D + fn, dict(seed=seed * 1000 + 7 * len(jobs), **k)))

    for n, m in [(1, 1), (4, 3), (3, 5), (6, 2)]:
        add("jmmd", count=10 * c, n=n, m=m, scale=rnd.choice([1.0, 0.5]))
    add("jmmd", count=10 * c, n=5, m=3, via="subset")
    add("jmmd", count=5 * c, n=5, m=3, wy="zero")
    for lap in (False, True):
        for reg in (False, True):
            add("ksd", count=8 * c, n=5, m=3, lap=lap, reg=reg, block=rnd.choice([None, 2]))
            add("ksd", count=6 * c, n=6, m=4, d=2, lap=lap, reg=reg, mode=rnd.choice(["default", "matched", "override"]))
            add("ksd", count=6 * c, n=6, m=2, d=2, lap=lap, reg=reg, via="subset", sup=rnd.random() < 0.5)
    add("ksd", count=8 * c, n=4, m=5, wy="mixed", block=2, unroll=2)
    add("ksd", count=6 * c, n=4, m=1, lap=True)
    add("ksd", count=3 * c, n=20, m=13, lap=True, reg=True, block=5)
    add("jmmd", count=3 * c, n=18, m=11)
    add("ksd", count=6 * c, n=5, m=3, d=1, mode="default", reg=True)
    add("ksd", count=6 * c, n=5, m=3, d=3, mode="matched", lap=True)
    for n, m, q, lam in [(1, 1, 0, 1), (2, 2, 0, 1), (3, 2, 2, 1), (2, 3, 0, 2), (3, 3, 1, 1), (2, 2, 3, 0), (1, 3, 4, 3)]:
        add("amcmd", count=8 * c, n=n, m=m, q=q, lam=lam)
    add("amcmd", count=8 * c, n=3, m=2, via="subset")
    for k in ("se", "lap", "pcimq", "lin", "mat", "comp"):
        add("axioms", count=20 * c, n=6, m=5, kern=k)
        add("axioms", count=10 * c, n=7, m=4, kern=k, joint=True)
    return dict(models=[dict(module="MetricMC", workers=3)], jobs=jobs, chunks=6, assumptions=[
        "integer kernel tables; squared values compared in thousandths",
        "KSD correction terms checked on uniformly weighted comparison data (the documented formula)",
        "AMCMD systems up to 3x3 (exact Cramer's rule)"])
