import random

D = "harness.drivers.compress:"


def plan(tier, seed):
    big = tier == "thorough"
    rnd = random.Random(seed * 11 + 4)
    good = [(4, 2, 0, False), (5, 4, 1, False), (16, 3, 0, True), (17, 4, 1, False), (16, 8, 1, False), (20, 16, 2, False),
            (15, 2, 0, False), (15, 4, 1, False), (63, 16, 2, False), (64, 8, 0, False), (70, 9, 1, True), (64, 20, 2, False),
            (1, 1, 0, False), (3, 1, 0, False), (66, 5, 0, False), (4, 1, 0, True), (4, 3, 1, False), (64, 64, 3, False)]
    if big:
        good += [(100, 30, 2, True), (256, 16, 0, False), (257, 20, 1, False), (255, 7, 0, False), (64, 33, 3, True)]
    bad = [(16, 5, 0, False), (16, 4, 3, False), (3, 1, 1, False), (16, 17, 2, False), (15, 5, 1, False), (15, 3, 0, False),
           (63, 9, 0, False), (64, 9, 0, False), (64, 17, 1, False), (63, 5, 3, False), (64, 5, 4, False), (16, 4, -1, False),
           (4, 3, 0, False), (255, 17, 0, False), (1, 1, 1, False), (5, 6, 1, False), (1, 2, 0, False), (256, 33, 1, False)]
    for _ in range(60 if big else 8):
        n, g, m = rnd.randint(1, 80), rnd.randint(0, 4), rnd.randint(1, 40)
        d = 0
        while 4 ** (d + 1) <= n:
            d += 1
        if not (m <= n and g <= d and m <= 2 ** (g + d)):
            bad.append((n, m, g, False))
        elif big or d < 3:
            good.append((n, m, g, rnd.random() < 0.3))
    k = 14
    jobs = [(D + "runs", dict(seed=seed * 100 + i, cases=good[i::k] + bad[i::k], reps=4 if big else 2)) for i in range(k)]
    jobs += [(D + "clip", dict(seed=seed + i, n=n)) for i, n in enumerate((5, 6, 4, 7, 12, 15))]
    return dict(models=[dict(module="CompressMC", workers=2)], jobs=jobs, chunks=6, assumptions=[
        "thinning steps observed through a recording subclass of KernelThinning (structure clauses are skipped if the "
        "implementation does not use it)", "uniform clip over 6000 keys within 6 standard deviations + 3"])
