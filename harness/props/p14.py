import random

D = "harness.drivers.means:"


def plan(tier, seed):
    big = tier == "thorough"
    rnd = random.Random(seed)
    cases = []
    blocks = [None, 1, 2, 3, 5, 50, (None, 2), (3, None), (1, 4), (4, 1), (2, 3), 0]
    unrolls = [1, 2, True, False, (1, 3), (2, 1), (True, 1), (1, True), (3, 2)]
    sizes = [(1, 1), (1, 4), (5, 1), (4, 4), (5, 7), (7, 5), (6, 3), (12, 11)]
    for s in sizes:
        for ax in ("all", "0", "1"):
            for b in (blocks if big else rnd.sample(blocks, 5)):
                kx = rnd.choice(["data", "data", "array", "default", "sup"])
                ky = rnd.choice(["data", "data", "array", "default", "sup"])
                cases.append((*s, ax, b, rnd.choice(unrolls), kx, ky, rnd.choice([1.0, 0.25, 8.0]),
                              rnd.random() < 0.1, False))
    for ax in ("all", "0", "1"):
        cases += [(40, 23, ax, b, 1, "data", "data", 1.0, False, False) for b in (None, 7, (16, 5))]
    for u in unrolls:  # every unroll setting on several blocks along both axes
        for ax in ("all", "0", "1"):
            cases.append((5, 7, ax, (2, 3), u, "data", "data", 1.0, False, False))
    for s in sizes:
        for b in rnd.sample(blocks, 4 if not big else 10):
            cases.append((*s, "0", b, rnd.choice(unrolls), rnd.choice(["data", "array", "sup"]), "data",
                          rnd.choice([1.0, 0.5]), False, True))
    k = 24
    jobs = [(D + "runs", dict(seed=seed * 100 + i, cases=cases[i::k], reps=6 if big else 3)) for i in range(k)]
    jobs += [(D + "linear", dict(seed=seed + i, count=14 if not big else 60)) for i in range(3)]
    jobs += [(D + "contrast", dict(seed=seed + 50 + i, count=18 if not big else 90)) for i in range(2)]
    return dict(models=[dict(module="BlockMean", workers=3)], jobs=jobs, chunks=4, assumptions=[
        "means compared to 2/1000 on integer kernel values; symmetric kernels"])
