D = "harness.drivers.ssm:"


def plan(tier, seed):
    big = tier == "thorough"
    c = 4 if big else 1
    jobs = []

    def add(fn, **k):
        jobs.append((D + fn, dict(seed=seed * 1000 + 31 * len(jobs), **k)))

    for an in (False, True):
        for d, h in ((2, 3), (3, 2), (1, 2)) if big else ((2, 3), (1, 2)):
            for b in (1, 2):
                add("hidden", d=d, h=h, an=an, batch=b, reps=2 * c)
        for n, m, d, b in ((1, 1, 1, 1), (1, 1, 3, 2), (2, 2, 2, 2), (3, 1, 2, 4), (3, 4, 2, 1), (4, 2, 3, 2), (2, 1, 2, 8), (2, 1, 6, 1), (1, 9, 2, 2)):
            add("one", n=n, m=m, d=d, batch=b, an=an, reps=6 * c)
        for n, d, k in ((1, 2, 3), (2, 2, 2), (3, 1, 2), (2, 3, 1)):
            add("chain", n=n, d=d, steps=k, an=an, reps=6 * c)
        for d, b, k, s, g in ((2, 2, 3, 2.0, 0.5), (2, 1, 1, 1.0, 0.5), (1, 4, 4, 1.0, 0.5), (3, 1, 2, 4.0, 0.25), (2, 1, 6, 2.0, 0.5), (2, 2, 11, 1.0, 1.0)):
            add("noise", d=d, batch=b, levels=k, sigma=s, gamma=g, an=an, reps=6 * c)
    for n in (2, 3, 5):
        for _ in range(c):
            add("rows", n=n)
    add("spread", reps=4 * c)
    for _ in range(c):
        add("count", reps=5)
        add("replay", reps=3)
    jobs.append((D + "guards", {}))
    return dict(models=[dict(module="SSMMC", cfg="SSMMCThorough.cfg" if big else "SSMMC.cfg", workers=2)], jobs=jobs, chunks=4, assumptions=[
        "affine networks with integer parameters (exact) and networks with one hidden layer (tables of softplus and sigmoid, four decimals)",
        "the batch drawn inside a step is not observed: some batch of rows must explain the step",
        "noise levels that are powers of two; the perturbation itself is only bounded (six standard deviations) and its variance checked"])
