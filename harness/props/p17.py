import random

D = "harness.drivers.weights:"


def plan(tier, seed):
    big = tier == "thorough"
    rnd = random.Random(seed * 3 + 17)
    jobs = []
    hows = ("subset", "pseudo", "array", "data")
    blocks = (None, 1, 2, 3, (2, None), (None, 2), (3, 4), 50)
    i = 0
    for kind in ("sbq", "mmd"):
        for style in ("table", "table", "rbf", "laplace", "pcimq"):
            cases = []
            for _ in range(8 if big else 4):
                n, m = rnd.randint(4, 12), rnd.randint(1, 4)
                e = rnd.choice([None, None, 1.0, 2.0, 0.0] if style == "table" else [None, None, 0.25, 0.5])
                cases.append((kind, n, m, hows[i % 4], rnd.choice(blocks), rnd.choice([1, 2, True]), e, style))
                i += 1
            if style != "table":
                cases.append((kind, 20, 7, "subset", 4, 1, None, style))
                cases.append((kind, 60, 5, "data", None, 1, None, style))
            jobs.append((D + "runs", dict(seed=seed * 50 + i, cases=cases, reps=60 if big else 25)))
    return dict(models=[dict(module="WeightsMC", workers=2)], jobs=jobs, chunks=6, assumptions=[
        "uniformly weighted data (the optimisers ignore data weights), well conditioned coreset Gram matrices",
        "simplex optimality by duality gap: 2e-3 (integer kernels) / 4e-3 at solver tolerance 1e-5, ten times that at its default"])
