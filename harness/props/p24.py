D = "harness.drivers.helpers:"


def plan(tier, seed):
    c = 8 if tier == "thorough" else 1
    jobs = [(D + "solvers", dict(seed=seed, leaf=None)), (D + "solvers", dict(seed=seed + 1, leaf=10))]
    jobs += [(D + "iterative", dict(seed=seed * 10 + i, reps=6 * c)) for i in range(3)]
    jobs += [(D + "medians", dict(seed=seed * 10 + i, reps=60 * c)) for i in range(3)]
    jobs += [(D + "pairs", dict(seed=seed * 10 + i, reps=20 * c)) for i in range(2)]
    jobs += [(D + "small", dict(seed=seed, reps=80 * c))]
    return dict(models=[dict(module="HelpersMC", workers=2)], jobs=jobs, chunks=4, assumptions=[
        "integer points; up to 40 points", "benchmark solvers compared with the library solvers they are documented to configure"])
