D = "harness.drivers.timing:"


def plan(tier, seed):
    c = 8 if tier == "thorough" else 1
    jobs = [(D + "compare", dict(seed=seed * 10 + i, reps=12 * c)) for i in range(3)]
    jobs += [(D + "pair", dict(seed=seed, reps=18 * c)), (D + "display", dict(seed=seed, reps=400 * c))]
    models = [dict(module="TimingMC", workers=2)]
    return dict(models=models, jobs=jobs, chunks=2, assumptions=[
        "the clock is replaced by one that only tracing and executing the timed functions advances",
        "comparisons of up to three functions and four runs; displayed times avoid exact powers of ten"])
