D = "harness.drivers.approx:"
SHAPES = ((3, 1, 1), (3, 2, 2), (4, 2, 3), (4, 3, 2), (4, 4, 4), (5, 3, 4), (4, 1, 3), (4, 3, 1), (5, 4, 4), (4, 2, 4), (4, 4, 2))


def plan(tier, seed):
    big = tier == "thorough"
    jobs = [(D + "guards", {}), (D + "same", dict(seed=seed)), (D + "library", dict(seed=seed, reps=24 if big else 6))]
    for method in ("mc", "annchor", "nystrom"):
        for n, k, t in SHAPES:
            jobs.append((D + "runs", dict(seed=seed * 50 + n + k, method=method, n=n, k=k, t=t, reps=120 if big else 18)))
    return dict(models=[dict(module="ApproxMC", workers=2)], jobs=jobs, chunks=6, assumptions=[
        "integer kernel tables of up to 5 points, all of whose sampled subsystems are well conditioned; library kernels with every point sampled",
        "the points sampled inside the library are not observed: a result is accepted when some admissible sample explains it"])
