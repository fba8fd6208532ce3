D = "harness.drivers.lsq:"


def plan(tier, seed):
    big = tier == "thorough"
    r = 800 if big else 120
    jobs = [(D + "guards", {}), (D + "stacks", dict(seed=seed, reps=18 if big else 6))]
    for n in (1, 2, 3, 4):
        for kind in ("min", "rand"):
            jobs.append((D + "runs", dict(seed=seed * 20 + n, kind=kind, n=n, m=1 + n % 3, reps=r)))
            jobs.append((D + "runs", dict(seed=seed * 20 + n + 7, kind=kind, n=n, m=n, reps=r // 2, x64=True)))
    for over, power in ((4, 0), (2, 0), (3, 2), (1, 1)):
        jobs.append((D + "runs", dict(seed=seed * 20 + over, kind="rand", n=4, m=2, over=over, power=power, reps=r // 2, x64=True)))
    for kind in ("min", "rand"):
        jobs.append((D + "runs", dict(seed=seed, kind=kind, n=4, m=2, reps=r // 2, rcond=1e-3)))
        jobs.append((D + "runs", dict(seed=seed, kind=kind, n=3, m=2, reps=r // 2, rcond=-1, styles=("pd", "zero"))))
        for n, x64 in ((2, False), (3, False), (4, True), (6, True)):
            jobs.append((D + "runs", dict(seed=seed + n, kind=kind, n=n, m=2, reps=r // 3, styles=("spread",), block=n < 5, x64=x64)))
        jobs.append((D + "runs", dict(seed=seed, kind=kind, n=9, m=3, reps=20, styles=("pd",), block=False)))
        jobs.append((D + "runs", dict(seed=seed, kind=kind, n=24, m=2, reps=5, styles=("pd",), block=False, over=30)))
    return dict(models=[dict(module="LeastSquaresMC", workers=2)], jobs=jobs, chunks=6, assumptions=[
        "integer systems of up to 4 unknowns (singular ones included) and nonsingular ones of up to 24; accuracy of the working precision",
        "minimality is judged against the integer null vectors with entries up to 2, which span the null space of every generated system"])
