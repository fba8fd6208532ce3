D = "harness.drivers.sampling:"


def plan(tier, seed):
    reps = 6 if tier == "thorough" else 1
    jobs = []

    def add(fn, **k):
        jobs.append((D + fn, dict(seed=seed * 1000 + 23 * len(jobs), **k)))

    for r in range(reps):
        for n, m in [(5, 1), (5, 2), (5, 3), (6, 2), (4, 4), (7, 6)]:
            add("sample", kind="without", n=n, m=m, sup=m == 2)
        for n, m in [(4, 1), (3, 2), (4, 2), (3, 3)]:
            add("sample", kind="with", n=n, m=m)
        for w in ([1, 2, 3], [0, 1, 4, 2], [3, 0, 0, 1], [1, 1, 1, 1, 1], [5, 1, 0, 1, 1]):
            add("sample", kind="wwithout", n=len(w), m=1, weights=w)
            add("sample", kind="wwithout", n=len(w), m=2, weights=w, scale=0.25)
            add("sample", kind="wwith", n=len(w), m=2, weights=w, scale=0.125, sup=True)
        for n, m, k in [(3, 1, 2), (4, 2, 2), (3, 2, 3), (5, 3, 1), (4, 4, 2), (5, 1, 2)]:
            add("batches", n=n, m=m, k=k)
        for what in ("plain", "with", "weighted", "batch"):
            add("marginal", what=what, n=30, m=6)
            add("marginal", what=what, n=200, m=9)
    add("refused")
    return dict(models=[dict(module="SamplingMC", workers=2)], jobs=jobs, chunks=4, assumptions=[
        "frequencies over 6000 keys within 6 standard deviations + 3"])
