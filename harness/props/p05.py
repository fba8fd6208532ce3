D = "harness.drivers.gkp:"


def plan(tier, seed):
    big = tier == "thorough"
    c = 5 if big else 1
    jobs = []

    def add(**k):
        jobs.append((D + "runs", dict(seed=seed * 1000 + 17 * len(jobs), **k)))

    for style in ("any", "diag", "dup", "const"):
        add(count=25 * c, n=6, m=3, style=style)
        add(count=15 * c, n=6, m=3, style=style, mode="refine", nstart=3, iters=2)
    for u in (True, False):
        add(count=15 * c, n=6, m=4, uniq=u, style="diag")
        add(count=20 * c, n=7, m=3, uniq=u, lam=-2.0)
        add(count=15 * c, n=6, m=3, uniq=u, mode="refine", nstart=1, iters=2)
        add(count=20 * c, n=6, m=3, uniq=u, mode="refine", nstart=2, style="diag")
        add(count=20 * c, n=6, m=3, uniq=u, mode="refine", nstart=5)
        add(count=20 * c, n=6, m=3, uniq=u, cb=3, style="diag")
        add(count=20 * c, n=6, m=3, uniq=u, cb=4, mode="refine", nstart=3, iters=2)
        add(count=15 * c, n=6, m=2, uniq=u, cb=4, lb=3, mode="refine", nstart=2)
        add(count=12 * c, n=6, m=2, uniq=u, lb=2, style="diag")
    add(count=20 * c, n=6, m=2, uniq=False, cb=1, mode="refine", nstart=2, iters=2)
    add(count=20 * c, n=6, m=2, uniq=False, cb=1, style="diag")
    add(count=20 * c, n=6, m=3, cached=True, iters=2)
    add(count=15 * c, n=5, m=4, cb=9, lb=9)
    add(count=20 * c, n=9, m=2, lam=3.0, style="diag")
    add(count=15 * c, n=4, m=4, style="diag")
    add(count=6 * c, n=20, m=2)
    add(count=5 * c, n=15, m=3, style="diag")
    add(count=5 * c, n=15, m=2, mode="refine", nstart=2)
    return dict(models=[dict(module="GKPMC", cfg="GKPMCThorough.cfg" if big else "GKPMC.cfg", workers=3)],
                jobs=jobs, chunks=8, assumptions=[
        "integer kernels and responses; losses within 3/1000 of the best count as ties",
        "random candidate and loss batches: any batch of the requested size is allowed"])
