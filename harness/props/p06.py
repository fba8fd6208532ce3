D = "harness.drivers.rpc:"


def plan(tier, seed):
    big = tier == "thorough"
    c = 8 if big else 1
    jobs = []

    def add(**k):
        jobs.append((D + "runs", dict(seed=seed * 1000 + 19 * len(jobs), **k)))

    for u in (True, False):
        for style in ("full", "rank2", "exact", "diag"):
            add(count=14 * c, style=style, uniq=u)
            add(count=8 * c, style=style, uniq=u, n=5, m=4)
        add(count=8 * c, style="full", uniq=u, n=3, m=3, sup=True)
        add(count=8 * c, style="exact", uniq=u, n=4, m=4, weighted=True)
    add(count=6 * c, style="full", n=6, m=2)
    add(count=3 * c, style="rank2", n=14, m=2)
    return dict(models=[dict(module="RPCMC", cfg="RPCMCThorough.cfg" if big else "RPCMC.cfg", workers=3)],
                jobs=jobs, chunks=7, assumptions=[
        "frequencies over 4096 keys within 6 standard deviations + 3",
        "once everything is explained up to rounding noise only 'never a chosen point' is required; uniformity is "
        "checked on instances whose float arithmetic is exact"])
