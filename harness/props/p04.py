from harness.props.greedy_common import G, MODEL


def plan(tier, seed):
    big = tier == "thorough"
    c = 6 if big else 1
    jobs = []

    def add(fn, **k):
        jobs.append((G + fn, dict(seed=seed * 1000 + 11 * len(jobs), **k)))

    for n, m in [(5, 3), (8, 5), (12, 7), (7, 7)]:
        for u in (True, False):
            add("stein_table", count=40 * c, n=n, m=m, uniq=u, reg=False)
            add("stein_table", count=30 * c, n=n, m=m, uniq=u, lam=0.75)
    add("stein_table", count=30 * c, n=9, m=5, lam=None)
    add("stein_table", count=30 * c, n=9, m=5, lam=None, mode="refine", nstart=5, iters=2)
    add("stein_table", count=30 * c, n=9, m=5, lam=4.0, block=2, unroll=2, d=3)
    add("stein_table", count=30 * c, n=9, m=5, lam=0.1, bw=0.5, block=(4, 3))
    add("stein_table", count=30 * c, n=9, m=5, lam=1.0, bw="silverman", d=2)
    add("stein_table", count=30 * c, n=9, m=5, lam=1.0, bw="silverman", d=1)
    add("stein_table", count=20 * c, n=9, m=5, lam=0.6, bw="scott", d=3)
    add("stein_table", count=30 * c, n=9, m=5, lam=0.0, d=2)
    add("stein_table", count=30 * c, n=9, m=4, lam=1.5, sq=False, supervised=True, d=2)
    for ns in (2, 4, 6):
        add("stein_table", count=30 * c, n=9, m=4, lam=0.5, mode="refine", nstart=ns, iters=1 if ns > 4 else 2)
        add("stein_table", count=30 * c, n=9, m=4, reg=False, mode="refine", nstart=ns, uniq=False,
            iters=1 if ns > 4 else 3)
    add("stein_table", count=20 * c, n=8, m=5, style="dup", lam=0.5)
    add("stein_table", count=20 * c, n=8, m=5, style="const", lam=0.5, uniq=False)
    add("stein_table", count=4 * c, n=50, m=12, reg=False, hi=30, lo=-30)
    for d in (1, 2, 3):
        add("stein_real", count=20 * c, n=16, m=6, d=d)
        add("stein_real", count=20 * c, n=16, m=6, d=d, reg=False, uniq=False, iters=2, block=5)
    jobs.append((G + "stein_base", {}))
    return dict(models=[MODEL], jobs=jobs, chunks=7, assumptions=[
        "log densities compared in fixed point (1/2000)",
        "given a base (non-Stein) kernel the code deviates: known finding stein-base-kernel"])
