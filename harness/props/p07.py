from harness.props.greedy_common import G, MODEL, exhaustive


def plan(tier, seed):
    big = tier == "thorough"
    c = 6 if big else 1

    def generate():
        jobs = []

        def add(fn, **k):
            jobs.append((G + fn, dict(seed=seed * 1000 + 13 * len(jobs), **k)))

        for ns, m in [(1, 4), (3, 4), (4, 4), (6, 4), (9, 4), (4, 9)]:
            for u in (True, False):
                add("herd_table", count=30 * c, n=9, m=m, nstart=ns, mode="refine", uniq=u, iters=2 if ns <= m else 1)
        add("herd_table", count=30 * c, n=9, m=4, nstart=4, mode="refine", placeholders=True, iters=3)
        add("herd_table", count=30 * c, n=9, m=6, nstart=4, mode="refine", placeholders=True, wstyle="big")
        for u in (True, False):
            add("herd_table", count=40 * c, n=8, m=4, nstart=4, mode="refine", style="constdiag", wstyle="one",
                mono=True, iters=4, uniq=u)
            add("herd_table", count=30 * c, n=8, m=3, mode="chain", style="constdiag", wstyle="one", mono=True,
                iters=4, uniq=u)
            add("herd_table", count=30 * c, n=8, m=4, mode="iterative", iters=4, uniq=u, style="constdiag",
                wstyle="one", mono=True)
        add("herd_table", count=30 * c, n=8, m=4, mode="iterative", iters=4, block=3, supervised=True)
        add("herd_table", count=30 * c, n=8, m=4, nstart=4, mode="refine", cached=True, iters=3, block=2, d=2)
        add("herd_real", count=15 * c, n=20, m=6, kern="se", iters=4)
        add("herd_real", count=15 * c, n=20, m=6, kern="imq", mode="iterative", iters=4, uniq=False, wstyle="mixed")
        for ns in (2, 4, 7):
            add("stein_table", count=25 * c, n=9, m=4, reg=False, nstart=ns, mode="refine", iters=1 if ns > 4 else 3)
        add("stein_table", count=25 * c, n=9, m=4, lam=0.5, nstart=4, mode="refine", iters=2, uniq=False)
        for k in (2, 5, 6):
            jobs.append(("harness.drivers.gkp:refine", dict(seed=seed + k, count=10 * c, n=8, m=5, nstart=k)))
        jobs.extend(exhaustive("GreedyGenThorough.cfg" if big else "GreedyGen.cfg", starts=(1, 2)))
        return jobs

    return dict(models=[MODEL], generate=generate, chunks=7)
