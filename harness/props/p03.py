from harness.props.greedy_common import G, MODEL, exhaustive


def plan(tier, seed):
    big = tier == "thorough"
    c = 6 if big else 1

    def generate():
        jobs = []

        def add(fn, **k):
            jobs.append((G + fn, dict(seed=seed * 1000 + len(jobs), **k)))

        for n, m in [(5, 3), (8, 5), (12, 6), (9, 9)]:
            for u in (True, False):
                add("herd_table", count=40 * c, n=n, m=m, uniq=u)
        add("herd_table", count=40 * c, n=9, m=4, block=2, unroll=2)
        add("herd_table", count=40 * c, n=9, m=4, block=(3, 4), unroll=(1, 3), wstyle="big", d=3)
        add("herd_table", count=40 * c, n=9, m=4, block=20, cached=True)
        add("herd_table", count=30 * c, n=8, m=4, style="dup", supervised=True)
        add("herd_table", count=20 * c, n=6, m=6, style="const", wstyle="one")
        add("herd_table", count=30 * c, n=8, m=4, wstyle="wide")
        add("herd_table", count=30 * c, n=8, m=3, lo=-9, hi=9, uniq=False)
        add("herd_table", count=30 * c, n=7, m=4, mode="iterative", iters=3)
        add("herd_table", count=30 * c, n=7, m=3, mode="iterative", iters=2, cached=True, uniq=False, block=3)
        add("herd_table", count=30 * c, n=7, m=4, mode="chain", iters=3, cached=True)
        add("herd_table", count=6 * c, n=60, m=12, hi=40)
        for kern in ("se", "lap", "imq"):
            add("herd_real", count=20 * c, n=24, m=7, kern=kern, wstyle="mixed", d=3)
            add("herd_real", count=20 * c, n=24, m=7, kern=kern, dup=True, uniq=False, block=5, iters=2)
        add("herd_real", count=20 * c, n=16, m=6, kern="lin", scale=3000)
        add("herd_real", count=3 * c, n=90, m=10, kern="se", wstyle="big", scale=3000)
        add("herd_real", count=10 * c, n=16, m=5, kern="imq", mode="iterative", iters=3, wstyle="mixed")
        add("herd_soft", count=16 * c)
        add("herd_soft", count=16 * c, uniq=False)
        add("herd_soft", count=12 * c, start=True)
        add("herd_soft", count=12 * c, schedule=True)
        add("herd_soft", count=12 * c, uniq=False, weighted=False, n=5)
        add("herd_soft", count=8 * c, sweeps=True)
        jobs.extend(exhaustive("GreedyGenThorough.cfg" if big else "GreedyGen.cfg", starts=(0,)))
        return jobs

    return dict(models=[MODEL], generate=generate, chunks=7, assumptions=[
        "comparisons with library kernels in fixed point: criterion differences below 3/20000 of the kernel scale are ties",
        "softmax draws accepted within 6 standard deviations + 3 over 4096 keys"])
