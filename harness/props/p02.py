from harness.props.greedy_common import G, MODEL as GREEDY, exhaustive

S = "harness.drivers.subset:"
MODEL = dict(module="Subset", workers=2)


def plan(tier, seed):
    big = tier == "thorough"
    c = 5 if big else 1

    def generate():
        jobs = []

        def add(fn="runs", mod=S, **k):
            jobs.append((mod + fn, dict(seed=seed * 1000 + 7 * len(jobs) + 500, **k)))

        for n, m, leaf in [(40, 5, 10), (57, 4, 9)]:
            add(count=4 * c, solver="mr", n=n, m=m, leaf=leaf, dup=True)
        add(count=4 * c, solver="mr", n=60, m=4, leaf=9, const=True, ball=True)
        for n, m, g in [(20, 4, 1), (64, 7, 1), (30, 8, 2)]:
            add(count=4 * c, solver="cpp", n=n, m=m, g=g, dup=n == 30)
        for n, m, g in [(33, 7, 2), (63, 8, 2)]:
            add(count=10 * c, solver="cpp", n=n, m=m, g=g)
        for n, m in [(12, 3), (20, 5), (17, 16), (28, 7)]:
            add(count=6 * c, solver="kt", n=n, m=m, dup=n == 20, const=n == 12)
        for s in ("random", "herd", "prob", "stein", "rpc", "gkp"):
            sup = s == "gkp"
            for o in [dict(), dict(dup=True), dict(const=True, reg=False), dict(kern="const", reg=False),
                      dict(dup=True, wstyle="pos", d=1)]:
                if s != "stein":
                    o = {a: b for a, b in o.items() if a != "reg"}
                add(count=14 * c, solver=s, n=12, m=9, sup=sup, **o)
            add(count=10 * c, solver=s, n=8, m=8, sup=sup, dup=True)
            if s in ("herd", "prob", "stein", "gkp"):
                for st in (2, 6, 9):
                    add(count=12 * c, solver=s, n=11, m=6, sup=sup, start=st, dup=st == 6)
        add(count=12 * c, solver="herd", n=12, m=9, wstyle="mixed", dup=True, reuse=True)
        add(count=12 * c, solver="stein", n=12, m=7, wstyle="mixed", min_pos=8)
        add(count=12 * c, solver="gkp", n=12, m=8, sup=True, reuse=True, dup=True)
        add(count=12 * c, solver="gkp", n=14, m=6, sup=True, cand=6, dup=True)
        add(count=12 * c, solver="gkp", n=14, m=6, sup=True, cand=9, loss=3, start=6)
        add(count=12 * c, solver="gkp", n=14, m=6, sup=True, cand=7, start=3, kern="const")
        add(count=12 * c, solver="rpc", n=12, m=10, kern="lin", d=2)
        add(count=12 * c, solver="random", n=12, m=10, weighted=True, wstyle="mixed")
        add(count=12 * c, solver="prob", n=10, m=9, temp=50.0)
        for st in ("const", "dup", "any"):
            for md, ns in (("reduce", 0), ("refine", 3), ("refine", 5), ("refine", 7)):
                add("herd_table", G, count=15 * c, n=9, m=5, style=st, mode=md, nstart=ns, iters=1 if ns > 5 else 2)
        add("herd_table", G, count=20 * c, n=8, m=5, mode="refine", nstart=4, placeholders=True, style="dup", iters=2)
        add("stein_table", G, count=15 * c, n=8, m=5, style="const", reg=False)
        add("stein_table", G, count=15 * c, n=8, m=5, style="dup", mode="refine", nstart=3, iters=2)
        jobs.extend(exhaustive(uniqs=(True,)))
        return jobs

    return dict(models=[MODEL, GREEDY], generate=generate, chunks=7, assumptions=[
        "GreedyKernelPoints candidate batches are at least as large as the coreset"])
