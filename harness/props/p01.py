S = "harness.drivers.subset:"
MODEL = dict(module="Subset", workers=2)


def plan(tier, seed):
    big = tier == "thorough"
    c = 5 if big else 1
    jobs = []

    def add(fn="runs", **k):
        jobs.append((S + fn, dict(seed=seed * 1000 + 7 * len(jobs), **k)))

    # slow ones first
    for n, m, leaf in [(41, 4, 10), (64, 5, 12), (100, 3, 7)]:
        add(count=4 * c, solver="mr", n=n, m=m, leaf=leaf, sup=n == 41, ball=n == 64, skipzero=True, wstyle="pos")
    add(count=3 * c, solver="mr", n=70, m=3, leaf=8, base="stein", uniq=True, skipzero=True)
    add("cpp_settings", cases=[(16, 4, 1), (17, 2, 0), (5, 6, 1), (16, 9, 1), (16, 5, 0), (64, 8, 0), (20, 4, 3),
                               (20, 3, -1), (4, 4, 1), (65, 16, 1)])
    add(count=4 * c, solver="cpp", n=70, m=6, g=2, sup=True)
    for n, m in [(12, 3), (13, 13), (28, 7), (9, 8), (26, 13), (33, 1)]:
        add(count=4 * c, solver="kt", n=n, m=m, sup=n % 2 == 0, d=3)
    for s in ("random", "herd", "prob", "stein", "rpc", "gkp"):
        sup = s == "gkp"
        add(count=12 * c, solver=s, n=14, m=5, sup=True)
        add(count=12 * c, solver=s, n=9, m=9, sup=sup, d=3)
        add(count=12 * c, solver=s, n=11, m=1, sup=sup, d=1, vec=True)
        add(count=12 * c, solver=s, n=12, m=6, sup=sup, wstyle="mixed", uniq=False, dup=True,
            skipzero=s in ("herd", "prob", "stein"))
        add("vacuous_sizes", solver=s, n=6, ms=[-3, -1, 0, 7, 12], sup=sup)
        if s in ("herd", "prob", "stein", "gkp"):
            for st in (3, 5, 8):
                add(count=8 * c, solver=s, n=12, m=5, start=st, sup=sup)
    add("vacuous_sizes", solver="kt", n=6, ms=[-3, 0, 7, 13])
    add("vacuous_sizes", solver="cpp", n=16, ms=[0, -2, 17, 40])
    add("vacuous_sizes", solver="random", n=6, ms=[-1, 0, 7], uniq=False)
    add(count=12 * c, solver="random", n=12, m=6, weighted=True, wstyle="mixed", skipzero=True)
    add(count=8 * c, solver="gkp", n=14, m=4, sup=True, cand=5, loss=6)
    add(count=8 * c, solver="gkp", n=14, m=6, sup=True, cand=50, loss=50, start=4)
    add("large", solver="random", n=70000, m=40, sup=True)
    add("large", solver="random", n=70000, m=40, half=True, weighted=True)
    add("large", solver="rpc", n=70000, m=5)
    add("large", solver="herd", n=70000, m=5, half=True)
    add("large", solver="prob", n=70000, m=5, half=True)
    add("large", solver="stein", n=70000, m=5, half=True, reg=False)
    add("large", solver="mr", n=40000, m=4, leaf=2000)
    add("large", solver="cpp", n=65000, m=8, g=0)
    for s in ("herd", "rpc", "random"):
        add(count=2 * c, solver=s, n=80, m=30, eager=True)
    return dict(models=[MODEL], jobs=jobs, chunks=6)
