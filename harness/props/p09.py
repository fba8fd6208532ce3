import random

D = "harness.drivers.mapreduce:"


def plan(tier, seed):
    big = tier == "thorough"
    rnd = random.Random(seed * 7 + 1)
    cases = []
    shapes = [(5, 2, 4), (7, 1, 2), (9, 2, 5), (10, 2, 4), (13, 3, 6), (16, 2, 4), (17, 2, 4), (23, 3, 7), (31, 4, 9),
              (33, 2, 4), (40, 5, 10), (50, 3, 8), (64, 4, 16), (65, 4, 16), (90, 6, 13), (8, 4, 8), (6, 3, 8),
              (100, 2, 7), (37, 1, 3), (120, 10, 25), (3, 1, 2), (129, 3, 6)]
    for _ in range(140 if big else 6):
        m = rnd.randint(1, 6)
        leaf = rnd.randint(2 * m, 4 * m + 3)
        shapes.append((rnd.randint(leaf, 12 * leaf), m, leaf))
    for s in shapes:
        cases.append((*s, rnd.choice([1, 2, 3]), rnd.choice(["any", "dup", "const", "cluster", "sorted"]),
                      rnd.random() < 0.7, rnd.random() < 0.5, rnd.random() < 0.6,
                      rnd.choice([False, False, True, "pseudo"]), True))
    cases += [(21, 2, 5, 2, "any", True, False, True, False, False), (12, 2, 4, 1, "dup", False, True, True, False, False)]
    k = 14
    jobs = [(D + "runs", dict(seed=seed * 100 + i, cases=cases[i::k], reps=4)) for i in range(k)]
    for i, (n, m, leaf, ball) in enumerate([(40000, 2, 5000, False), (70000, 3, 9000, True)] + [(140000, 4, 5000, False)] * big):
        jobs.append((D + "runs", dict(seed=seed * 100 + 50 + i, reps=1, cases=[(n, m, leaf, 1, "any", i % 2 == 0, ball, True, False, True)])))
    jobs.append((D + "finding", {}))
    jobs.append((D + "refused", {}))
    jobs.reverse()
    return dict(models=[dict(module="MapReduceMC", workers=2)], jobs=jobs, chunks=4, assumptions=[
        "leaf size at least twice the coreset size (smaller leaves: known finding mapreduce-small-leaf)",
        "base solver ignores zero-weighted rows (a recording stand-in, or the real herding)"])
