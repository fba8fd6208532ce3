import random

D = "harness.drivers.thinning:"


def plan(tier, seed):
    big = tier == "thorough"
    c = 6 if big else 1
    rnd = random.Random(seed * 5 + 3)
    jobs = []

    def add(fn, **k):
        jobs.append((D + fn, dict(seed=seed * 1000 + 29 * len(jobs), **k)))

    for style in ("any", "dup", "line", "same"):
        add("half", count=(6 if style != "same" else 2) * c, style=style, delta=rnd.choice([0.05, 0.2, 0.5, 0.9]))
        add("half", count=6 * c, style=style, h=4, delta=rnd.choice([0.02, 0.3, 0.8]), sup=style == "any")
    add("half", count=8 * c, h=2, delta=0.3)
    add("half", count=6 * c, h=5, delta=0.6, keys=8000)
    cases = [(9, 2, False, True), (8, 8, False, False), (16, 4, True, True), (5, 1, False, True), (11, 3, False, False),
             (12, 6, False, True), (7, 4, True, False), (28, 7, False, False), (20, 3, False, True), (6, 3, False, True),
             (2, 1, False, False), (13, 5, False, True), (24, 3, False, False)]
    if big:
        cases += [(n, s, rnd.random() < 0.3, rnd.random() < 0.5) for n, s in [(31, 4), (32, 4), (33, 2), (40, 5), (17, 2), (10, 1)]]
    for i in range(7):
        add("whole", cases=cases[i::7], reps=4 * c)
    add("choose", count=60 * c)
    add("choose", count=40 * c, n=10, size=2, k=8)
    for h in (9, 14) if not big else (9, 14, 20, 32):
        add("coins", h=h)
    add("baseline")
    add("baseline", n=4, size=3)
    return dict(models=[dict(module="KTMC", workers=3)], jobs=jobs, chunks=6, assumptions=[
        "swap frequencies over 5000 keys within 6 standard deviations + 0.5 percent",
        "candidates read through the public steps (kt_half_recursive, kt_choose); coins of different halvings may coincide"])
