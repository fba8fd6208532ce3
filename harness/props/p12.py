import random

D = "harness.drivers.recomb:"


def plan(tier, seed):
    big = tier == "thorough"
    rnd = random.Random(seed * 7 + 5)
    jobs = []
    funcs = ("id", "squares", "cross", "dependent")
    shapes = [(3, "any", "ones", 1.0), (9, "any", "any", 0.1), (12, "grid", "zeros", 3.0), (14, "dup", "heavy", 1.0),
              (6, "grid", "single", 1.0), (30, "any", "zeros", 1.0), (24, "grid", "any", 10.0), (5, "dup", "zeros", 1.0), (20, "any", "tiny", 1.0), (64, "any", "tiny", 1.0)]
    if big:
        shapes += [(60, "any", "any", 1.0), (100, "grid", "zeros", 1.0), (48, "dup", "heavy", 0.01), (1, "any", "ones", 1.0),
                   (2, "dup", "any", 1.0), (81, "any", "ones", 1.0)]
    kinds = ["car", 2, 3, 7] if not big else ["car", 2, 3, 4, 5, 6, 7, 8, 16]
    i = 0
    for kind in kinds:
        for func in funcs if kind == "car" or big else (funcs[i % 4], funcs[(i + 1) % 4]):
            ch = shapes if big else [s for k, s in enumerate(shapes) if (k + i) % 3 == 0 or (kind == "car" and func == "id")]
            cases = [(kind, n, 2, func, ps, ws, sc, True) for n, ps, ws, sc in ch]
            cases += [(kind, rnd.randint(4, 9), 2, func, "any", "zeros", 1.0, False)]
            jobs.append((D + "runs", dict(seed=seed * 100 + i, cases=cases, reps=40 if big else 11)))
            i += 1
        for d, n in ((1, 17), (4, 25), (3, rnd.choice([8, 12, 16]))) if big or kind in ("car", 3) else ((1, 9), (3, 16)):
            jobs.append((D + "runs", dict(seed=seed * 100 + i, cases=[(kind, n, d, "id", "any", "zeros", 1.0, True)],
                                          reps=40 if big else 11)))
            i += 1
    for kind, rc in (("car", -1), ("car", 1e-5), (2, -1.0)) if not big else (("car", -1), ("car", 1e-5), ("car", 1e-6), (2, -1.0), (3, -1), (5, 1e-5)):
        jobs.append((D + "runs", dict(seed=seed * 100 + i, cases=[(kind, n, 2, "id", "any", "zeros", 1.0, True) for n in (7, 13)],
                                      reps=30 if big else 8, rcond=rc)))
        i += 1
    # just above, at and just below a full tree
    for kind, d, n in ((2, 1, 65), (2, 1, 64), (3, 2, 82), (4, 3, 257)) if not big else [
            (f, d, (d + 1) * f**k + e) for f, d, k in ((2, 1, 5), (2, 1, 6), (2, 3, 6), (3, 2, 3), (3, 2, 4), (4, 3, 3)) for e in (-1, 0, 1, 2)]:
        jobs.append((D + "runs", dict(seed=seed * 100 + i, cases=[(kind, n, d, "id", "any", "zeros", 1.0, True)], reps=10 if big else 4)))
        i += 1
    jobs.append((D + "refusals", dict(seed=seed)))
    return dict(models=[dict(module="RecombMC", workers=2)], jobs=jobs, chunks=6, assumptions=[
        "integer test function values in float32: moments compared to 6e-4 of their largest value",
        "datasets of positive total weight"])
