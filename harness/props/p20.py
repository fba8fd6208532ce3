from harness import common as C

D = "harness.drivers.score:"
SHAPES = ((1, 1, 1), (1, 1, 3), (4, 1, 2), (1, 3, 2), (5, 2, 4), (3, 4, 1), (6, 3, 3), (2, 2, 2), (4, 4, 3), (24, 2, 3), (3, 6, 2))


def plan(tier, seed):
    big = tier == "thorough"

    def jobs():
        ex = C.simulate("KernelAlgMC", "KernelAlgGen.cfg", 60 if big else 14, 9, seed)
        uniq = []
        for e in ex:
            if e not in uniq:
                uniq.append(e)
        hs = C.simulate("ConvertMC", "ConvertGen.cfg", 400 if big else 60, 6, seed)
        hs += [dict(base=b, stein=False, ops=[dict(m=m, data=1)]) for b in ("se", "pc", "lin", "sum") for m in ("none", "affine")]
        if len(uniq) < 8 or len(hs) < 20:
            raise C.MachineryError("too few behaviours generated")
        lib = 66 if big else 17
        out = [(D + "library", dict(seed=seed * 40 + i, reps=lib, lo=i)) for i in range(6)]
        out += [(D + "kde", dict(seed=seed * 30 + i, reps=120 if big else 12, n=n, d=d, m=m)) for i, (n, d, m) in enumerate(SHAPES)]
        out += [(D + "exact", dict(exprs=uniq[:200 if big else 18][i::6], seed=seed + i)) for i in range(6)]
        out += [(D + "convert", dict(histories=hs[i::4], seed=seed * 3 + i)) for i in range(4)]
        return out

    return dict(models=[dict(module="ScoreMC", workers=2), dict(module="ConvertMC", workers=1)], jobs=[], generate=jobs, chunks=6, assumptions=[
        "points in quarters, up to 24 data points and 6 dimensions, bandwidths 0.5 to 2; query points where the density estimate does not underflow",
        "the derivatives of base kernels are those the library reports (decided by P15); sliced score matching is not covered here"])
