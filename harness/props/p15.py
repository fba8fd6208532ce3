from harness import common as C

D = "harness.drivers.kernelalg:"
LEAVES = [("lin", [15000, 5000]), ("poly", [5000, 5000, 2]), ("poly", [15000, 0, 3]), ("exp", [22500, 12500]), ("lap", [15000, 7500]),
          ("se", [15000, 7500]), ("pc", [22500, 12500]), ("rq", [15000, 12500, 1]), ("rq", [22500, 7500, 3]), ("rq", [15000, 10000, 6]),
          ("mat", [12500, 7500, 0]), ("mat", [12500, 12500, 1]), ("mat", [5000, 7500, 2]), ("mat", [12500, 16000, 3]),
          ("per", [10000, 12500, 20000]), ("per", [10000, 7500, 30000]), ("lp", [10000, 12500, 20000, 15000, 16000]), ("poi", [15000, 2500]), ("poi", [22500, 6500])]


def plan(tier, seed):
    big = tier == "thorough"

    def jobs():
        num = 400 if big else 90
        ex = C.simulate("KernelAlgMC", "KernelAlgGen.cfg", num, 9, seed)
        if len(ex) < num:
            raise C.MachineryError(f"only {len(ex)} expressions generated")
        uniq = []
        for e in ex:
            if e not in uniq:
                uniq.append(e)
        out = [(D + "exact", dict(exprs=uniq[i::10], seed=seed + i)) for i in range(10)]
        out += [(D + "guards", {}), (D + "sqrts", dict(seed=seed, count=20 if big else 6)), (D + "smooth", dict(seed=seed, count=3, spoiled=True))]
        out += [(D + "forms", dict(seed=seed * 7 + i, count=8 if big else 2)) for i in range(4)]
        for i in range(0, len(LEAVES), 3):
            for j, (op, p) in enumerate(LEAVES[i:i + 3]):
                out.append((D + "smooth", dict(seed=seed * 100 + i + j, count=6 if big else 2, depth=0, first=dict(op=op, p=p, s=[]))))
        out += [(D + "smooth", dict(seed=seed * 31 + i, count=40 if big else 9, depth=i % 4)) for i in range(8)]
        return out

    models = [dict(module="KernelAlgMC", workers=2)]
    if big:
        models.append(dict(module="KernelAlgMC", workers=3, cfg_text=(C.SPEC / "KernelAlgMC.cfg").read_text().replace("Depth = 3", "Depth = 4")))
    return dict(models=models, jobs=[], generate=jobs, chunks=6, assumptions=[
        "derivatives are judged at points where the kernel is differentiable (not at x = y for the exponential, periodic, locally periodic and degree-0 Matern kernels, nor on equal coordinates for the Laplacian)",
        "exact integers for linear and polynomial expressions; others in 64-bit evaluation, fourth-order differences with step 1/32, formulas to about 0.3 percent"])
