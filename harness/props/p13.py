from harness import common as C


def plan(tier, seed):
    big = tier == "thorough"

    def jobs():
        out = []
        for k, (num, depth) in enumerate([(1500, 7), (400, 7)] if big else [(420, 7)]):
            hs = C.simulate("ObjectsMC", "ObjectsGen.cfg", num, depth + 2, seed * 10 + k)
            if len(hs) < num:
                raise C.MachineryError(f"only {len(hs)} of {num} histories generated")
            n = 14
            out += [("harness.drivers.objects:replay", dict(histories=hs[i::n], start=i + k)) for i in range(n)]
        return out

    models = [dict(module="ObjectsMC", workers=2)]
    if big:
        models.append(dict(module="ObjectsMC", workers=3, cfg_text=(C.SPEC / "ObjectsMC.cfg").read_text()
                           .replace("Depth = 3", "Depth = 4")))
    return dict(models=models, jobs=[], generate=jobs, chunks=6, assumptions=[
        "histories of seven operations generated by TLC's simulator from ObjectsMC; datasets of up to 4 rows (6 with padding)",
        "one-element weight vectors are only given to one-row datasets (longer ones broadcast them)"])
