from harness import common as C

D = "harness.drivers.replay:"


def plan(tier, seed):
    big = tier == "thorough"
    per = 10 if big else 2

    def jobs():
        hs = C.simulate("ReplayMC", "ReplayGen.cfg", 160 if big else 60, 22, seed)
        by = {}
        for h in hs:
            if len(by.setdefault(h["group"], [])) < per:
                by[h["group"]].append(h["calls"])
        if len(by) < 8 or any(len(v) < per for v in by.values()):
            raise C.MachineryError(f"too few histories: { {k: len(v) for k, v in by.items()} }")
        # the histories of one group start in different processes
        return [(D + "ties", dict(seed=seed * 9 + i, count=60 if big else 6)) for i in range(2)] + [(D + "run", dict(history=by[g][i], hid=100 * g + i)) for i in range(per) for g in sorted(by)]

    return dict(models=[dict(module="ReplayMC", workers=2), dict(module="ReplayMC", cfg="ReplayShape.cfg", workers=2)],
                jobs=[], generate=jobs, chunks=1, timeout=840, assumptions=[
        "four datasets (two of one shape, one of them also reweighted), two keys, 32 operations in eight groups; eager, compiled and state-passing calls",
        "indices are compared exactly, numbers to about five decimals; single-threaded CPU execution"])
