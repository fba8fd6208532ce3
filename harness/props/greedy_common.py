"""Job lists shared by the properties decided with the greedy specification."""
from harness import common as C

G = "harness.drivers.greedy:"
MODEL = dict(module="GreedyMC", workers=2)


def exhaustive(cfg="GreedyGen.cfg", uniqs=(True, False), starts=(0, 1, 2), chunk=1500):
    """Every small instance enumerated by TLC, grouped by static shape."""
    groups = {}
    for r in C.generate("GreedyGen", cfg):
        if len(r["start"]) in starts:
            groups.setdefault((r["m"], len(r["start"])), []).append((r["K"], r["w"], r["start"]))
    jobs = []
    for (m, k), cases in sorted(groups.items()):
        for u in uniqs:
            for i in range(0, len(cases), chunk):
                jobs.append((G + "herd_exhaustive", dict(cases=cases[i:i + chunk], m=m, uniq=u, nstart=k)))
    return jobs
