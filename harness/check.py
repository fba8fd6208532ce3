"""Entry point: python harness/check.py <property> <quick|thorough>."""
import importlib
import json
import os
import pathlib
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from harness import common as C  # noqa: E402


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(f"harness.props.{prop.lower()}")
    plan = mod.plan(tier, seed)
    # plan: dict(models=[(module,cfg,workers)], jobs=[(fn,kwargs)], level, assumptions)
    states = trans = 0
    with ThreadPoolExecutor(4) as ex:
        mcs = [ex.submit(C.model_check, **m) for m in plan.get("models", [])]
        pre = plan.get("generate")
        jobs = pre() if pre else plan["jobs"]
        results = C.run_jobs(jobs, procs=plan.get("procs", 7), timeout=plan.get("timeout", 700))
        groups = {}
        violations = []
        known_hits = {}
        for j, (st, v) in zip(jobs, results):
            if st == "timeout":
                violations.append(dict(clause="no result within the time limit", record=dict(job=j[0], **j[1])))
                continue
            if st == "raised":
                violations.append(dict(clause="unexpected exception on a supported call",
                                       record=dict(job=j[0], kwargs=j[1], error=v[-1500:])))
                continue
            for rec in v:
                groups.setdefault(rec.pop("_spec"), []).append(rec)
        models = [f.result() for f in mcs]
    for m in models:
        states += m["distinct"]
        trans += m["generated"]
    known = C.Findings(prop)
    ntr = 0
    samples = []
    for spec, recs in groups.items():
        metas = [r.pop("_meta", {}) for r in recs]
        bad, gen, dist = C.validate(spec, recs, chunks=plan.get("chunks", 6))
        states += dist
        trans += gen
        ntr += len(recs)
        samples += [dict(spec=spec, record=recs[i], **({"meta": metas[i]} if metas[i] else {})) for i in range(0, len(recs), max(1, len(recs) // 2))][:2]
        for i, clause in bad:
            kf = metas[i].get("finding")
            if kf and kf in known.entries and clause in known.entries[kf].get("clauses", [clause]):
                known_hits.setdefault(kf, known.entries[kf]["what"])
                continue
            violations.append(dict(spec=spec, clause=clause, record=recs[i], meta=metas[i]))
    extra = {"per_spec": {s: len(r) for s, r in groups.items()},
             "design_models": [dict(module=m.get("module"), distinct=r["distinct"], generated=r["generated"])
                               for m, r in zip(plan.get("models", []), models)]}
    return C.finish(prop, tier, seed, plan.get("level", "model_checking"), t0, states=states,
                    transitions=trans, traces=ntr, samples=samples[:4], violations=violations,
                    known=[known_hits[k] for k in sorted(known_hits)], extra=extra,
                    assumptions=plan.get("assumptions", ()))


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    except C.MachineryError as e:
        print("MACHINERY ERROR:", e)
        rc = 3
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
