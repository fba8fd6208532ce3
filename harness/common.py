"""Shared machinery: TLC runner, trace validation, worker pool, evidence, verdicts.

A *job* is ``(function_path, kwargs)``; it runs in a worker process, exercises the real
code under /repo and returns a list of trace records (dicts of ints/strings/bools/lists).
Records are written as NDJSON and validated by TLC against a trace specification in
/verif/spec, which prints one ``BAD`` line per rejected record naming the failed clause
and one ``DONE`` line with the number of records consumed.
"""

import importlib
import json
import multiprocessing as mp
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = "/repo"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself broke (not the property)."""


# ----------------------------------------------------------------------------- TLC
def _tlc_cmd(module, cfg, workdir, workers=1, heap="3g", extra=(), jvm=()):
    return [
        "java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC",
        "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={workdir}", f"-Xmx{heap}", "-Xss256m", *jvm,
        f"-DTLA-Library={SPEC}", "-cp", TLA_CP, "tlc2.TLC",
        "-noGenerateSpecTE", "-workers", str(workers), "-metadir", str(workdir / "meta"),
        "-config", str(cfg), *extra, str(module),
    ]


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
_SIMSTATS = re.compile(r"The number of states generated: (\d+)")


def run_tlc(module, cfg=None, env=None, workers=1, timeout=800, extra=(), heap="3g", cfg_text=None):
    """Run TLC on SPEC/module.tla; return dict(ok, out, generated, distinct, rc)."""
    work = pathlib.Path(tempfile.mkdtemp(prefix="vtlc_"))
    try:
        if cfg_text is not None:
            cfgp = work / f"{module}.cfg"
            cfgp.write_text(cfg_text)
        else:
            cfgp = SPEC / (cfg or f"{module}.cfg")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = _tlc_cmd(SPEC / f"{module}.tla", cfgp, work, workers, heap, extra)
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, check=False)
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timed out on {module} after {timeout}s") from ex
        out = p.stdout
        gen = dist = 0
        for m in _STATS.finditer(out):
            gen, dist = int(m.group(1)), int(m.group(2))
        for m in _SIMSTATS.finditer(out):
            gen = dist = int(m.group(1))
        return dict(ok=p.returncode == 0, rc=p.returncode, out=out, generated=gen, distinct=dist)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def model_check(module, cfg=None, workers=2, timeout=800, heap="4g", extra=(), cfg_text=None):
    """Exhaustively check a design model; an error here is the machinery's, not the code's."""
    r = run_tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra, cfg_text=cfg_text)
    if not r["ok"]:
        raise MachineryError(f"model check {module} ({cfg}) failed:\n" + r["out"][-4000:])
    return r


def generate(module, cfg=None, timeout=300, env=None, heap="3g"):
    """Run a generator specification; it writes NDJSON to OUT_FILE.  Returns the records."""
    work = pathlib.Path(tempfile.mkdtemp(prefix="vgen_"))
    try:
        f = work / "out.ndjson"
        en = dict(env or {})
        en["OUT_FILE"] = str(f)
        r = run_tlc(module, cfg, env=en, timeout=timeout, heap=heap)
        if not r["ok"] or not f.exists():
            raise MachineryError(f"generator {module} failed:\n" + r["out"][-3000:])
        return [json.loads(line) for line in f.read_text().splitlines() if line.strip()]
    finally:
        shutil.rmtree(work, ignore_errors=True)


_HIST = re.compile(r'<<\s*"HIST",\s*("(?:[^"\\]|\\.)*")\s*>>')


def simulate(module, cfg, num, depth, seed, timeout=300, heap="3g"):
    """Behaviours of a specification: it prints <<"HIST", ToJson(history)>> at the end of each."""
    r = run_tlc(module, cfg, timeout=timeout, heap=heap,
                extra=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)))
    if "Error:" in r["out"]:
        raise MachineryError(f"simulation of {module} failed:\n" + r["out"][-3000:])
    return [json.loads(json.loads(m.group(1))) for m in _HIST.finditer(r["out"])]


# TLC wraps tuples wider than the line, so the pattern spans lines.
_BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*("(?:[^"\\]|\\.)*")\s*>>')
_DONE = re.compile(r'<<\s*"DONE",\s*(\d+)\s*>>')


def validate(module, records, cfg=None, chunks=4, timeout=800, heap="3g", env=None):
    """Validate records against trace spec ``module``; returns (bad, generated, distinct).

    ``bad`` is a list of (record index, clause text)."""
    if not records:
        return [], 0, 0
    chunks = max(1, min(chunks, len(records) // 40 + 1))
    work = pathlib.Path(tempfile.mkdtemp(prefix="vtrace_"))
    try:
        from concurrent.futures import ThreadPoolExecutor

        def one(c):
            part = list(range(c, len(records), chunks))
            f = work / f"t{c}.ndjson"
            with open(f, "w") as fh:
                for i in part:
                    fh.write(json.dumps(records[i]) + "\n")
            en = dict(env or {})
            en["TRACE_FILE"] = str(f)
            r = run_tlc(module, cfg, env=en, timeout=timeout, heap=heap)
            if not r["ok"]:
                raise MachineryError(f"trace validation {module} failed:\n" + r["out"][-5000:])
            done = [int(m.group(1)) for m in _DONE.finditer(r["out"])]
            if not done or done[-1] != len(part):
                raise MachineryError(f"{module}: consumed {done} of {len(part)} records\n" + r["out"][-3000:])
            bad = []
            for m in _BAD.finditer(r["out"]):
                bad.append((part[int(m.group(1)) - 1], m.group(2)))
            if len(bad) != len(re.findall(r'<<\s*"BAD"', r["out"])):
                raise MachineryError(f"{module}: unreadable verdict\n" + r["out"][-3000:])
            # TLC may evaluate a printing action twice; keep one verdict per record/clause.
            return sorted(set(bad)), r["generated"], r["distinct"]

        with ThreadPoolExecutor(chunks) as ex:
            res = list(ex.map(one, range(chunks)))
        bad = [b for r in res for b in r[0]]
        return bad, sum(r[1] for r in res), sum(r[2] for r in res)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------------------- workers
def _worker_env():
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    os.environ["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
    os.environ["OMP_NUM_THREADS"] = "1"


def _run_job(arg):
    fpath, kwargs = arg
    sys.dont_write_bytecode = True
    try:
        mod, fn = fpath.rsplit(":", 1)
        t = time.time()
        recs = getattr(importlib.import_module(mod), fn)(**kwargs)
        if os.environ.get("VERIF_TIMING"):
            sys.stderr.write(f"[job] {fpath} {kwargs} {len(recs)} recs {time.time()-t:.1f}s\n")
        return ("ok", recs)
    except BaseException:  # noqa: BLE001
        tb = traceback.format_exc()
        # An unexpected exception out of the code under test is an observation.
        return ("raised" if "/repo/coreax/" in tb else "error", tb)


def _init_worker():
    _worker_env()
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.ERROR)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if str(VERIF) not in sys.path:
        sys.path.insert(0, str(VERIF))


def run_jobs(jobs, procs=7, timeout=700):
    """Run jobs in worker processes; returns list aligned with jobs.

    Entries: ("ok", records) | ("raised", traceback) | ("timeout", None).  A driver crash is a machinery error."""
    _worker_env()
    ctx = mp.get_context("spawn")
    out = []
    pool = ctx.Pool(min(procs, len(jobs)), initializer=_init_worker)
    try:
        handles = [pool.apply_async(_run_job, (j,)) for j in jobs]
        deadline = time.time() + timeout
        for j, h in zip(jobs, handles):
            try:
                st, v = h.get(timeout=max(1.0, deadline - time.time()))
            except mp.TimeoutError:
                out.append(("timeout", None))
                continue
            if st == "error":
                raise MachineryError(f"driver {j[0]} {j[1]} crashed:\n{v}")
            out.append((st, v))
    finally:
        pool.terminate()
        pool.join()
    return out


# ------------------------------------------------------------------------- verdicts
class Findings:
    """known_findings.jsonl: entries {property, finding: <id>, ...} or {fixed: ...}."""

    def __init__(self, prop):
        self.entries = {}
        p = VERIF / "known_findings.jsonl"
        if p.exists():
            for line in p.read_text().splitlines():
                if line.strip():
                    d = json.loads(line)
                    if d.get("property") == prop and "finding" in d:
                        self.entries[d["finding"]] = d


def finish(prop, tier, seed, level, t0, *, states, transitions, traces, samples, violations,
           known=(), extra=None, assumptions=()):
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(states=states, transitions=transitions,
                            traces_validated_against_impl=traces, samples=samples, **(extra or {})),
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    rp = VERIF / "replay"
    rp.mkdir(exist_ok=True)
    f = rp / f"{prop}.json"
    if violations:
        f.write_text(json.dumps(violations[:50], indent=1, default=str) + "\n")
        for v in violations[:5]:
            print(f"  {v.get('clause')}: {json.dumps(v.get('record'), default=str)[:600]}")
        print(f"VIOLATION property={prop} replay={f}")
        return 1
    if f.exists():
        f.unlink()
    print(f"OK property={prop} tier={tier} states={states} traces={traces} wall={ev['wall_s']}s")
    return 0


# ------------------------------------------------------------------------- driver helpers
def attempt(fn, *a, **k):
    """Call code under test; an exception is an observation, not a driver failure."""
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__ + ": " + str(e)[:300])
