"""Plants bugs listed in a python file BUGS (list of dicts) into /verif/planted/<id>/.

usage: plant.py BUGS.py make [ids...]    write planted/<id> and try the demos in scratch copies
       plant.py BUGS.py tests ids...     run the repository's stable tests on a copy with all given bugs
       plant.py BUGS.py checks ids...    run the property's quick check on /repo with each bug applied
Development tool only; no check uses it.
"""
import json, os, pathlib, shutil, subprocess, sys, importlib.util, tempfile
REPO = pathlib.Path("/repo"); SEED = pathlib.Path("/verif/planted")
spec = importlib.util.spec_from_file_location("bugs", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
BUGS = {b["id"]: b for b in mod.BUGS}
cmd, ids = sys.argv[2], sys.argv[3:] or list(BUGS)
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", JAX_PLATFORMS="cpu")

def scratch(name):
    p = pathlib.Path("/tmp") / name
    if p.exists(): shutil.rmtree(p)
    subprocess.run(["git", "clone", "-q", str(REPO), str(p)], check=True, env=dict(os.environ, GIT_LFS_SKIP_SMUDGE="1"))
    return p

def edit(root, b):
    for f, old, new in b["edits"]:
        p = root / f; s = p.read_text()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        p.write_text(s.replace(old, new))

if cmd == "make":
    from concurrent.futures import ThreadPoolExecutor
    clean = scratch("wt_clean")
    def make(i):
        b = BUGS[i]; wt = scratch("wt_bug_" + i)
        try:
            edit(wt, b)
        except AssertionError as e:
            return print("EDIT", e, flush=True)
        diff = subprocess.run(["git", "-C", str(wt), "diff", "--", "coreax"], capture_output=True, text=True, check=True).stdout
        d = SEED / i; d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text('#!/bin/bash\nset -e\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        (d / "demo.sh").chmod(0o755)
        (d / "demo.py").write_text(b["demo"].lstrip("\n"))
        (d / "meta.json").write_text(json.dumps(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), indent=1) + "\n")
        out = []
        for root in (clean, wt):
            r = subprocess.run(["bash", str(d / "demo.sh")], cwd=root, env=dict(ENV, PYTHONPATH=str(root)), capture_output=True, text=True, timeout=600)
            out.append((r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]))
        ok = out[0][0] == 0 and out[1][0] != 0
        print("OK " if ok else "BAD", i, out, flush=True)
        shutil.rmtree(wt)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(make, ids))
elif cmd == "tests":
    wt = scratch("wt_bug")
    for i in ids: edit(wt, BUGS[i])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ign = [f"--ignore=tests/integration/{x}.py" for x in ("test_pounce", "test_pounce_map_reduce", "test_pounce_map_reduce_ssm", "test_herding_basic", "test_herding_basic_weighted", "test_herding_refine")]
    common = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-rf"]
    e = dict(ENV, PYTHONPATH=str(wt))
    for a in (["tests", "--ignore=tests/integration", "-n", "8", "--dist", "worksteal"], ["tests/integration", "-n", "4", "--dist", "loadfile"] + ign):
        r = subprocess.run(common + a, cwd=wt, env=e, capture_output=True, text=True)
        lines = r.stdout.splitlines()
        for l in lines:
            if l.startswith(("FAILED", "ERROR")): print(l[:300])
        print(lines[-1] if lines else r.stderr[-500:], flush=True)
elif cmd == "checks":  # in a private mount namespace, so that /repo itself is left alone
    from concurrent.futures import ThreadPoolExecutor
    def check(i):
        b = BUGS[i]; wt = scratch("wt_chk_" + i); edit(wt, b)
        r = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {wt} /repo && cd /verif && exec /opt/venv/bin/python harness/check.py {b['property']} quick"], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True, timeout=2400)
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        print(i, b["property"], "exit", r.returncode, v[:2], flush=True)
        if r.returncode not in (0, 1): print(r.stdout[-800:], r.stderr[-800:])
        shutil.rmtree(wt)
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(check, ids))
elif cmd == "unit":
    T = {"coresubset": ["test_solvers.py"], "composite": ["test_solvers.py"], "recombination": ["test_solvers.py"], "coreset": ["test_coreset.py", "test_solvers.py"], "data": ["test_data.py", "test_coreset.py", "test_kernels"],
         "scalar_valued": ["test_kernels"], "base": ["test_kernels"], "metrics": ["test_metrics.py"], "weights": ["test_weights.py"], "score_matching": ["test_score_matching.py"], "approximation": ["test_approximation.py"], "least_squares": ["test_least_squares.py"], "util": ["test_util.py", "test_solvers.py"], "networks": ["test_networks.py", "test_score_matching.py"], "benchmark_util": ["test_benchmark.py"]}
    for i in ids:
        wt = scratch("wt_bug"); edit(wt, BUGS[i])
        fs = sorted({str(f) for e in BUGS[i]["edits"] for t in T[pathlib.Path(e[0]).stem] for f in (wt / "tests/unit").glob(t + "*")})
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "4", "-rf", *fs], cwd=wt, env=dict(ENV, PYTHONPATH=str(wt)), capture_output=True, text=True)
        L = r.stdout.splitlines()
        print(i, L[-1] if L else r.stderr[-300:], [l[:160] for l in L if l.startswith(("FAILED", "ERROR"))][:3], flush=True)
