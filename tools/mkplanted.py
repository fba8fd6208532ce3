import json,pathlib,collections
caught_by={}
d=pathlib.Path('/verif/planted'); rows=collections.defaultdict(list)
for p in sorted([*d.iterdir(), *pathlib.Path('/verif/seeded').iterdir()], key=lambda p: p.name):
    m=json.load(open(p/'meta.json')); rows[m['property']].append((p.name,m['needs']))
out=["## 7. Planted bugs and which checks catch them","",
"Each entry is a change that builds, passes the repository's stable tests and is shown by its own demonstration.",
"Eight of them are under `seeded/` (so that a complete vcheck stays well inside its two hours), the others, in the same form, under `planted/`.",
"Every listed change is caught by the quick check (VERIF_SEED=1) of its property, run with the change bind-mounted over /repo.",
"","| property | planted change | needs |","|---|---|---|"]
for pr in sorted(rows):
    for n,needs in rows[pr]: out.append(f"| {pr} | {n} | {needs} |")
out+=["",
"Changes first missed, and what was strengthened: compress-int16 and mapreduce-int16 (P01, P09: datasets of more than 32768 rows), herd-weight-floor (P03: weights over many orders of magnitude), compress-half-kernels (P11: all halving kernels recorded), eig-rcond-fixed (P22: scaled systems), mean-float-weights (P14: one heavy zero row among very light large rows, signed weights), convert-unit-scale (P20: conversions observed after every prefix of a history), compress-replace-large (P02: more runs on data more than twice the working size), gkp-state-size (P19: kernels with values of both signs), herd-tie-jitter (P19: keys varied on tied points), stein-bw-string (P04: named bandwidth rules).",
"Batch 6 (`tools/bugs6.py`, tried against the checks only): kt-key-constant (P10: independence of unbiased swaps over many pairs), cpp-key (P11: marginals of large random clips), recomb-rcond-negative and tree-depth-large (P12: given rank tolerances, sizes around full trees), mean-outer-unroll (P14: every unroll setting on several blocks), ssm-noise-gamma and ssm-analytic-norm (P23: more noise levels and dimensions), iter-herd-state (P24: given states; Stein thinning of the benchmark compared too), normalize-int-weights (P13: a large deviation overflowed TLC's integers), gkp-loss-responses (P05: larger data), herd-zero-weight-refine (P08: coresets holding zero-weighted rows) were missed first and are caught now; annchor-last-column, ksd-kde-unweighted, ksd-laplace-trace, amcmd-default-weighting, weights-block-remainder, kt-choose-first-tie, cpp-dup-half, mr-filler-weight, tree-factor-order, single-index-squeeze, bench-delta-leaf, eig-mask-abs, kde-data-cap, herd-count-refine, rpc-underflow were caught at once; mean-axis0-block, kt-refine-half, stein-count change no result, mr-level-unweighted, gkp-candidates-held, eig-power break no statement; bench-cubic (a slightly different cooling schedule in the benchmark) remains undetected.",
"Changes written but discarded because the existing tests already fail with them, or because they turned out not to change behaviour: index-int16, rpc-fallback-mask, stein-kde-unweighted, tree-depth-floor, points-weight-product, recomb-absolute-rcond, approx-rcond, qp-iterations, recomb-fill, recomb-colinear-min, block-min-size, score-single-batch, sqrt-kernel-dim, mmd-block-xy, sbq-epsilon, kde-far-points, approx-replace, approx-train-repeat, imq-far, se-underflow, recomb-zero-mass, rpc-jitter, build-drops-weights, normalize-abs; batch-full-arange and recomb-explicit-drop (do not break the statement: order inside a complete batch, and weights below rounding); mapreduce-int16 (caught) was discarded because it touches a repaired line.",""]
p=pathlib.Path('/verif/DESIGN.md'); s=p.read_text()
i=s.find('@@PLANTED@@'); 
if i<0: i=s.index('## 7. Planted')
p.write_text(s[:i]+"\n".join(out))
