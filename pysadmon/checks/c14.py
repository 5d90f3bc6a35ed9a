"""C14: fix_seed makes every run reproducible, in this process or another one; different seeds give different draws."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from ..common import Check, Family, HERE
from .. import drivers as dr
from .. import workloads as w

NAMES = [n for n in dr.ALL if n != "Inqmad"] + ["RandomModel", "HalfSpaceTrees", "xStream", "RobustRandomCutForest", "RSHash", "LODA",
                                                "SparseRandomProjector", "GaussianRandomProjector", "IForestASD"]
WITH_INQMAD = NAMES + ["Inqmad"]


def noise(case):
    """arbitrary consumption of both process-wide generators, including a pending Gaussian"""
    for _ in range(case.int(0, 5)):
        k = case.int(0, 4)
        if k == 0:
            np.random.randn(case.int(1, 7))
        elif k == 1:
            random.random()
        elif k == 2:
            random.shuffle(list(range(9)))
        elif k == 3:
            np.random.seed(case.int(0, 1000))
        else:
            random.gauss(0, 1)


def outputs(d, seed):
    """fix_seed, build, run: everything the user sees, as one list of floats"""
    from pysad.utils import fix_seed
    fix_seed(seed)
    obj = d.ctor()
    out = []
    h = 2 * d.n // 3
    for i in range(d.n):
        if d.name == "PerfectModel":
            out.append(d.fit_read(obj, i))
            continue
        if i % 3 == 0 and i + 1 >= d.warm:
            out.append(d.fit_read(obj, i))
        else:
            d.fit(obj, i)
        if i + 1 >= d.warm and (i > h or i % 4 == 0):
            out.append(d.read(obj, i % len(d.probes)))
    if d.kind in ("model", "transformer", "post") and d.name != "PerfectModel":
        out.append(np.asarray(d.batch_read(obj, list(range(min(4, len(d.probes))))), dtype=np.float64).reshape(-1))
    return np.concatenate(out).astype(np.float64)


def pick_driver(case, name):
    return dr.driver(case, name, n={"IForestASD": 10, "KNNCAD": 110}.get(name))


def same_process(case):
    name = WITH_INQMAD[case.index % len(WITH_INQMAD)]
    d = pick_driver(case, name)
    seed = case.pick([0, 1, 42, 61, 2**31, 2**32 - 1, case.int(0, 10**6)])
    case.describe(component=name, cfg=d.cfg, seed=seed)
    noise(case)
    a = outputs(d, seed)
    for _ in range(case.int(0, 2)):      # other components draw in between
        o = dr.driver(case, case.pick(["HalfSpaceTrees", "RandomModel", "LODA", "xStream", "GaussianRandomProjector"]), n=6)
        outputs(o, case.int(0, 99))
    noise(case)
    b = outputs(d, seed)
    case.close(b, a, "the same seed gave other outputs in a repetition", rtol=1e-12, atol=1e-13, component=name)
    case.see("outputs compared", a.size)
    case.state(name, seed, np.round(a[-4:], 7))


def other_process(case):
    """the same components in a fresh interpreter with another hash seed"""
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(case.int(1, 10**6))
    k = 14
    seed = case.int(0, 10**6)
    chunk = [WITH_INQMAD[(case.index * k + j) % len(WITH_INQMAD)] for j in range(k)]
    job = {"prop": case.prop, "seed": case.seed, "family": case.family, "index": case.index, "tier": case.tier, "names": chunk, "fix": seed}
    p = subprocess.run([sys.executable, "-m", "pysadmon.child", json.dumps(job)], cwd=os.path.dirname(HERE), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
    line = [s for s in p.stdout.decode().splitlines() if s.startswith("CHILD ")]
    case.describe(components=chunk, seed=seed, hashseed=env["PYTHONHASHSEED"])
    case.check(p.returncode == 0 and line, "the run in another process failed", stderr=p.stderr.decode()[-800:])
    theirs = json.loads(line[0][6:])
    noise(case)
    mine = child_outputs(job)
    for name, a, b in zip(chunk, mine, theirs):
        case.close(np.array(b, dtype=np.float64), np.array(a, dtype=np.float64), "the same seed gave other outputs in another process",
                   rtol=1e-12, atol=1e-13, component=name)
        case.see("outputs compared", len(a))
        case.state(name, seed, np.round(a[-4:], 7))


def child_outputs(job):
    from ..common import Case, quiet
    res = []
    for j, name in enumerate(job["names"]):
        c = Case(job["prop"], job["seed"], job["family"] + "-" + name, job["index"] * 100 + j, job["tier"])
        with quiet():
            d = pick_driver(c, name)
            res.append([float(v) for v in outputs(d, job["fix"])])
    return res


DIFF = ["HalfSpaceTrees", "LODA", "RobustRandomCutForest", "RSHash", "xStream", "RandomModel", "GaussianRandomProjector",
        "SparseRandomProjector", "shuffle", "frame", "IForestASD"]


def _diff_outputs(case, name, X, seed):
    from pysad import models as pm
    from pysad.transform import projection as pj
    from pysad.utils import fix_seed, ArrayStreamer, PandasStreamer
    fix_seed(seed)
    d = X.shape[1]
    if name == "shuffle":
        return np.concatenate(list(ArrayStreamer(shuffle=True).iter(X)))
    if name == "frame":
        import pandas as pd
        return np.concatenate([np.asarray(v) for v in PandasStreamer(shuffle=True).iter(pd.DataFrame(X))])
    if name == "GaussianRandomProjector":
        return pj.GaussianRandomProjector(num_components=3).fit_transform(X)
    if name == "SparseRandomProjector":
        return pj.SparseRandomProjector(num_components=6).fit_transform(X)
    m = {"HalfSpaceTrees": lambda: pm.HalfSpaceTrees(X.min(0), X.max(0), window_size=7, num_trees=4, max_depth=5),
         "LODA": lambda: pm.LODA(num_bins=5, num_random_cuts=7),
         "RobustRandomCutForest": lambda: pm.RobustRandomCutForest(num_trees=3, tree_size=12),
         "RSHash": lambda: pm.RSHash(X.min(0), X.max(0), num_components=8),
         "xStream": lambda: pm.xStream(num_components=6, n_chains=4, depth=6, window_size=6),
         "RandomModel": pm.RandomModel,
         "IForestASD": lambda: pm.IForestASD(window_size=8, n_estimators=4)}[name]()
    if name == "RSHash":
        return np.asarray(m.fit_score(np.concatenate([X, X]) * 0.2), dtype=np.float64)
    return np.asarray(m.fit(X).score(X[::-1] + 0.05), dtype=np.float64)


def seeds_differ(case):
    name = DIFF[case.index % (len(DIFF) - 1)] if case.index % 4 else DIFF[case.index // 4 % len(DIFF)]
    X = case.rng.randn(18, case.int(3, 5))
    seeds = [case.int(0, 10**6) for _ in range(9)]
    if case.flip(0.3):
        step = 2**case.int(8, 28)
        seeds = [case.int(0, 99) + step * (j + 1) for j in range(9)]
        seeds = [seeds[0] + step * j for j in range(9)]
    outs = {}
    case.describe(component=name, seeds=seeds)
    for s in seeds:
        noise(case)
        a = _diff_outputs(case, name, X, s)
        case.check(np.all(np.isfinite(a)), "non-finite outputs", component=name)
        outs[tuple(np.round(np.asarray(a).reshape(-1), 9))] = s
        case.see("seeds run")
    case.check(len(outs) >= 2, "nine different seeds all gave the same random outcome", component=name)
    case.state(name, len(outs), seeds[0])


def generators(case):
    """fix_seed fixes both process-wide generators completely"""
    from pysad.utils import fix_seed
    s = case.pick([0, 1, 7, 2**32 - 1, case.int(0, 10**7)])
    case.describe(seed=s)

    def draw():
        return [random.random(), np.random.rand(), np.random.randn(), random.gauss(0, 1), np.random.randint(10**6), random.randint(0, 10**6)] + \
            list(np.random.permutation(8)) + random.sample(range(50), 5)
    noise(case)
    fix_seed(s)
    a = draw()
    noise(case)
    fix_seed(s)
    case.eq(draw(), a, "fix_seed does not reset the generators")
    step = case.pick([1, 2, 1 + case.int(0, 99), 2**case.int(3, 31), 10**case.int(2, 9), 3 * 2**case.int(8, 29), 2**16 - 1, 2**31 - 1])
    fix_seed((int(s) + int(step)) % 2**32)
    b = draw()
    case.check(a[0] != b[0] and a[1] != b[1], "two different seeds give the same draws", a=a, b=b, step=step)
    case.state(s, a[0])


def dynamic_buckets(case):
    """random buckets of dynamic size are drawn from the fixed seed too"""
    from pysad.transform.ensemble import AverageOfMaximumScoreEnsembler, MaximumOfAverageScoreEnsembler
    from pysad.utils import fix_seed
    aom = case.index % 2 == 0
    cls = AverageOfMaximumScoreEnsembler if aom else MaximumOfAverageScoreEnsembler
    X = case.rng.randn(40, 14)
    outs = []
    case.describe(cls=cls.__name__)
    for _ in range(2):
        noise(case)
        fix_seed(5)
        outs.append(np.asarray(cls(n_buckets=4, method="dynamic").fit_transform(X)))
    case.see("outputs compared", 40)
    case.eq(outs[1], outs[0], "dynamic buckets are not reproducible under fix_seed", key="%s-dynamic" % ("aom" if aom else "moa"))
    case.state(aom, np.round(outs[0][:3], 6))


def bootstrap_buckets(case):
    from pysad.transform.ensemble import AverageOfMaximumScoreEnsembler, MaximumOfAverageScoreEnsembler
    from pysad.utils import fix_seed
    cls = case.pick([AverageOfMaximumScoreEnsembler, MaximumOfAverageScoreEnsembler])
    boot = case.flip()
    X = case.rng.randn(20, 12)
    outs = []
    s = case.int(0, 10**6)
    case.describe(cls=cls.__name__, bootstrap=boot, seed=s)
    for _ in range(2):
        noise(case)
        fix_seed(s)
        outs.append(np.asarray(cls(n_buckets=case.index % 3 + 2, bootstrap_estimators=boot).fit_transform(X)))
    case.eq(outs[1], outs[0], "static buckets are not reproducible under fix_seed")
    case.state(cls.__name__, boot, s)


def shuffled_streams(case):
    import pandas as pd
    from pysad.utils import fix_seed, ArrayStreamer, PandasStreamer
    n = case.int(2, 40)
    X, y = np.arange(2.0 * n).reshape(n, 2), np.arange(n)
    s = case.int(0, 10**6)
    frame = case.flip()
    runs = []
    case.describe(n=n, seed=s, frame=frame)
    for _ in range(2):
        noise(case)
        fix_seed(s)
        if frame:
            runs.append([int(v) for _, v in PandasStreamer(shuffle=True).iter(pd.DataFrame(X), pd.Series(y))])
        else:
            runs.append([int(v) for _, v in ArrayStreamer(shuffle=True).iter(X, y)])
    case.eq(runs[1], runs[0], "shuffled order is not reproducible under fix_seed")
    case.state(frame, n, s, runs[0][:5])


def dataset_streams(case):
    """the seed handed to a dataset iterator, or fixed before it, decides the order completely"""
    import shutil
    import tempfile
    from pysad.utils import Data, fix_seed
    n = case.int(12, 40)
    s = case.pick([0, 0, 1, 2**32 - 1, case.int(0, 10**6)])
    how = case.pick(["argument", "fixed", "both"])
    base = tempfile.mkdtemp(prefix="pysadmon_c14_")
    try:
        with open(os.path.join(base, "d.txt"), "w") as f:
            for i in range(n):
                f.write("%d,%d,%d\n" % (i, -i, i % 2))
        case.describe(n=n, seed=s, how=how)
        runs = []
        for _ in range(3):
            noise(case)
            if how != "argument":
                fix_seed(s if how == "fixed" else case.int(0, 10**6))
            kw = {} if how == "fixed" else {"seed": s}
            runs.append([int(x[0]) for x, _ in Data(base).get_iterator("d.txt", **kw)])
        case.eq(runs[1:], [runs[0]] * 2, "the order of a dataset's stream is not reproducible under its seed")
        case.check(sorted(runs[0]) == list(range(n)) and runs[0] != sorted(runs[0]), "the stream is not shuffled", order=runs[0])
        case.state(n, s, how, runs[0][:6])
    finally:
        shutil.rmtree(base, ignore_errors=True)


CHECK = Check(
    "C14", "exploration",
    "A case runs a whole component life (construction, random mix of fits, scores, transforms and batch calls) twice after fix_seed with "
    "arbitrary draws before, in the same process or in a fresh interpreter with another hash seed, and compares every output; or runs "
    "nine seeds and requires different random outcomes. Distinct non-trivial: distinct (component, seed, outputs) runs.",
    [Family(same_process, 230, 3000), Family(other_process, 8, 60), Family(seeds_differ, 88, 900), Family(generators, 160, 1600),
     Family(shuffled_streams, 40, 400), Family(bootstrap_buckets, 30, 300), Family(dataset_streams, 40, 400), Family(dynamic_buckets, 4, 20)],
    ["outputs are compared to 1e-12 relative; single-threaded BLAS as set in run.sh"])
