"""C35: copies of a component taken at any point of the stream continue exactly like the original, and independently of it."""
import base64
import copy
import io
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from ..common import Check, Family, HERE, in_fork
from .. import drivers as dr

# rrcf's trees hold a module and cannot be copied at all; Inqmad's compiled functions cannot be pickled
NAMES = [n for n in dr.ALL if n != "RobustRandomCutForest"]
PICKLABLE = [n for n in NAMES if n != "Inqmad"]
RICH = ["HalfSpaceTrees", "xStream", "RSHash", "StreamhashProjector", "KitNet", "KitNet", "LODA", "ExactStorm", "KNNCAD", "RelativeEntropy",
        "SeasonalESD", "ReferenceWindowModel", "ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator", "RunningStatistic",
        "Window", "MedianAbsoluteDeviation", "PerfectModel", "AUROCMetric", "WindowedMetric", "MedianMeter", "SeasonalTrendDecomposer",
        "ModifiedSTLResidualTransformer", "SparseRandomProjector", "GaussianRandomProjector", "OneFitModel", "LocalOutlierProbability",
        "RunningZScorePostprocessor", "VarianceMeter", "MaxMeter"]


def via_joblib(o):
    import joblib
    b = io.BytesIO()
    joblib.dump(o, b)
    b.seek(0)
    return joblib.load(b)


KINDS = {"deepcopy": copy.deepcopy, "pickle": lambda o: pickle.loads(pickle.dumps(o)),
         "pickle2": lambda o: pickle.loads(pickle.dumps(o, protocol=2)), "joblib": via_joblib,
         "twice": lambda o: copy.deepcopy(pickle.loads(pickle.dumps(o))),
         "list": lambda o: copy.deepcopy([o, {"a": o}])[1]["a"]}


def plan(case, d):
    """one life: a list of operations; reads only where they are defined"""
    ops = []
    if d.name == "PerfectModel":
        queue = 0
        for i in range(d.n):
            if case.flip(0.2):
                ops.append(("fit_read", i) if queue == 0 else ("read", 0))
                queue -= 0 if queue == 0 else 1
            else:
                ops.append(("fit", i))
                queue += 1
        return ops
    for i in range(d.n):
        ops.append(("fit_read", i) if case.flip(0.3) and i + 1 >= d.warm else ("fit", i))
        if i + 1 >= d.warm and case.flip(0.5):
            ops.append(("read", case.int(0, len(d.probes) - 1)))
    return ops


class Life:
    def __init__(self, case, d, ops, obj=None, pos=0, seedtag="ops"):
        self.case, self.d, self.ops, self.obj, self.pos, self.tag = case, d, ops, obj, pos, seedtag
        self.out = {}

    def start(self):
        self.case.reseed("ctor")
        self.obj = self.d.ctor()
        return self

    def step(self):
        k, i = self.ops[self.pos]
        self.case.reseed((self.tag, self.pos))
        v = getattr(self.d, k)(self.obj, i)
        if k != "fit":
            self.out[self.pos] = v
        self.pos += 1

    def run(self, until=None):
        while self.pos < (len(self.ops) if until is None else until):
            self.step()
        return self


def compare(case, life, ref, who, **kw):
    for p, v in life.out.items():
        case.close(v, ref[p], "%s continues differently" % who, rtol=max(life.d.rtol, 1e-9), atol=1e-9, step=p, op=life.ops[p], **kw)
        case.see("outputs compared")


LEN = {"KNNCAD": 110, "Inqmad": 5, "IForestASD": 10}


def setup(case, name):
    d = dr.driver(case, name, n=LEN.get(name, case.pick([12, 20, 30]) if name not in dr.LENGTH else None))
    ops = plan(case, d)
    straight = lambda: Life(case, d, ops).start().run().out
    ref = straight() if name == "Inqmad" else in_fork(straight)       # JAX does not survive a fork
    return d, ops, ref


def judge(case, name, kind=None):
    d, ops, ref = setup(case, name)
    kind = kind or (case.pick(sorted(KINDS)) if name in PICKLABLE else case.pick(["deepcopy", "list"]))
    N = len(ops)
    cut = case.pick([0, 1, N // 4, N // 2, 3 * N // 4, case.int(0, N - 1)])
    case.describe(component=name, cfg=d.cfg, kind=kind, cut=cut, ops=N)
    orig = Life(case, d, ops).start().run(cut)
    lives = [orig]

    def clone(of):
        c = Life(case, d, ops, KINDS[kind](of.obj), of.pos)
        lives.append(c)
        return c
    clone(orig)
    # a copy that goes another way: it starts over on the stream from a place of its own
    alt_ops = [ops[case.int(0, N - 1)] for _ in range(6)] if name != "PerfectModel" else [("fit_read", case.int(0, d.n - 1)) for _ in range(6)]
    if d.kind == "metric":           # keeps both classes in every window
        alt_ops = [("fit", 0), ("fit", 1)] if name != "WindowedMetric" else []
    elif not any(o[0] == "fit" for o in alt_ops[:2]):
        alt_ops = [("fit", case.int(0, d.n - 1)), ("fit", case.int(0, d.n - 1))] + alt_ops
    alt = Life(case, d, alt_ops, KINDS[kind](orig.obj), 0, seedtag="alt")
    mode = case.pick(["copy first", "original first", "mixed", "mixed", "original discarded"])
    if mode == "original discarded":
        orig.run(min(N, cut + case.int(0, 3)))
        orig.obj = None
        for _ in range(case.int(0, 1)):
            clone(lives[1])
        lives[1].run()
    elif mode == "copy first":
        lives[1].run()
        alt_run(alt, d, cut, N)
        orig.run()
    elif mode == "original first":
        orig.run()
        alt_run(alt, d, cut, N)
        lives[1].run()
    else:
        alts_left = len(alt.ops)
        while any(l.pos < N for l in lives):
            l = lives[case.rng.randint(len(lives))]
            if l.pos < N:
                l.step()
            if alts_left and case.flip(0.3) and (cut >= d.warm or alt.ops[alt.pos][0] == "fit"):
                alt.step()
                alts_left -= 1
            if len(lives) < 4 and case.flip(0.06):
                clone(l)
    for j, l in enumerate(lives):
        compare(case, l, ref, "the original" if j == 0 else "a copy", mode=mode, component=name)
    case.state(name, kind, cut, mode, [np.round(v, 6) for v in list(ref.values())[-2:]])


def alt_run(alt, d, cut, N):
    while alt.pos < len(alt.ops):
        if alt.ops[alt.pos][0] != "fit" and cut < d.warm:
            alt.pos += 1
            continue
        alt.step()


def copies(case):
    judge(case, NAMES[case.index % len(NAMES)])


def rich(case):
    judge(case, RICH[case.index % len(RICH)])


def larger(case):
    """windows and histories beyond a few dozen instances; copies taken several times along the way"""
    from .. import workloads as w
    from pysad import models as pm, statistics as st
    from pysad.transform import postprocessing as po, probability_calibration as pc
    r = case.rng
    n = case.int(300, 700)
    W = case.int(50, 200)
    kinds = {
        "storm": (lambda: pm.ExactStorm(W, 0.7), 2, "model"), "hst": (lambda: pm.HalfSpaceTrees(-np.ones(2) * 4, np.ones(2) * 4, W, 5, 6), 2, "model"),
        "xstream": (lambda: pm.xStream(6, 6, 6, W), 2, "model"), "mad": (lambda: pm.MedianAbsoluteDeviation(), 1, "model"),
        "rshash": (lambda: pm.RSHash(-np.ones(2) * 4, np.ones(2) * 4, num_components=8), 2, "model"),
        "kitnet": (lambda: pm.KitNet(2, 40, 120), 4, "model"), "relent": (lambda: pm.RelativeEntropy(-5.0, 5.0, 5, W), 1, "model"),
        "running": (lambda: st.RunningStatistic(st.MedianMeter, W), 0, "meter"), "conf": (lambda: pc.ConformalProbabilityCalibrator(window_size=W), 0, "post"),
        "gauss": (lambda: pc.GaussianTailProbabilityCalibrator(window_size=W), 0, "post"), "zscore": (lambda: po.RunningZScorePostprocessor(W), 0, "post"),
    }
    name = case.pick(sorted(kinds))
    ctor, dim, kind = kinds[name]
    X = r.randn(n, dim) if dim else r.randn(n)
    d = dr.D(name, kind, ctor, X, None, np.concatenate([X[:3], X[-2:]]), dict(n=n, W=W), warm=3)
    ops = []
    for i in range(n):
        ops.append(("fit", i))
        if i > 3 and i % 7 == 0:
            ops.append(("read", case.int(0, 4)))
    how = case.pick(["deepcopy", "pickle", "joblib"])
    ref = Life(case, d, ops).start().run().out
    cur = Life(case, d, ops).start()
    cuts = sorted(r.randint(0, len(ops), case.int(1, 5)))
    case.describe(component=name, n=n, W=W, kind=how, cuts=cuts)
    seen = {}
    for c in cuts:                 # a chain of restarts
        cur.run(c)
        seen.update(cur.out)
        cur = Life(case, d, ops, KINDS[how](cur.obj), c)
    cur.run()
    seen.update(cur.out)
    case.check(set(seen) == set(ref), "harness: missing outputs")
    cur.out = seen
    compare(case, cur, ref, "a chain of copies", component=name)
    case.state(name, how, n, W, cuts, [np.round(v, 6) for v in list(ref.values())[-2:]])


def moving(case):
    """small windows on a moving stream; restarts in the middle of windows; what was learned recently and long ago is read"""
    from pysad import models as pm
    from pysad.models.integrations import ReferenceWindowModel
    from .. import workloads as w
    r = case.rng
    W = case.int(2, 12)
    n = case.int(40, 90)
    steps = np.cumsum(r.choice([0, 0, 0, 1, -1], n) * r.choice([0.5, 2.0, 5.0]))
    X = steps[:, None] + 0.4 * r.randn(n, 2)
    if case.flip(0.4):                       # jumps between regimes
        X = r.choice([-3.0, 0.0, 3.0], (n // 7 + 1, 2)).repeat(7, axis=0)[:n] + 0.3 * r.randn(n, 2)
    lo, hi = X.min(0), X.max(0)
    k, depth, s1 = case.int(1, 6), case.int(2, 7), case.int(1, 9)
    kinds = {
        "storm": (lambda: pm.ExactStorm(W, 1.0), 2), "hst": (lambda: pm.HalfSpaceTrees(lo, hi, W, k, depth), 2),
        "hst2": (lambda: pm.HalfSpaceTrees(lo, hi, W, k, depth), 2), "hst3": (lambda: pm.HalfSpaceTrees(lo - 1, hi + 1, W + 3, k, depth), 2),
        "xstream": (lambda: pm.xStream(k + 1, k, depth, W), 2), "xstream2": (lambda: pm.xStream(k + 1, k, depth, W), 2),
        "rshash": (lambda: pm.RSHash(lo, hi, num_components=k + 2, decay=0.2), 2), "refwin": (lambda: ReferenceWindowModel(w.MeanDetector, W, s1), 2),
        "kitnet": (lambda: pm.KitNet(2, W, 3 * W), 2), "relent": (lambda: pm.RelativeEntropy(float(lo[0]) - 1, float(hi[0]) + 1, 5, W), 1),
        "knncad": (lambda: pm.KNNCAD(48), 1), "mad": (pm.MedianAbsoluteDeviation, 1), "loda": (lambda: pm.LODA(5, 6), 2),
        "sesd": (lambda: pm.SeasonalESD(2, 2 * W + 2, 1, seasonal=7), 1)}
    name = case.pick(sorted(kinds))
    ctor, dim = kinds[name]
    if name == "knncad":
        X = np.concatenate([X, X + 1])
        n = len(X)
    X = X[:, :dim]
    d = dr.D(name, "model", ctor, X, None, X, dict(n=n, W=W, k=k, depth=depth), warm=3)
    ops = []
    for i in range(n):
        ops.append(("fit", i))
        if i >= 3:
            for _ in range(case.int(0, 2)):
                ops.append(("read", int(np.clip(i - case.pick([0, 1, W, 2 * W, case.int(0, n)]), 0, n - 1))))
    how = case.pick(["deepcopy", "pickle", "joblib", "pickle2", "twice"])
    case.describe(component=name, cfg=d.cfg, kind=how)
    ref = in_fork(lambda: Life(case, d, ops).start().run().out)
    cur = Life(case, d, ops).start()
    cuts = sorted(set(int(c) for c in r.randint(1, len(ops), case.int(2, 8))))
    seen, keep = {}, []
    for c in cuts:
        cur.run(c)
        seen.update(cur.out)
        if case.flip():
            keep.append(cur)                 # the copied object lives on
        cur = Life(case, d, ops, KINDS[how](cur.obj), c)
    cur.run()
    seen.update(cur.out)
    cur.out = seen
    compare(case, cur, ref, "a chain of copies", component=name, cuts=cuts)
    for l in keep:
        l.out = {}
        l.run()
        compare(case, l, ref, "a copied object", component=name, cuts=cuts)
    case.state(name, how, cuts, [np.round(v, 6) for v in list(ref.values())[-2:]])


def other_process(case):
    """checkpoints written by one process and continued by another interpreter"""
    k = 15
    names = [PICKLABLE[(case.index * k + j) % len(PICKLABLE)] for j in range(k)]
    job = {"module": "pysadmon.checks.c35", "prop": case.prop, "seed": case.seed, "family": case.family, "index": case.index,
           "tier": case.tier, "names": names, "blobs": []}
    refs = []
    for j, name in enumerate(names):
        d, ops, cut, c = planned(job, j)
        refs.append((d, ops, Life(c, d, ops).start().run().out))
        o = Life(c, d, ops).start().run(cut)
        job["blobs"].append(base64.b64encode(pickle.dumps(o.obj)).decode())
    case.describe(components=names)
    env = dict(os.environ)
    env["PYTHONHASHSEED"] = str(case.int(1, 10**6))
    import tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(job, f)
    try:
        p = subprocess.run([sys.executable, "-m", "pysadmon.child", "@" + f.name], cwd=os.path.dirname(HERE), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=200)
    finally:
        os.unlink(f.name)
    line = [s for s in p.stdout.decode().splitlines() if s.startswith("CHILD ")]
    case.check(p.returncode == 0 and line, "a checkpoint cannot be continued in another process", stderr=p.stderr.decode()[-1500:])
    for name, (d, ops, ref), got in zip(names, refs, json.loads(line[0][6:])):
        for p_, v in got:
            case.close(np.array(v, dtype=np.float64), ref[p_], "a checkpoint continues differently in another process",
                       rtol=max(d.rtol, 1e-9), atol=1e-9, component=name, step=p_, cfg=d.cfg)
            case.see("outputs compared")
        case.state(name, len(got), [np.round(v, 6) for v in list(ref.values())[-2:]])


def planned(job, j):
    from ..common import Case, quiet
    c = Case(job["prop"], job["seed"], job["family"] + "-" + job["names"][j], job["index"] * 100 + j, job["tier"])
    with quiet():
        name = job["names"][j]
        d = dr.driver(c, name, n=LEN.get(name))
        ops = plan(c, d)
        return d, ops, c.int(0, len(ops) - 1), c


def child_outputs(job):
    from ..common import quiet
    res = []
    for j in range(len(job["names"])):
        d, ops, cut, c = planned(job, j)
        with quiet():
            life = Life(c, d, ops, pickle.loads(base64.b64decode(job["blobs"][j])), cut).run()
        res.append([(p, [float(x) for x in v]) for p, v in life.out.items()])
    return res


CHECK = Check(
    "C35", "exploration",
    "A case plans one life of a component (fits, reads, combined calls), runs it uninterrupted in a forked process, and runs it again "
    "with copies (deepcopy, pickle, joblib, nested, chained, loaded in a fresh interpreter with another hash seed) taken at a random "
    "point; original, copies, copies of copies and a diverging copy then run in random interleavings, and every output of every one is "
    "compared with the uninterrupted run. Distinct non-trivial: distinct (component, kind of copy, cut, schedule, outputs).",
    [Family(copies, 240, 3000), Family(rich, 240, 3000), Family(larger, 40, 400), Family(moving, 160, 2000), Family(other_process, 8, 60)],
    ["the global random state is set to the same value before corresponding calls",
     "the robust random cut forest (rrcf trees hold a module) and pickling of Inqmad are outside the property"])
