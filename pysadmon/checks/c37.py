"""C37: a pipeline gives the same scores online and stage by stage, and no result depends on anything that comes later."""
import random

import numpy as np

from ..common import Check, Family, Skip
from .. import workloads as w

MULTI = ["ExactStorm", "HalfSpaceTrees", "KitNet", "LODA", "LocalOutlierProbability", "NullModel", "RandomModel", "RobustRandomCutForest",
         "RSHash", "xStream", "OneFitModel", "ReferenceWindowModel", "IForestASD"]
UNI = ["KNNCAD", "MedianAbsoluteDeviation", "StandardAbsoluteDeviation", "RelativeEntropy", "SeasonalESD", "SeasonalHybridESD"]


class Stage:
    """one component with random generators of its own, so that online and staged execution draw the same numbers"""

    def __init__(self, case, tag, ctor):
        case.reseed(("stage", tag))
        self.name = tag
        self.state = (np.random.get_state(), random.getstate())
        self.obj = self.run(ctor)

    def run(self, fn, *a):
        outer = (np.random.get_state(), random.getstate())
        np.random.set_state(self.state[0])
        random.setstate(self.state[1])
        try:
            return fn(*a)
        finally:
            self.state = (np.random.get_state(), random.getstate())
            np.random.set_state(outer[0])
            random.setstate(outer[1])


def one(v):
    return float(np.asarray(v, dtype=np.float64).reshape(-1)[0])


def model_ctor(case, name, d):
    """a constructor of a randomly configured model for d features"""
    from pysad import models as pm
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    r = case.rng
    W = case.int(2, 12)
    lo, hi = -np.ones(d) * 3, np.ones(d) * 3
    init = r.randn(case.int(12, 20), d)
    c1, c2, c3 = case.int(1, 6), case.int(1, 4), case.int(2, 9)
    return {
        "ExactStorm": lambda: pm.ExactStorm(W, 0.8), "HalfSpaceTrees": lambda: pm.HalfSpaceTrees(lo, hi, W, c2, c1),
        "KitNet": lambda: pm.KitNet(c2, c1, c3), "LODA": lambda: pm.LODA(c3 + 1, c1 + 3),
        "LocalOutlierProbability": lambda: pm.LocalOutlierProbability(init.copy(), num_neighbors=4),
        "NullModel": pm.NullModel, "RandomModel": pm.RandomModel,
        "RobustRandomCutForest": lambda: pm.RobustRandomCutForest(num_trees=c2, tree_size=W + 2),
        "RSHash": lambda: pm.RSHash(lo, hi, num_components=c1 + 2), "xStream": lambda: pm.xStream(c1, c2, c1, W),
        "OneFitModel": lambda: OneFitModel(w.MeanDetector, init.copy(), scale=2.0),
        "ReferenceWindowModel": lambda: ReferenceWindowModel(w.MeanDetector, W, c3, initial_window_X=init.copy() if c1 % 2 else None),
        "IForestASD": lambda: pm.IForestASD(initial_window_X=init.copy(), window_size=W + 2, n_estimators=3),
        "KNNCAD": lambda: pm.KNNCAD(48 + c1), "MedianAbsoluteDeviation": lambda: pm.MedianAbsoluteDeviation(absolute=c1 % 2 == 0),
        "StandardAbsoluteDeviation": lambda: pm.StandardAbsoluteDeviation(absolute=c1 % 2 == 0),
        "RelativeEntropy": lambda: pm.RelativeEntropy(-6.0, 6.0, c3, W),
        "SeasonalESD": lambda: pm.SeasonalESD(c2 + 2, 3 * (c2 + 2) + c1 + 4, 1, seasonal=7), "PerfectModel": pm.PerfectModel,
        "SeasonalHybridESD": lambda: pm.SeasonalHybridESD(c2 + 2, 3 * (c2 + 2) + c1 + 4, 1, seasonal=7)}[name]


def pre_ctor(case, d):
    from pysad.transform import preprocessing as pp, projection as pj
    k, s, t = case.int(1, 6), case.int(1, 4), case.int(1, 5)
    opts = [("identity", pp.IdentityScaler, d), ("unit", lambda: pp.InstanceUnitNormScaler(pow=case_pow), d),
            ("hash", lambda: pj.StreamhashProjector(k), k), ("gauss", lambda: pj.GaussianRandomProjector(k), k),
            ("sparse", lambda: pj.SparseRandomProjector(k), k), ("decomp", lambda: pp.SeasonalTrendDecomposer(s, t), d)]
    case_pow = case.pick([1, 2, 3])
    if d > 1:
        opts.append(("std", pp.InstanceStandardScaler, d))
    return case.pick(opts)


def post_ctor(case):
    from pysad.transform import postprocessing as po, probability_calibration as pc
    W = case.int(1, 12)
    return case.pick([("avg", po.AveragePostprocessor), ("max", po.MaxPostprocessor), ("med", po.MedianPostprocessor),
                      ("ravg", lambda: po.RunningAveragePostprocessor(W)), ("rmax", lambda: po.RunningMaxPostprocessor(W)),
                      ("rmed", lambda: po.RunningMedianPostprocessor(W)),
                      ("conf", lambda: pc.ConformalProbabilityCalibrator(windowed=W % 2 == 0, window_size=W)),
                      ("gauss", lambda: pc.GaussianTailProbabilityCalibrator(running_statistics=W % 2 == 0, window_size=W))])


def ens_ctor(case, k):
    from pysad.transform import ensemble as en
    wt = case.rng.randint(1, 4, (1, k)).astype(float)
    return case.pick([("average", en.AverageScoreEnsembler), ("weighted", lambda: en.AverageScoreEnsembler(estimator_weights=wt.copy())),
                      ("maximum", en.MaximumScoreEnsembler), ("median", en.MedianScoreEnsembler)])


def build(case, names, d):
    """constructors of a random pipeline: preprocessors, detectors, ensembler, postprocessors"""
    spec = {"pre": [], "models": [], "post": []}
    for _ in range(case.pick([0, 1, 1, 2])):
        if names[0] in UNI:
            break
        p = pre_ctor(case, d)
        if p[0] == "unit" and spec["pre"] and spec["pre"][-1][0] in ("decomp", "sparse", "hash", "std"):
            continue            # a zero vector has no norm
        if p[0] == "std" and spec["pre"]:
            continue
        spec["pre"].append(p[:2])
        d = p[2]
    for nm in names:
        spec["models"].append((nm, model_ctor(case, nm, d)))
    if len(names) > 1:
        spec["ens"] = ens_ctor(case, len(names))
    for _ in range(case.pick([0, 1, 1, 2])):
        spec["post"].append(post_ctor(case))
    return spec


def make(case, spec):
    s = {"pre": [Stage(case, ("pre", i), c) for i, (_, c) in enumerate(spec["pre"])],
         "models": [Stage(case, ("model", i), c) for i, (_, c) in enumerate(spec["models"])],
         "post": [Stage(case, ("post", i), c) for i, (_, c) in enumerate(spec["post"])]}
    if "ens" in spec:
        s["ens"] = Stage(case, "ens", spec["ens"][1])
    return s


def online(case, spec, X, y, combined=True):
    """README style: one loop over the stream"""
    from pysad.utils import ArrayStreamer
    s = make(case, spec)
    out, raw = [], []
    for x, yi in ArrayStreamer(shuffle=False).iter(X, y):
        for p in s["pre"]:
            x = p.run(p.obj.fit_transform_partial, x)
        scores = []
        for m in s["models"]:
            if combined:
                scores.append(one(m.run(m.obj.fit_score_partial, x, yi)))
            else:
                m.run(m.obj.fit_partial, x, yi)
                scores.append(one(m.run(m.obj.score_partial, x)))
        v = scores[0] if "ens" not in s else one(s["ens"].run(s["ens"].obj.fit_transform_partial, np.array(scores)))
        raw.append(v)
        for p in s["post"]:
            v = one(p.run(p.obj.fit_transform_partial, v))
        out.append(v)
    return np.array(raw), np.array(out)


def staged(case, spec, X, y, cuts=()):
    """every stage processes the whole stream (in the given pieces) before the next one starts"""
    s = make(case, spec)
    n = len(X)
    bounds = [0] + sorted(set(int(c) for c in cuts)) + [n]
    pieces = [(a, b) for a, b in zip(bounds, bounds[1:]) if a < b]
    Z = X
    for p in s["pre"]:
        Z = np.concatenate([np.asarray(p.run(p.obj.fit_transform, Z[a:b])) for a, b in pieces], axis=0)
    cols = []
    for m in s["models"]:
        cols.append(np.concatenate([np.asarray(m.run(m.obj.fit_score, Z[a:b], None if y is None else y[a:b])) for a, b in pieces]))
    S = np.stack(cols, axis=1)
    v = S[:, 0] if "ens" not in s else np.asarray(s["ens"].run(s["ens"].obj.fit_transform, S))
    raw = np.array(v, dtype=np.float64)
    for p in s["post"]:
        v = np.concatenate([np.asarray(p.run(p.obj.fit_transform, v[a:b])) for a, b in pieces])
    return raw, np.array(v, dtype=np.float64)


def stream(case, names, n):
    if names[0] in UNI:
        t = np.arange(n)
        return (np.clip(np.sin(t / 2.0) + 0.3 * case.rng.randn(n) + 4 * (case.rng.rand(n) < 0.05), -5.9, 5.9)).reshape(-1, 1)
    d = case.int(2, 6)
    return np.clip(w.matrix(case, n, d, kinds=["normal", "uniform", "shift", "heavy"]), -50, 50) + 0.01 * case.rng.randn(n, d)


def choose(case):
    if case.flip(0.25):
        return [case.pick(UNI)] * case.pick([1, 1, 2])
    k = case.pick([1, 1, 2, 3, 4])
    return [case.pick(MULTI) for _ in range(k)]


def judged(spec, raw):
    """the Gaussian calibrator divides by a deviation that may be pure rounding on (nearly) constant scores"""
    if any(p == "gauss" for p, _ in spec["post"]) and len(np.unique(np.round(raw, 9))) < max(4, len(raw) // 2):
        return False
    return True


def same(case):
    """online loop = stage-by-stage batch processing, in one piece or several; the metric at the end agrees as well"""
    from pysad.evaluation import AUROCMetric, AUPRMetric
    names = choose(case)
    n = {"KNNCAD": 90}.get(names[0], case.pick([10, 25, 40, 70]))
    X = stream(case, names, n)
    y = case.rng.randint(0, 2, n)
    y[:2] = [0, 1]
    spec = build(case, names, X.shape[1])
    case.describe(pre=[p for p, _ in spec["pre"]], models=names, ens=spec.get("ens", (None,))[0], post=[p for p, _ in spec["post"]], n=n)
    # (a seasonal ESD model scores an instance that is not fitted yet as one more instance)
    raw, a = online(case, spec, X, y, combined=case.flip() or names[0].startswith("Seasonal"))
    kw = dict(rtol=1e-9, atol=1e-10)
    ok = judged(spec, raw)
    for cuts in ((), case.rng.randint(0, n, case.int(1, 4))):
        raw2, b = staged(case, spec, X, y, cuts)
        case.close(raw2, raw, "staged detector scores differ from the online loop's", cuts=list(cuts), **kw)
        if ok:
            case.close(b, a, "staged pipeline outputs differ from the online loop's", cuts=list(cuts), **kw)
        case.see("pipeline outputs compared", n)
    A = AUROCMetric(), AUPRMetric()
    for i in range(n):
        for m in A:
            m.update(int(y[i]), a[i])
    if ok and np.isfinite(a).all():
        from sklearn.metrics import roc_auc_score, average_precision_score
        case.close(A[0].get(), roc_auc_score(y, a), "AUROC of the pipeline's outputs", rtol=1e-9)
    case.state(case.desc["pre"], names, case.desc["ens"], case.desc["post"], np.round(a[-2:], 6))


def causal(case):
    """results for the first k instances do not change with what follows, neither online nor in batch calls"""
    names = choose(case)
    n = {"KNNCAD": 90}.get(names[0], case.pick([10, 25, 40]))
    k = case.int(1, n - 1)
    X = stream(case, names, n)
    spec = build(case, names, X.shape[1])
    y = case.rng.randint(0, 2, n)
    X2, y2 = X.copy(), y.copy()
    X2[k:] = np.clip(case.rng.permutation(X2[k:]) * case.pick([-1, 3, 1]) + case.pick([0.0, 1.0]), -5.9, 5.9) if names[0] in UNI \
        else case.rng.permutation(X2[k:]) * case.pick([-1, 10]) + case.pick([0.0, 5.0])
    y2[k:] = 1 - y2[k:]
    if case.flip(0.3):
        X2, y2 = X2[:k], y2[:k]
    case.describe(pre=[p for p, _ in spec["pre"]], models=names, ens=spec.get("ens", (None,))[0], post=[p for p, _ in spec["post"]], n=n, k=k)
    for how in (online, staged):
        ra, a = how(case, spec, X, y)
        rb, b = how(case, spec, X2, y2)
        case.close(rb[:k], ra[:k], "detector scores depend on later instances", how=how.__name__, rtol=1e-9, atol=1e-10)
        case.close(b[:k], a[:k], "pipeline outputs depend on later instances", how=how.__name__, rtol=1e-9, atol=1e-10)
        case.see("prefix outputs compared", 2 * k)
    case.state(case.desc["pre"], names, k, case.desc["post"], np.round(a[:k][-2:], 6))


def long_pipelines(case):
    """a few hundred to a few thousand instances through cheap stages"""
    n = case.pick([300, 900, 1500, 2500])
    names = [case.pick(["HalfSpaceTrees", "LODA", "ExactStorm", "KitNet", "ReferenceWindowModel", "NullModel", "RSHash"]) for _ in range(case.int(1, 2))]
    X = stream(case, names, n)
    y = case.rng.randint(0, 2, n)
    y[:2] = [0, 1]
    spec = build(case, names, X.shape[1])
    case.describe(pre=[p for p, _ in spec["pre"]], models=names, ens=spec.get("ens", (None,))[0], post=[p for p, _ in spec["post"]], n=n)
    raw, a = online(case, spec, X, y)
    raw2, b = staged(case, spec, X, y, case.pick([(), (n // 3,), (1000,), (1, n - 1)]))
    case.close(raw2, raw, "staged detector scores differ from the online loop's", rtol=1e-9, atol=1e-10)
    if judged(spec, raw) and "gauss" not in case.desc["post"]:
        case.close(b, a, "staged pipeline outputs differ from the online loop's", rtol=1e-9, atol=1e-10)
    case.see("pipeline outputs compared", n)
    case.state(case.desc["pre"], names, n, case.desc["post"], np.round(a[-2:], 6))


CHECK = Check(
    "C37", "exploration",
    "A case draws a pipeline (0-2 preprocessors/projectors, 1-4 detectors, an ensembler, 0-2 postprocessors/calibrators, a metric), runs "
    "it as the documented online loop and stage by stage with the batch calls (whole stream or pieces), each stage having its own random "
    "generator state, and compares every output; or runs it on two streams with a common prefix and compares the prefix's outputs. "
    "Distinct non-trivial: distinct (pipeline, outputs).",
    [Family(same, 240, 3000), Family(causal, 160, 2000), Family(long_pipelines, 24, 300)],
    ["each stage keeps its own state of the global generators", "near-constant scores are not passed to a Gaussian tail calibrator"])
