"""C29: higher scores mean more anomalous, for every learning model."""
import numpy as np

from ..common import Check, Family

MODELS = ["HalfSpaceTrees", "IForestASD", "KitNet", "LODA", "LocalOutlierProbability", "MedianAbsoluteDeviation",
          "StandardAbsoluteDeviation", "RobustRandomCutForest", "SeasonalESD", "SeasonalHybridESD", "xStream", "OneFitModel",
          "ReferenceWindowModel", "ExactStorm", "RSHash", "RelativeEntropy", "Inqmad"]


def direction(case, d):
    v = case.rng.randn(d)
    return v / np.linalg.norm(v)


def build(case, name):
    """(constructor, normal stream, normal probe, far probe, scored as the next fitted instance?)"""
    from pysad import models as pm
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    r = case.rng
    d = case.int(1, 6)
    n = case.int(60, 140)
    mu = r.randn(d) * case.pick([0.0, 1.0, 20.0])
    s = float(case.pick([0.05, 1.0, 10.0]))
    X = mu + s * r.randn(n, d)
    near = mu + 0.1 * s * r.randn(d)
    far = mu + direction(case, d) * s * np.sqrt(d) * case.rng.uniform(40, 200)
    # far along every axis, so that no random subspace or projection hides it
    far = mu + np.sign(far - mu + 1e-300) * np.maximum(np.abs(far - mu), 25 * s)
    if name == "HalfSpaceTrees":
        lo, hi = np.zeros(d), np.ones(d) * case.pick([1.0, 10.0])
        side = r.randint(0, 2, d)
        U = r.uniform(0.05, 0.4, (n, d))
        X = lo + (hi - lo) * np.where(side, 1 - U, U)
        near = lo + (hi - lo) * np.where(side, 0.8, 0.2)
        far = lo + (hi - lo) * np.where(side, 0.1, 0.9)
        W = case.int(5, n // 2)
        c = dict(window_size=W, num_trees=case.int(1, 20), max_depth=case.int(1, 10))
        return (lambda: pm.HalfSpaceTrees(lo, hi, **c)), X, near, far, False
    if name == "IForestASD":
        W = case.int(20, 50)
        return (lambda: pm.IForestASD(window_size=W, n_estimators=30)), X, near, far, False
    if name == "KitNet":
        c = dict(grace_feature_mapping=20, grace_anomaly_detector=n - 25, max_size_ae=case.int(1, 5))
        return (lambda: pm.KitNet(**c)), X, near, far, False
    if name == "LODA":
        s = 1e-4
        X = mu + s * r.randn(n, d)
        nb = case.pick([3, 5, 9, 11, 25])  # odd: the bin of the last instance reaches to both sides of it
        return (lambda: pm.LODA(num_bins=nb, num_random_cuts=40)), X, mu + 0.1 * s * r.randn(d), mu + np.sign(r.randn(d)) * 50, False
    if name == "LocalOutlierProbability":
        init = X.copy()
        k = case.int(5, 12)
        return (lambda: pm.LocalOutlierProbability(init, num_neighbors=k)), X[:5], near, far, False
    if name in ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation"):
        cls = getattr(pm, name)
        up = case.flip()
        X = mu[0] + s * r.randn(n, 1)
        near, far = np.array([mu[0] + 0.1 * s * r.randn()]), np.array([mu[0] + 30 * s * (1 if up else -1)])
        c = {}
        if name.startswith("Standard"):
            c["substracted_statistic"] = case.pick(["mean", "median"])
        if up and case.flip():
            c["absolute"] = False
        return (lambda: cls(**c)), X, near, far, False
    if name == "RobustRandomCutForest":
        c = dict(num_trees=case.int(4, 10), tree_size=case.int(20, 200))
        return (lambda: pm.RobustRandomCutForest(**c)), X, near, far, False
    if name in ("SeasonalESD", "SeasonalHybridESD"):
        cls = getattr(pm, name)
        per = case.int(3, 8)
        W = per * case.int(8, 12)
        n = W + case.int(0, 20)
        x = 5 * s * np.sin(2 * np.pi * np.arange(n + 1) / per) + 0.1 * s * np.clip(r.randn(n + 1), -2, 2) + mu[0]
        up = case.pick([-1, 1])
        c = dict(period=per, window_size=W, max_anomalies=case.int(1, 4))
        return (lambda: cls(**c)), x[:n, None], None, np.array([x[n] + up * 100 * s]), False
    if name == "xStream":
        c = dict(num_components=case.int(10, 40), n_chains=case.int(20, 40), depth=case.int(5, 15), window_size=case.int(15, 30))
        return (lambda: pm.xStream(**c)), X, near, far, False
    if name == "OneFitModel":
        from pyod.models.hbos import HBOS
        from pyod.models.iforest import IForest
        from pyod.models.knn import KNN
        det, kw = case.pick([(KNN, {}), (IForest, dict(n_estimators=30)), (HBOS, {})])
        case.describe(detector=det.__name__)
        return (lambda: OneFitModel(det, X.copy(), **kw)), X[:3], near, far, False
    if name == "ReferenceWindowModel":
        from pyod.models.iforest import IForest
        from pyod.models.knn import KNN
        det, kw = case.pick([(KNN, {}), (IForest, dict(n_estimators=30))])
        case.describe(detector=det.__name__)
        W, S = case.int(20, 40), case.int(5, 25)
        return (lambda: ReferenceWindowModel(det, W, S, X[:30].copy(), **kw)), X, near, far, False
    if name == "ExactStorm":
        c = dict(window_size=case.int(20, 200), max_radius=2 * s * np.sqrt(d))
        return (lambda: pm.ExactStorm(**c)), X, near, far, False
    if name == "RSHash":
        lo, hi = X.min(0), X.max(0)
        return (lambda: pm.RSHash(lo, hi, num_components=30)), X * 0.01 / s, near * 0.01 / s, far * 0.01 / s + 50, True
    if name == "RelativeEntropy":
        W = case.int(20, 40)
        x = r.uniform(0.01, 0.39, 2 * W)
        return (lambda: pm.RelativeEntropy(0.0, 1.0, 5, W)), x[:, None], np.array([0.2]), np.array([0.95]), "repeat"
    if name == "Inqmad":
        s = 0.01
        X = mu + s * r.randn(20, d)
        seed = case.int(0, 99)
        return (lambda: pm.Inqmad(d, 64, 1.0, seed)), X, mu.copy(), mu + 7.0, False
    raise ValueError(name)


def pairs(case):
    name = MODELS[case.index % len(MODELS)]
    case.describe(model=name)
    ctor, X, near, far, as_fit = build(case, name)
    case.describe(n=len(X), near=near, far=far)

    def fresh():
        case.reseed("build")
        m = ctor()
        for x in X:
            m.fit_partial(x.copy())
        return m

    def score(p):
        if not as_fit:
            return case.scalar(m.score_partial(p.copy()))
        k = fresh()
        if as_fit == "repeat":
            # a window's worth of instances like p
            for q in (X if p is near else [p] * 15):
                s = k.fit_score_partial(np.array(q, dtype=float))
            return case.scalar(s)
        return case.scalar(k.fit_score_partial(p.copy()))

    m = fresh() if not as_fit else None
    if name.startswith("Seasonal"):
        # the normal instance continues the season
        near = np.array([float(X[-period_of(X)][0])])
    a, b = score(near), score(far)
    case.check(b > a, "%s: the far instance scores %r, the normal one %r" % (name, b, a), key=name, near_score=a, far_score=b)
    case.see("pairs:" + name)
    case.state(name, round(a, 6), round(b, 6))


def period_of(X):
    """smallest lag at which the series repeats best"""
    x = X[:, 0]
    return min(range(3, 9), key=lambda p: float(np.mean(np.abs(x[p:] - x[:-p]))))


def ranks(case):
    """KNN-CAD scores a rank probability: on average over streams the far instance must rank higher"""
    from pysad.models import KNNCAD
    P = case.int(48, 80)
    n = case.pick([P + 10, 2 * P + 11, 2 * P + 30])
    mu, s = case.rng.randn() * case.pick([0.0, 20.0]), float(case.pick([0.05, 1.0, 10.0]))
    case.describe(P=P, n=n, mu=mu, s=s)
    a, b = [], []
    for _ in range(10):
        x = mu + s * case.rng.randn(n + 1)
        for out, last in ((a, x[n]), (b, mu + 60 * s * case.pick([-1, 1]))):
            m = KNNCAD(P)
            for v in x[:n]:
                m.fit_partial(np.array([v]))
            out.append(case.scalar(m.fit_score_partial(np.array([last]))))
            case.see("scores")
    case.check(np.mean(b) > np.mean(a), "KNNCAD: far instances rank %.3f on average, normal ones %.3f" % (np.mean(b), np.mean(a)), key="KNNCAD")
    case.state(P, n, tuple(a), tuple(b))


CHECK = Check("C29", "exploration",
              "distinct = distinct (model, normal score, anomalous score) pairs compared by the monitor",
              [Family(pairs, 17 * 12, 17 * 250), Family(ranks, 8, 100)],
              ["normal behaviour is one compact cluster (or one noisy season); far instances lie at least 25 cluster scales away in every feature",
               "LODA's normal cluster lies within one histogram bin (see the C33 finding)"], case_timeout=400)
