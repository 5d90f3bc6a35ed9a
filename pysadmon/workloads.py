"""Input generators and factories of real pysad components, shared by the checks."""
import numpy as np

KINDS = ["normal", "uniform", "lattice", "const", "dups", "heavy", "shift", "tiny", "offset", "binary", "sparse"]
BENIGN = ["normal", "uniform", "lattice", "dups", "shift", "offset", "sparse"]


def matrix(case, n, d, kind=None, kinds=KINDS):
    """n x d finite float64 matrix."""
    r = case.rng
    kind = kind or case.pick(kinds)
    if kind == "normal":
        X = r.randn(n, d)
    elif kind == "uniform":
        X = r.rand(n, d) * 4 - 1
    elif kind == "lattice":
        X = r.randint(-3, 4, size=(n, d)).astype(float)
    elif kind == "const":
        X = np.tile(r.randint(-5, 6, size=(1, d)) + r.choice([0.0, 0.1, 0.3]), (n, 1))
    elif kind == "dups":
        base = r.randn(max(1, n // 4), d)
        X = base[r.randint(0, len(base), size=n)] if n else np.zeros((0, d))
    elif kind == "heavy":
        X = np.clip(r.standard_cauchy((n, d)), -1e4, 1e4)
    elif kind == "shift":
        X = r.randn(n, d)
        X[n // 2:] += 10 * r.randn(1, d)
    elif kind == "tiny":
        X = r.randn(n, d) * 1e-5
    elif kind == "offset":
        X = r.randn(n, d) + r.choice([-1, 1], size=(1, d)) * 1000.0
    elif kind == "binary":
        X = r.randint(0, 2, size=(n, d)).astype(float)
    elif kind == "sparse":
        X = r.randn(n, d) * (r.rand(n, d) < 0.4)
    else:
        raise ValueError(kind)
    return np.ascontiguousarray(X, dtype=np.float64)


UKINDS = ["walk", "season", "spikes", "lattice", "const", "normal", "dups", "offset", "shift"]


def series(case, n, kind=None, kinds=UKINDS):
    """univariate finite series of length n"""
    r = case.rng
    kind = kind or case.pick(kinds)
    if kind == "walk":
        return np.cumsum(r.randn(n))
    if kind == "season":
        p = r.randint(3, 9)
        return 3 * np.sin(2 * np.pi * np.arange(n) / p) + 0.3 * r.randn(n)
    if kind == "spikes":
        x = r.randn(n)
        k = r.rand(n) < 0.05
        x[k] += r.choice([-1, 1], size=k.sum()) * 20
        return x
    return matrix(case, n, 1, kind)[:, 0]


def layout(case, X, which=None, writable=True):
    """The same values in another memory layout."""
    which = which or case.pick(["C", "F", "rows", "cols", "rev", "C"])
    if which == "F":
        Y = np.array(X, order="F")
    elif which == "rows" and X.ndim >= 1:
        b = np.empty((2 * X.shape[0],) + X.shape[1:], X.dtype)
        b[:] = np.array(77).astype(X.dtype)
        b[::2] = X
        Y = b[::2]
    elif which == "cols" and X.ndim == 2:
        b = np.empty((X.shape[0], 3 * X.shape[1]), X.dtype)
        b[:] = np.array(-77).astype(X.dtype)
        b[:, 1::3] = X
        Y = b[:, 1::3]
    elif which == "rev":
        Y = X[::-1].copy()[::-1]
    else:
        Y = X.copy()
    if not writable:
        Y.flags.writeable = False
    return Y


class MeanDetector:
    """Cheap deterministic batch detector with the PyOD interface."""

    def __init__(self, scale=1.0):
        self.scale = scale

    def fit(self, X, y=None):
        self.mu = np.mean(np.asarray(X, dtype=float), axis=0)
        self.w = 0.0 if y is None else float(np.mean(np.asarray(y, dtype=float)))
        return self

    def decision_function(self, X):
        return self.scale * np.linalg.norm(np.asarray(X, dtype=float) - self.mu, axis=1) + self.w


class M:
    """A configured model under test."""

    def __init__(self, name, ctor, d, gen, cfg, warm=1, needs_y=False, pure=True, stochastic=False,
                 window=None, univariate=False, last_fitted=False, rtol=1e-9, cost=1):
        self.name, self.ctor, self.d, self.gen, self.cfg = name, ctor, d, gen, cfg
        self.warm, self.needs_y, self.pure, self.stochastic = warm, needs_y, pure, stochastic
        self.window, self.univariate, self.last_fitted = window, univariate, last_fitted
        self.rtol, self.cost = rtol, cost


MODEL_NAMES = ["ExactStorm", "HalfSpaceTrees", "IForestASD", "Inqmad", "KitNet", "KNNCAD", "LODA",
               "LocalOutlierProbability", "MedianAbsoluteDeviation", "StandardAbsoluteDeviation",
               "NullModel", "PerfectModel", "RandomModel", "RelativeEntropy", "RobustRandomCutForest",
               "RSHash", "SeasonalESD", "SeasonalHybridESD", "xStream", "OneFitModel",
               "ReferenceWindowModel"]


def model(case, name, small=True, kinds=BENIGN):
    """A random configuration of the named model with a matching stream generator."""
    from pysad import models as pm
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    r = case.rng
    d = case.int(1, 5)

    def gen(n, d=d):
        return matrix(case, n, d, kinds=kinds)

    def ugen(n):
        return series(case, n).reshape(-1, 1)

    def unit(n, d=d):
        return r.rand(n, d)

    if name == "ExactStorm":
        c = dict(window_size=case.int(1, 12), max_radius=float(case.pick([0.1, 0.5, 1.0, 2.0])))
        return M(name, lambda: pm.ExactStorm(**c), d, gen, c, window=c["window_size"], warm=0)
    if name == "HalfSpaceTrees":
        lo, hi = -np.ones(d) * case.int(1, 4), np.ones(d) * case.int(1, 4)
        if case.flip(0.2):       # features without a range
            flat = np.ones(d, dtype=bool) if case.flip() else r.rand(d) < 0.5
            hi[flat] = lo[flat] = float(case.pick([0.0, 0.5]))
        c = dict(window_size=case.int(1, 9), num_trees=case.int(1, 5), max_depth=case.int(1, 5))
        return M(name, lambda: pm.HalfSpaceTrees(lo.copy(), hi.copy(), **c), d, gen, dict(c, ranges=(hi - lo).tolist()), stochastic=True,
                 window=c["window_size"], warm=0)
    if name == "IForestASD":
        c = dict(window_size=case.int(4, 10), n_estimators=4)
        init = matrix(case, case.int(3, 10), d, kinds=kinds) if case.flip() else None
        return M(name, lambda: pm.IForestASD(initial_window_X=None if init is None else init.copy(), **c), d, gen,
                 dict(c, init=init is not None), stochastic=True, window=c["window_size"], cost=20)
    if name == "Inqmad":
        c = dict(input_shape=d, dim_x=case.pick([4, 8]), gamma=float(case.pick([0.1, 1.0])), random_state=case.int(0, 50))
        return M(name, lambda: pm.Inqmad(**c), d, gen, c, rtol=2e-4, cost=60)
    if name == "KitNet":
        wide = case.flip(0.3)
        if wide:
            d = case.pick([case.int(6, 14), case.int(14, 40)])
        c = dict(max_size_ae=case.pick([case.int(5, 14), d]) if wide else case.int(1, 4), grace_feature_mapping=case.int(1, 6),
                 grace_anomaly_detector=case.int(1, 8), learning_rate=0.1, hidden_ratio=0.75)
        return M(name, lambda: pm.KitNet(**c), d, lambda n: r.rand(n, d), c)
    if name == "KNNCAD":
        c = dict(probationary_period=case.int(48, 55))
        return M(name, lambda: pm.KNNCAD(**c), 1, ugen, c, pure=False, univariate=True, cost=5)
    if name == "LODA":
        c = dict(num_bins=case.int(3, 10), num_random_cuts=case.int(2, 8))
        return M(name, lambda: pm.LODA(**c), d, gen, c, stochastic=True)
    if name == "LocalOutlierProbability":
        init = r.randn(case.int(12, 25), d)
        c = dict(num_neighbors=case.int(2, 8), extent=case.int(1, 3))
        return M(name, lambda: pm.LocalOutlierProbability(init.copy(), **c), d, lambda n: r.randn(n, d) * 3, c, warm=0, cost=5)
    if name == "MedianAbsoluteDeviation":
        c = dict(absolute=case.flip(), b=float(case.pick([1.4826, 1.0, 2.0])))
        return M(name, lambda: pm.MedianAbsoluteDeviation(**c), 1, ugen, c, univariate=True)
    if name == "StandardAbsoluteDeviation":
        c = dict(absolute=case.flip(), substracted_statistic=case.pick(["mean", "median"]))
        return M(name, lambda: pm.StandardAbsoluteDeviation(**c), 1, ugen, c, univariate=True)
    if name == "NullModel":
        return M(name, lambda: pm.NullModel(), d, gen, {}, warm=0)
    if name == "PerfectModel":
        return M(name, lambda: pm.PerfectModel(), d, gen, {}, needs_y=True, pure=False)
    if name == "RandomModel":
        return M(name, lambda: pm.RandomModel(), d, gen, {}, pure=False, stochastic=True, warm=0)
    if name == "RelativeEntropy":
        c = dict(min_val=0.0, max_val=1.0, num_bins=case.int(2, 6), window_size=case.int(2, 15))
        return M(name, lambda: pm.RelativeEntropy(**c), 1, lambda n: np.clip(r.rand(n, 1) ** case.int(1, 3), 1e-6, 1), c,
                 univariate=True, last_fitted=True, warm=0)
    if name == "RobustRandomCutForest":
        c = dict(num_trees=case.int(1, 4), shingle_size=case.int(1, 4), tree_size=case.int(2, 12))
        return M(name, lambda: pm.RobustRandomCutForest(**c), d, gen, c, stochastic=True, window=c["tree_size"], warm=2)
    if name == "RSHash":
        lo, hi = np.zeros(d), np.ones(d) * 2
        c = dict(num_components=case.int(1, 12), num_hash_fns=case.int(1, 3), decay=float(case.pick([0.015, 0.2])),
                 sampling_points=case.int(1, 50))
        return M(name, lambda: pm.RSHash(lo.copy(), hi.copy(), **c), d, gen, c, stochastic=True, last_fitted=True)
    if name in ("SeasonalESD", "SeasonalHybridESD"):
        per = case.int(2, 5)
        c = dict(period=per, window_size=case.int(2 * per, 3 * per + 4), alpha=0.05, robust=case.flip())
        c["max_anomalies"] = case.int(1, max(1, int(c["window_size"] * 0.49)))
        cls = getattr(pm, name)
        return M(name, lambda: cls(**c), 1, ugen, c, univariate=True, window=c["window_size"], cost=10, warm=0)
    if name == "xStream":
        c = dict(num_components=case.int(1, 8), n_chains=case.int(1, 4), depth=case.int(1, 5), window_size=case.int(1, 8))
        return M(name, lambda: pm.xStream(**c), d, gen, c, stochastic=True, window=c["window_size"], warm=0)
    if name == "OneFitModel":
        init = matrix(case, case.int(2, 9), d, kinds=kinds)
        det = MeanDetector
        c = dict(scale=float(case.int(1, 3)))
        if case.flip(0.3):
            from pyod.models.iforest import IForest
            det, c = IForest, dict(n_estimators=4)
        return M(name, lambda: OneFitModel(det, init.copy(), **c), d, gen, dict(c, det=det.__name__),
                 stochastic=det is not MeanDetector, warm=0, cost=1 if det is MeanDetector else 10)
    if name == "ReferenceWindowModel":
        W, S = case.int(2, 9), case.int(1, 11)
        init = matrix(case, case.int(1, 12), d, kinds=kinds) if case.flip() else None
        c = dict(window_size=W, sliding_size=S, scale=float(case.int(1, 3)))
        return M(name, lambda: ReferenceWindowModel(MeanDetector, initial_window_X=None if init is None else init.copy(), **c),
                 d, gen, dict(c, init=init is not None), window=W)
    raise ValueError(name)


class T:
    """A configured transformer under test (vector in, vector out)."""

    def __init__(self, name, ctor, d, gen, cfg, partial_scalar=False, stochastic=False, window=None, rtol=1e-9):
        self.name, self.ctor, self.d, self.gen, self.cfg = name, ctor, d, gen, cfg
        self.partial_scalar, self.stochastic, self.window, self.rtol = partial_scalar, stochastic, window, rtol


TRANSFORMER_NAMES = ["IdentityScaler", "InstanceStandardScaler", "InstanceUnitNormScaler", "StreamhashProjector",
                     "GaussianRandomProjector", "SparseRandomProjector", "SeasonalTrendDecomposer",
                     "ModifiedSTLResidualTransformer"]


def transformer(case, name):
    from pysad.transform import preprocessing as pp, projection as pj
    r = case.rng
    d = case.int(2, 6)

    def gen(n, d=d):
        return matrix(case, n, d, kinds=["normal", "uniform", "heavy", "offset"]) + r.rand(n, d)

    if name == "IdentityScaler":
        return T(name, lambda: pp.IdentityScaler(), d, gen, {})
    if name == "InstanceStandardScaler":
        return T(name, lambda: pp.InstanceStandardScaler(), d, gen, {})
    if name == "InstanceUnitNormScaler":
        c = dict(pow=case.pick([1, 2, 3, np.inf]))
        return T(name, lambda: pp.InstanceUnitNormScaler(**c), d, gen, c)
    if name == "StreamhashProjector":
        c = dict(num_components=case.int(1, 7), density=float(case.pick([1 / 3.0, 0.5, 1.0])))
        return T(name, lambda: pj.StreamhashProjector(**c), d, gen, c)
    if name == "GaussianRandomProjector":
        c = dict(num_components=case.int(1, 7))
        return T(name, lambda: pj.GaussianRandomProjector(**c), d, gen, c, stochastic=True)
    if name == "SparseRandomProjector":
        c = dict(num_components=case.int(1, 7), density=case.pick(["auto", 0.5]))
        return T(name, lambda: pj.SparseRandomProjector(**c), d, gen, c, stochastic=True)
    if name == "SeasonalTrendDecomposer":
        c = dict(season_length=case.int(1, 5), trend_window=case.pick([None, 1, 2, 4, 7]))
        return T(name, lambda: pp.SeasonalTrendDecomposer(**c), d, gen, c)
    if name == "ModifiedSTLResidualTransformer":
        per = case.int(2, 4)
        c = dict(period=per, window_size=case.int(2 * per, 3 * per), robust=case.flip())
        return T(name, lambda: pp.ModifiedSTLResidualTransformer(**c), 1, lambda n: series(case, n).reshape(-1, 1), c,
                 partial_scalar=True, window=c["window_size"])
    raise ValueError(name)


class S:
    """A configured postprocessor / calibrator under test (score in, score out)."""

    def __init__(self, name, ctor, gen, cfg, window=None, matrix_in=False, rtol=1e-9, atol=1e-9):
        self.name, self.ctor, self.gen, self.cfg, self.window, self.matrix_in = name, ctor, gen, cfg, window, matrix_in
        self.rtol, self.atol = rtol, atol


POST_NAMES = ["AveragePostprocessor", "MaxPostprocessor", "MedianPostprocessor", "ZScorePostprocessor",
              "RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor",
              "RunningZScorePostprocessor", "ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator"]
ENS_NAMES = ["AverageScoreEnsembler", "MaximumScoreEnsembler", "MedianScoreEnsembler",
             "AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler"]


def post(case, name):
    from pysad.transform import postprocessing as po, probability_calibration as pc, ensemble as en
    r = case.rng

    def gen(n):
        return series(case, n, kinds=["walk", "lattice", "normal", "spikes"])

    W = case.int(1, 9)
    if name.endswith("Calibrator"):
        run = case.flip(0.7)
        c = dict(window_size=W)
        c["windowed" if name.startswith("Conf") else "running_statistics"] = run
        cls = getattr(pc, name)
        return S(name, lambda: cls(**c), gen, c, window=W if run else None)
    if name in POST_NAMES:
        cls = getattr(po, name)
        c = dict(window_size=max(2, W)) if name.startswith("Running") else {}
        return S(name, lambda: cls(**c), gen, c, window=c.get("window_size"))
    k = case.int(2, 4)
    per = case.int(1, 3)
    nd = k * per
    c = {}
    if name == "AverageScoreEnsembler" and case.flip():
        w = r.randint(1, 5, size=(1, nd)).astype(float)
        return S(name, lambda: en.AverageScoreEnsembler(estimator_weights=w.copy()), lambda n: r.randn(n, nd), dict(w=w), matrix_in=True)
    if name in ENS_NAMES[3:]:
        c = dict(n_buckets=k)
    cls = getattr(en, name)
    return S(name, lambda: cls(**c), lambda n: r.randn(n, nd), c, matrix_in=True)


def labels(case, n):
    return case.rng.randint(0, 2, size=n)
