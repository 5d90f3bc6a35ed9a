"""C38: only the values matter - labels of unsupervised models, number types, memory layouts and score shapes change nothing."""
import numpy as np

from ..common import Check, Family, Skip
from .. import drivers as dr
from .. import workloads as w

UNSUPERVISED = [n for n in w.MODEL_NAMES if n not in ("PerfectModel", "OneFitModel", "ReferenceWindowModel")]
ARRAYS = [n for n in w.MODEL_NAMES + w.TRANSFORMER_NAMES + w.ENS_NAMES if n != "PerfectModel"]
LEN = {"IForestASD": 10, "Inqmad": 5, "KNNCAD": 110}


def run(case, d, X, ys, P, batch):
    case.reseed("run")
    obj = d.ctor()
    out = []
    if batch:
        h = max(d.n // 2, min(d.warm, d.n - 1))
        if d.kind == "model":
            Y = None if ys is None else np.array([0 if v is None else v for v in ys])
            obj.fit(X[:h], None if Y is None else Y[:h])
            out.append(obj.fit_score(X[h:], None if Y is None else Y[h:]))
            out.append(obj.score(P))
        else:
            obj.fit(X[:h])
            out.append(obj.fit_transform(X[h:]))
            out.append(obj.transform(P))
        return np.concatenate([np.asarray(v, dtype=np.float64).reshape(-1) for v in out])
    for i in range(d.n):
        combined = i + 1 >= d.warm and i % 3 == 0
        if d.kind == "model":
            y = None if ys is None else ys[i]
            v = obj.fit_score_partial(X[i], y) if combined else obj.fit_partial(X[i], y)
        else:
            v = obj.fit_transform_partial(X[i]) if combined else obj.fit_partial(X[i])
        if combined:
            out.append(v)
        if i + 1 >= d.warm:
            p = P[i % len(P)]
            out.append(obj.score_partial(p) if d.kind == "model" else obj.transform_partial(p))
    return np.concatenate([np.asarray(v, dtype=np.float64).reshape(-1) for v in out])


def labels_ignored(case):
    """unsupervised models give the same scores whatever labels they are given"""
    name = UNSUPERVISED[case.index % len(UNSUPERVISED)]
    d = dr.driver(case, name, n=LEN.get(name))
    n = d.n
    r = case.rng
    batch = case.flip(0.4)
    kind = case.pick(["zeros", "ones", "random", "alternating", "minus", "float", "bool"] + ([] if batch else ["sometimes"]))
    ys = {"zeros": [0] * n, "ones": [1] * n, "random": list(r.randint(0, 2, n)), "alternating": [i % 2 for i in range(n)],
          "minus": list(r.choice([-1, 1], n)), "float": [float(v) for v in r.randint(0, 2, n)], "bool": [bool(v) for v in r.randint(0, 2, n)],
          "sometimes": [None if r.rand() < 0.5 else int(r.randint(0, 2)) for _ in range(n)]}[kind]
    case.describe(component=name, cfg=d.cfg, labels=kind, batch=batch)
    a = run(case, d, d.X, None, d.probes, batch)
    b = run(case, d, d.X, ys, d.probes, batch)
    case.close(b, a, "labels change the scores of an unsupervised model", rtol=max(d.rtol, 1e-12), atol=1e-12, component=name)
    case.see("scores compared", a.size)
    case.state(name, kind, batch, np.round(a[-3:], 6))


def whole(case, name, d):
    """integer-valued data of the driver's kind"""
    k = 1 if name in ("KitNet", "RelativeEntropy") else case.pick([1, 4, 8])
    X, P = np.round(d.X * k), np.round(d.probes * k)
    if name in ("InstanceStandardScaler", "InstanceUnitNormScaler"):
        ramp = np.arange(1, X.shape[1] + 1)
        X, P = X + 100 * ramp, P + 100 * ramp
    if name == "RelativeEntropy":
        X, P = np.clip(X, 1, 1), np.clip(P, 1, 1)
    return np.clip(X, -1e6, 1e6), np.clip(P, -1e6, 1e6)


def w_fraction(case, name, shape):
    """what moves the component's inputs off the integers"""
    return np.zeros(shape) if name in ("KitNet", "RelativeEntropy") or case.flip(0.1) else case.rng.choice([0.0, 0.25, 0.5, 0.875, -0.375], shape)


WIDTHS = ["int64", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32"]


def mixed_types(case):
    """streams and probes some of which are integer, some float arrays"""
    integers(case, True)


def integers(case, mixed_types=False):
    """integer arrays of every width and float arrays of the same values"""
    name = ARRAYS[case.index % len(ARRAYS)]
    d = dr.driver(case, name, n=LEN.get(name))
    if name == "LODA" and d.cfg["num_bins"] % 2 == 0:
        raise Skip()        # a fitted value lies on the end of its bin there, and the layout may change its last digit
    X, P = whole(case, name, d)
    batch = not mixed_types and case.flip(0.4)
    which = case.pick(["both", "stream", "probes"])
    case.describe(component=name, cfg=d.cfg, batch=batch, which=which)
    ys = None
    dt = np.dtype(case.pick(WIDTHS))
    lo, hi = max(np.iinfo(dt).min, -10 ** 6), min(np.iinfo(dt).max, 10 ** 6)
    if name not in ("KitNet", "RelativeEntropy"):       # use the whole range of narrow types
        k = case.pick([1, max(1, hi // 10)]) if dt.itemsize < 4 else 1
        X, P = X * k, P * k
    if name == "SeasonalTrendDecomposer" or "Deviation" in name or name == "KNNCAD":
        X, P = X * case.pick([1, 1000]), P * case.pick([1, 1000])
    if lo == 0:
        X, P = np.abs(X), np.abs(P)
    if name in ("InstanceStandardScaler", "InstanceUnitNormScaler"):
        X, P = np.clip(X, max(lo, -9000), hi - 50), np.clip(P, max(lo, -9000), hi - 50)
        ramp = np.arange(1, X.shape[1] + 1)     # neither zero nor constant
        X, P = X + ramp, P + ramp
    X, P = np.clip(X, lo, hi), np.clip(P, lo, hi)
    Xi, Pi = X.astype(dt), P.astype(dt)
    if mixed_types:        # a stream of both
        F, Q = X + w_fraction(case, name, X.shape), P + w_fraction(case, name, P.shape)
        turn = case.rng.rand(len(X) + len(P)) < case.pick([0.1, 0.5, 0.9])
        plain = [F[i] if turn[i] else X[i] for i in range(len(X))]
        mixed = [F[i] if turn[i] else Xi[i] for i in range(len(X))]
        pp = [Q[i] if turn[-1 - i] else P[i] for i in range(len(P))]
        mp = [Q[i] if turn[-1 - i] else Pi[i] for i in range(len(P))]
        a, b = run(case, d, plain, ys, pp, False), run(case, d, mixed, ys, mp, False)
        which = "mixed"
    else:
        a = run(case, d, X, ys, P, batch)
        b = run(case, d, Xi if which != "probes" else X, ys, Pi if which != "stream" else P, batch)
    case.close(b, a, "integer arrays give other results than float arrays of the same values", rtol=max(d.rtol, 1e-9), atol=1e-9, component=name)
    case.see("results compared", a.size)
    case.state(name, batch, which, dt.name, np.round(a[-3:], 6))


def layouts(case):
    """C, Fortran, strided and reversed arrays of the same values; rows as views, copies or slices of larger arrays"""
    name = ARRAYS[case.index % len(ARRAYS)]
    d = dr.driver(case, name, n=LEN.get(name))
    if name == "LODA" and d.cfg["num_bins"] % 2 == 0:
        raise Skip()        # a fitted value lies on the end of its bin there, and the layout may change its last digit
    batch = case.flip(0.5)
    kinds = [case.pick(["C", "F", "rows", "cols", "rev"]) for _ in range(2)]
    case.describe(component=name, cfg=d.cfg, batch=batch, layouts=kinds)
    a = run(case, d, np.ascontiguousarray(d.X), d.y, np.ascontiguousarray(d.probes), batch)
    b = run(case, d, w.layout(case, d.X, kinds[0]), d.y, w.layout(case, d.probes, kinds[1]), batch)
    case.close(b, a, "the memory layout changes the results", rtol=max(d.rtol, 1e-9), atol=1e-9, component=name)
    case.see("results compared", a.size)
    case.state(name, batch, kinds, np.round(a[-3:], 6))


def form(k, v):
    return [np.float64(v), np.array([v]), int(v) if float(v).is_integer() else float(v), np.array(v)][k]


def score_forms(case):
    """scores as Python floats or integers, NumPy scalars and one-element arrays (as models return them)"""
    name = w.POST_NAMES[case.index % len(w.POST_NAMES)]
    d = dr.driver(case, name)
    lattice = case.flip()
    X = np.round(d.X * 2) if lattice else d.X
    if "ZScore" in name:
        X = X + np.arange(len(X))
    P = np.round(d.probes * 2) if lattice else d.probes
    case.describe(component=name, cfg=d.cfg, lattice=lattice)
    outs = []
    k = case.pick([0, 1, 1, 2, 3])      # a model returns every score in the same form
    for plain in (True, False):
        obj = d.ctor()
        out = []
        r = np.random.RandomState(case.index)
        for i in range(d.n):
            v, p = float(X[i]), float(P[i % len(P)])
            if not plain:
                v, p = form(k, v), form(k, p)
            if i + 1 >= d.warm and r.rand() < 0.4:
                out.append(obj.fit_transform_partial(v))
            else:
                obj.fit_partial(v)
            if i + 1 >= d.warm:
                out.append(obj.transform_partial(p))
        outs.append(np.concatenate([np.asarray(v, dtype=np.float64).reshape(-1) for v in out]))
    case.close(outs[1], outs[0], "the form of the scores changes the results", rtol=1e-9, atol=1e-9, component=name)
    case.see("results compared", outs[0].size)
    case.state(name, lattice, k, np.round(outs[0][-3:], 6))


def meters_and_metrics(case):
    """meters and metrics fed with Python and NumPy numbers of every usual type"""
    names = dr.METER_NAMES + ["PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric"]
    name = names[case.index % len(names)]
    d = dr.driver(case, name)
    types = [int, float, np.float64, np.int64, np.int32, np.int8]
    ytypes = [int, np.int64, np.int32, np.int8, np.uint8, bool, np.bool_, float, np.float64]
    values = d.X
    if d.kind == "meter" and case.flip(0.6):        # one type for all numbers, whose range they use
        dt = np.dtype(case.pick(WIDTHS))
        top = min(int(np.iinfo(dt).max), 10 ** 9)
        values = [float(int(v * top / 9)) for v in d.X]
        if dt.kind == "u":
            values = [abs(v) for v in values]
        types = [dt.type]
    case.describe(component=name, cfg=d.cfg, types=[t.__name__ for t in types])
    outs = []
    for plain in (True, False):
        obj = d.ctor()
        out = []
        for i in range(d.n):
            v = values[i]
            if d.kind == "metric":
                y = int(d.y[i])
                if not plain:
                    y = case.pick(ytypes)(y)
                    v = case.pick(ytypes)(v) if name in ("PrecisionMetric", "RecallMetric") else case.pick([float, np.float64])(v)
                obj.update(y, v)
            else:
                obj.update(v if plain else case.pick(types)(v))
            if i + 1 >= d.warm:
                out.append(float(obj.get()))
        outs.append(np.array(out))
    scale = max([1.0] + [abs(v) for v in values]) if d.kind == "meter" else 1.0
    case.close(outs[1], outs[0], "the type of the numbers changes the value", rtol=1e-12, atol=1e-12 * scale * scale, component=name)
    case.see("values compared", outs[0].size)
    case.state(name, np.round(outs[0][-3:], 6))


CONFIGURED = ["HalfSpaceTrees", "RSHash", "ExactStorm", "RelativeEntropy", "LocalOutlierProbability", "OneFitModel", "ReferenceWindowModel",
              "IForestASD", "AverageScoreEnsembler", "HalfSpaceTrees", "windows", "Inqmad"]


def configured(case):
    """bounds, initial data, weights, radii and sizes given as integers of some width instead of floats of the same values"""
    from pysad import models as pm
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform import ensemble as en
    from pysad import statistics as st
    from pysad.transform import postprocessing as po, preprocessing as pp
    name = CONFIGURED[case.index % len(CONFIGURED)]
    r = case.rng
    d = case.int(1, 4)
    n = 12 if name == "IForestASD" else 24
    dt = np.dtype(case.pick(WIDTHS))
    top = min(int(np.iinfo(dt).max), 1000)
    lo = r.randint(0, 20, d) - (10 if dt.kind == "i" else 0)
    hi = lo + case.pick([1, 1, 2, 3, 5, 7, top - 20]) * r.randint(1, 2, d)
    span = (hi - lo).astype(float)
    X = lo + span * r.rand(n, d) * case.pick([1.0, 1.2])
    P = np.concatenate([X[r.randint(0, n, 4)], lo + span * r.rand(4, d)], axis=0)
    whole_stream = case.flip(0.3)
    if whole_stream:
        X, P = np.round(X), np.round(P)
    init = r.randint(0, min(top, 100), (case.int(14, 22), d))
    size = case.pick([int, np.int64, np.int32])
    W, T, depth = case.int(1, 9), case.int(1, 4), case.int(1, 7)
    wts = r.randint(1, min(top, 50), (1, d))
    cfg, y = {}, None

    def twin(v, exact):
        """the configured array: of floats or of integers"""
        v = np.array(v)
        return v.astype(np.float64) if exact else v.astype(dt)

    def num(v, exact):
        return int(v) if exact else size(v)

    def real(v, exact):
        return float(v) if exact else case_type(v)

    case_type = case.pick([int, np.int64, np.int32, np.float64])
    if name == "HalfSpaceTrees":
        cfg = dict(W=W, T=T, depth=depth, lo=lo, hi=hi)
        start = X[:case.int(1, 6)] if case.flip(0.3) else None
        mk = lambda e: pm.HalfSpaceTrees(twin(lo, e), twin(hi, e), num(W, e), num(T, e), num(depth, e), initial_window_X=start)
    elif name == "RSHash":
        c = dict(num_components=case.int(1, 9), num_hash_fns=case.int(1, 2), sampling_points=case.int(1, 40))
        mk = lambda e: pm.RSHash(twin(lo, e), twin(hi, e), **{k: num(v, e) for k, v in c.items()})
    elif name == "ExactStorm":
        R = case.int(1, 4)
        mk = lambda e: pm.ExactStorm(num(W, e), real(R, e))
    elif name == "RelativeEntropy":
        d = 1
        b = case.int(2, 5)
        lo1, hi1 = case.int(-3, 2), case.int(4, 9)
        X = lo1 + (hi1 - lo1) * (1 - r.rand(n, 1)) ** 2
        P = X[:4]
        mk = lambda e: pm.RelativeEntropy(real(lo1, e), real(hi1, e), num(b, e), num(W, e))
    elif name == "LocalOutlierProbability":
        X, P = r.rand(6, d) * 100, r.rand(4, d) * 100
        k, ex = case.int(2, 6), case.int(1, 3)
        mk = lambda e: pm.LocalOutlierProbability(twin(init, e), k, ex)
    elif name == "OneFitModel":
        X, P = r.rand(6, d) * 100, r.rand(4, d) * 100
        mk = lambda e: OneFitModel(w.MeanDetector, twin(init, e))
    elif name == "ReferenceWindowModel":
        S = case.int(1, 6)
        y = r.randint(0, 2, n) if case.flip(0.4) else None
        y0 = None if y is None else r.randint(0, 2, len(init))
        mk = lambda e: ReferenceWindowModel(w.MeanDetector, num(W, e), num(S, e), initial_window_X=twin(init, e),
                                            initial_window_y=None if y is None else twin(y0, e))
    elif name == "IForestASD":
        mk = lambda e: pm.IForestASD(initial_window_X=twin(init, e), window_size=num(W + 3, e), n_estimators=4)
    elif name == "AverageScoreEnsembler":
        mk = lambda e: en.AverageScoreEnsembler(twin(wts, e))
    elif name == "Inqmad":
        n = 4
        X, P = X[:4], P[:4]
        mk = lambda e: pm.Inqmad(num(d, e), num(6, True), real(1, e), random_state=3)
    else:
        X, P = X[:, :1], P[:, :1]
        d = 1
        kind = case.pick(["average", "median", "max", "zscore", "decomposer", "mad", "esd", "knncad"])
        cfg = dict(kind=kind)
        if kind == "decomposer":
            mk = lambda e: pp.SeasonalTrendDecomposer(num(depth, e), W)
        elif kind == "mad":
            b = case.int(1, 3)
            mk = lambda e: pm.MedianAbsoluteDeviation(b=real(b, e))
        elif kind == "esd":
            mk = lambda e: pm.SeasonalESD(3, num(7 + W, e), num(2, e))
        elif kind == "knncad":
            X = r.randn(100, 1)
            mk = lambda e: pm.KNNCAD(num(48, e))
        else:
            X, P = X[:, 0] + r.rand(n), P[:, 0]
            mk = lambda e: {"average": po.RunningAveragePostprocessor, "median": po.RunningMedianPostprocessor,
                            "max": po.RunningMaxPostprocessor, "zscore": po.RunningZScorePostprocessor}[kind](num(W + 1, e))
    n = len(X)
    case.describe(component=name, dtype=dt.name, size=size.__name__, **cfg)
    outs = []
    for exact in (True, False):
        case.reseed("run")
        obj = mk(exact)
        out = []
        model = hasattr(obj, "score_partial")
        for i in range(n):
            if model:
                obj.fit_partial(X[i], None if y is None else y[i])
            else:
                obj.fit_partial(X[i])
            if i >= 1:
                p = P[i % len(P)]
                out.append(np.asarray(obj.score_partial(p) if model else obj.transform_partial(p), dtype=np.float64).reshape(-1))
        outs.append(np.concatenate(out))
    case.close(outs[1], outs[0], "a configuration of integers gives other results than one of the equal floating-point numbers",
               rtol=1e-5 if name == "Inqmad" else 1e-9, atol=1e-9, component=name)
    case.see("results compared", outs[0].size)
    case.state(name, dt.name, size.__name__, cfg.get("kind"), np.round(outs[0][-3:], 6))


CHECK = Check(
    "C38", "exploration",
    "Twin runs that differ only in what must not matter: labels given to unsupervised models (none, constant, random, -1/1, floats, "
    "booleans, sometimes missing), integer instead of float arrays, memory layouts, scores as floats, NumPy scalars or one-element "
    "arrays, meters and metrics fed with other number types, and bounds, initial data, weights, radii and sizes configured as integers of some width; all results must agree. Distinct non-trivial: distinct (component, variation, results).",
    [Family(labels_ignored, 120, 1500), Family(integers, 120, 1500), Family(mixed_types, 160, 2000), Family(layouts, 120, 1500), Family(score_forms, 60, 800),
     Family(meters_and_metrics, 84, 900), Family(configured, 96, 1200)],
    ["single precision and boolean arrays are not judged; labels of wrapped supervised detectors are judged by C11"])
