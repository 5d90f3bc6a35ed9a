"""C16: streaming state stays bounded on unbounded streams (object-graph monitor)."""
import gc
import sys
import types

import numpy as np

from ..common import Check, Family, in_fork, quiet
from .. import workloads as w


def lattice(case, n, d, k=2):
    return case.rng.randint(0, k, size=(n, d)).astype(float)


def subject(case, name):
    """(ctor, use(obj, i, x), d, warm-up length, sampling distance)"""
    from pysad import models as pm, statistics as st, evaluation as ev
    from pysad.models.integrations import ReferenceWindowModel, OneFitModel
    from pysad.transform import preprocessing as pp, projection as pj, postprocessing as po, probability_calibration as pc
    from pysad.utils import Window
    r = case.rng
    d = case.int(1, 3)
    W = case.int(1, 12)

    def mscore(obj, i, x):
        obj.fit_partial(x)
        if i % 2:
            obj.score_partial(x)

    def mfs(obj, i, x):
        obj.fit_score_partial(x, i % 2)

    use = case.pick([mscore, mfs])
    if name == "ExactStorm":
        return lambda: pm.ExactStorm(W, 0.5), use, d, 100, 400
    if name == "HalfSpaceTrees":
        k = case.int(1, 9)
        return lambda: pm.HalfSpaceTrees(np.zeros(d), np.ones(d), window_size=k, num_trees=2, max_depth=3), use, d, 100, 400
    if name == "IForestASD":
        return lambda: pm.IForestASD(window_size=6, n_estimators=2), (lambda o, i, x: o.fit_partial(x)), d, 40, 60
    if name == "Inqmad":
        return lambda: pm.Inqmad(d, 4, 1.0), (lambda o, i, x: (o.fit_partial(x), o.score_partial(x))), d, 30, 60
    if name == "KitNet":
        return lambda: pm.KitNet(max_size_ae=2, grace_feature_mapping=5, grace_anomaly_detector=case.index % 10 + 1), use, d, 100, 400
    if name == "KNNCAD":
        return lambda: pm.KNNCAD(48), use, 1, 240, 120
    if name == "LODA":
        return lambda: pm.LODA(4, 3), use, d, 60, 300
    if name == "LocalOutlierProbability":
        init = r.randn(14, d)
        return lambda: pm.LocalOutlierProbability(init, num_neighbors=3), (lambda o, i, x: o.fit_partial(x) if i % 10 else o.fit_score_partial(x)), d, 40, 150
    if name == "NullModel":
        return pm.NullModel, use, d, 50, 500
    if name == "RandomModel":
        return pm.RandomModel, use, d, 50, 500
    if name == "PerfectModel":
        return pm.PerfectModel, mfs, d, 50, 500
    if name == "RelativeEntropy":
        return lambda: pm.RelativeEntropy(0, 1, 4, case.index % 8 + 3), use, 1, 60, 200
    if name == "RobustRandomCutForest":
        return lambda: pm.RobustRandomCutForest(2, 4, max(2, W)), use, d, 60, 250
    if name == "RSHash":
        return lambda: pm.RSHash(np.zeros(d), np.ones(d), num_components=3, decay=0.015), use, d, 200, 400
    if name in ("SeasonalESD", "SeasonalHybridESD"):
        cls = getattr(pm, name)
        return lambda: cls(3, 8, 2), use, 1, 30, 80
    if name == "xStream":
        k = case.int(1, 7)
        return lambda: pm.xStream(3, 2, 4, window_size=k), use, d, 150, 300
    if name == "ReferenceWindowModel":
        S = case.int(1, 9)
        return lambda: ReferenceWindowModel(w.MeanDetector, W, S), (lambda o, i, x: o.fit_partial(x, i % 2)), d, 100, 400
    if name == "OneFitModel":
        init = r.randn(5, d)
        return lambda: OneFitModel(w.MeanDetector, init), use, d, 50, 400

    def tr(obj, i, x):
        obj.fit_transform_partial(x)
        if i % 3 == 0:
            obj.transform_partial(x)

    def ps(obj, i, x):
        obj.fit_transform_partial(float(x[0]) + (i % 7) * 0.5)
        if i % 3 == 0:
            obj.transform_partial(float(x[0]))

    t = {"IdentityScaler": lambda: pp.IdentityScaler(), "InstanceStandardScaler": lambda: pp.InstanceStandardScaler(),
         "InstanceUnitNormScaler": lambda: pp.InstanceUnitNormScaler(), "StreamhashProjector": lambda: pj.StreamhashProjector(3),
         "GaussianRandomProjector": lambda: pj.GaussianRandomProjector(3), "SparseRandomProjector": lambda: pj.SparseRandomProjector(3)}
    if name in t:
        return t[name], tr, 3, 60, 300
    if name == "SeasonalTrendDecomposer":
        s, tw = case.int(1, 5), case.pick([None, 1, 4, 9])
        return lambda: pp.SeasonalTrendDecomposer(s, tw), tr, 2, 80, 400
    if name == "ModifiedSTLResidualTransformer":
        return lambda: pp.ModifiedSTLResidualTransformer(3, 7), tr, 1, 30, 80
    if name.startswith("Running") and name.endswith("Postprocessor"):
        return lambda: getattr(po, name)(window_size=max(2, W)), ps, 1, 80, 400
    if name == "ConformalProbabilityCalibrator":
        return lambda: pc.ConformalProbabilityCalibrator(windowed=True, window_size=W), ps, 1, 80, 400
    if name == "GaussianTailProbabilityCalibrator":
        return lambda: pc.GaussianTailProbabilityCalibrator(running_statistics=True, window_size=W), ps, 1, 80, 400

    def up(obj, i, x):
        obj.update(float(i % 13) + 0.5)
        obj.get()

    if name.startswith("RunningStatistic/"):
        base = getattr(st, name.split("/")[1])
        return lambda: st.RunningStatistic(base, W), up, 1, 80, 400
    if name == "Window":
        return lambda: Window(W), up, 1, 80, 400
    if name.startswith("WindowedMetric/"):
        cls = getattr(ev, name.split("/")[1])

        def um(obj, i, x):
            obj.update(i % 2, int(i % 3 > 0))
            if i > 4 and i % 5 == 0:
                obj.get()
        return lambda: ev.WindowedMetric(cls, max(2, W)), um, 1, 80, 400
    raise ValueError(name)


NAMES = [n for n in w.MODEL_NAMES if n not in ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation")] + w.TRANSFORMER_NAMES + [
    "RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor", "RunningZScorePostprocessor",
    "ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator", "Window",
    "WindowedMetric/AUROCMetric", "WindowedMetric/PrecisionMetric", "WindowedMetric/RecallMetric", "WindowedMetric/AUPRMetric"] + [
    "RunningStatistic/" + m for m in ("AverageMeter", "CountMeter", "MaxMeter", "MedianMeter", "MinMeter", "SumMeter", "SumSquaresMeter",
                                      "VarianceMeter")]


def _pysad_globals():
    """everything kept at module or class level by the library"""
    roots = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "pysad" or name.startswith("pysad.")):
            continue
        for v in list(vars(mod).values()):
            if isinstance(v, type):
                if str(getattr(v, "__module__", "")).startswith("pysad"):
                    roots.extend(x for x in vars(v).values() if not isinstance(x, type))
            elif not isinstance(v, types.ModuleType):
                roots.append(v)
    return roots


OPAQUE = (types.ModuleType, types.CodeType, types.FrameType, type)


def live_bytes(obj):
    """bytes of everything reachable from obj and from the library's own globals"""
    seen, total = set(), 0
    stack = [obj] + _pysad_globals()
    keep = []
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, OPAQUE):
            continue
        seen.add(id(o))
        keep.append(o)
        mod = str(getattr(type(o), "__module__", ""))
        if isinstance(o, types.FunctionType):
            if str(o.__module__).startswith("pysad"):
                stack.extend(x for x in (o.__defaults__, o.__kwdefaults__, o.__closure__, o.__dict__) if x)
            continue
        if mod.startswith("jax"):
            total += int(getattr(o, "nbytes", 0) or 0)
            continue
        try:
            total += sys.getsizeof(o)
        except Exception:
            total += 64
        if isinstance(o, np.ndarray):
            if o.base is not None:
                stack.append(o.base)
            if o.dtype == object:
                stack.extend(o.reshape(-1).tolist())
            continue
        if isinstance(o, (int, float, str, bytes, complex, np.generic)) or o is None:
            continue
        if mod.startswith("_random") or mod.startswith("numpy.random"):
            continue
        stack.extend(gc.get_referents(o))
    return total


def measure(ctor, use, X, warm, gap):
    """live bytes at six points of the stream"""
    n = len(X)
    with quiet():
        obj = ctor()
        i = 0
        sizes = []
        for _ in range(warm):
            use(obj, i, X[i % n].copy())       # a fresh buffer per instance, so that retaining it counts
            i += 1
        for _ in range(6):
            for _ in range(gap):
                use(obj, i, X[i % n].copy())
                i += 1
            sizes.append(live_bytes(obj))
    return sizes, i


def measure_reads(ctor, use, read, X, warm, gap, P):
    """live bytes at six points of a stream of distinct instances that are only scored, after a few were fitted"""
    with quiet():
        obj = ctor()
        for i in range(warm):
            use(obj, i, X[i % len(X)].copy())
        j, sizes = 0, []
        for _ in range(6):
            for _ in range(gap):
                read(obj, P(j))
                j += 1
            sizes.append(live_bytes(obj))
    return sizes, warm + j


def growth(sizes):
    return min(sizes[4:]) - max(sizes[:2])


def bounded(case):
    name = NAMES[case.index % len(NAMES)]
    ctor, use, d, warm, gap = subject(case, name)
    X = lattice(case, 4096, d) if d > 1 else case.rng.randint(0, 5, size=(4096, 1)) / 4.0
    case.describe(component=name, warm=warm, gap=gap)
    sizes, fed = in_fork(lambda: measure(ctor, use, X, warm, gap))
    g = growth(sizes)
    limit = max(600, 4 * 3 * gap)
    case.see("instances fed", fed)
    if g > limit:
        # a one-off cache does not scale with the stream: confirm with a stream three times as long
        sizes3, fed3 = in_fork(lambda: measure(ctor, use, X, warm + 6 * gap, 3 * gap))
        g3 = growth(sizes3)
        case.see("instances fed", fed3)
        case.check(g3 <= max(600, 4 * 9 * gap) or g3 < 1.8 * g, "memory keeps growing with the stream", component=name,
                   bytes_at_points=sizes, longer_stream=sizes3, instances=fed3)
    case.check(True, "")
    case.state(name, warm, gap, sizes[0] // 64)


def live_items(obj):
    """number of things held: objects plus entries of containers and arrays (exact, unlike bytes, which grow in steps)"""
    seen, total = set(), 0
    stack = [obj] + _pysad_globals()
    keep = []
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, OPAQUE):
            continue
        seen.add(id(o))
        keep.append(o)
        mod = str(getattr(type(o), "__module__", ""))
        if isinstance(o, types.FunctionType):
            if str(o.__module__).startswith("pysad"):
                stack.extend(x for x in (o.__defaults__, o.__kwdefaults__, o.__closure__, o.__dict__) if x)
            continue
        if mod.startswith("jax"):
            total += int(getattr(o, "size", 0) or 0)
            continue
        if isinstance(o, np.ndarray):
            total += o.size
            if o.base is not None:
                stack.append(o.base)
            if o.dtype == object:
                stack.extend(o.reshape(-1).tolist())
            continue
        if isinstance(o, (str, bytes)):
            total += len(o)
            continue
        if isinstance(o, (int, float, complex, np.generic)) or o is None or mod.startswith(("_random", "numpy.random")):
            continue
        if isinstance(o, (list, tuple, dict, set, frozenset)) or hasattr(o, "maxlen"):
            total += len(o)
        total += 1
        stack.extend(gc.get_referents(o))
    return total


def measure_items(ctor, use, batch, B, warm, points, per):
    with quiet():
        obj = ctor()
        i, sizes = 0, []
        while i < warm:
            use(obj, i, B[i % len(B)].copy())
            i += 1
        i = 0
        for _ in range(points):
            for _ in range(per):
                for x in B:
                    use(obj, i, x.copy())
                    i += 1
                if batch is not None:
                    batch(obj, B.copy())
            sizes.append(live_items(obj))
    return sizes, i


def creeping(case):
    """a periodic stream: what is held at equal phases must not go up again and again, however slowly"""
    name = NAMES[case.index % len(NAMES)]
    ctor, use, d, warm, gap = subject(case, name)
    P = {"IForestASD": 12, "Inqmad": 20, "SeasonalESD": 24, "SeasonalHybridESD": 24, "ModifiedSTLResidualTransformer": 24, "KNNCAD": 60,
         "LocalOutlierProbability": 30}.get(name, case.pick([60, 90]))
    per = 1 if P < 60 or name == "KNNCAD" else 3
    B = lattice(case, P, d) if d > 1 else case.rng.randint(0, 5, size=(P, 1)) / 4.0
    if name not in ("RelativeEntropy",) and case.flip(0.7):
        B[case.int(0, P - 1)] = case.pick([7.0, 40.0, -9.0])        # something unusual once per period
    batch = None
    if name in w.MODEL_NAMES and name not in ("PerfectModel", "Inqmad", "IForestASD") and case.flip(0.3):
        batch = lambda o, X: (o.score(X[:5]), o.fit_score(X[5:]), o.fit(X[:5]))
    elif name in w.TRANSFORMER_NAMES and case.flip(0.3):
        batch = lambda o, X: (o.transform(X[:5]), o.fit_transform(X[5:]), o.fit(X[:5]))
    case.describe(component=name, period=P, repetitions=per, batch=batch is not None)
    sizes, fed = in_fork(lambda: measure_items(ctor, use, batch, B, warm + P, 10, per))
    case.see("instances fed", fed)
    up = lambda s: all(b > a for a, b in zip(s[1:], s[2:]))
    if up(sizes):
        sizes, fed = in_fork(lambda: measure_items(ctor, use, batch, B, warm + P, 24, per))
        case.see("instances fed", fed)
        case.check(not up(sizes[6:]), "what is held goes up with every period of the stream", component=name, items_at_points=sizes, instances=fed)
    case.check(True, "")
    case.state(name, P, per, batch is not None, sizes[0])


READ_NAMES = [n for n in NAMES if n not in ("PerfectModel", "Window", "Inqmad") and "/" not in n]


def bounded_reads(case):
    """scoring or transforming endlessly many different instances"""
    name = READ_NAMES[case.index % len(READ_NAMES)]
    ctor, use, d, warm, gap = subject(case, name)
    X = lattice(case, 4096, d) if d > 1 else case.rng.randint(0, 5, size=(4096, 1)) / 4.0
    if name in w.MODEL_NAMES:
        read = lambda o, x: o.score_partial(x)
    elif name in w.TRANSFORMER_NAMES:
        read = lambda o, x: o.transform_partial(x)
    else:
        read = lambda o, x: o.transform_partial(float(x[0]))
    spread = float(case.pick([0.5, 3.0, 100.0])) if name != "RelativeEntropy" else 1.0
    seed = case.int(0, 10 ** 6)
    gap = min(gap, 400) if name not in ("KNNCAD", "SeasonalESD", "SeasonalHybridESD") else 50

    def P(j):
        return np.random.RandomState(seed + j).rand(d) * spread
    warm = max(1, warm - case.int(0, min(10, warm - 1)))
    case.describe(component=name, warm=warm, gap=gap, spread=spread)
    sizes, fed = in_fork(lambda: measure_reads(ctor, use, read, X, warm, gap, P))
    g = growth(sizes)
    limit = max(600, 4 * 3 * gap)
    case.see("instances read", fed)
    if g > limit:
        sizes3, fed3 = in_fork(lambda: measure_reads(ctor, use, read, X, warm, 3 * gap, P))
        g3 = growth(sizes3)
        case.check(g3 <= max(600, 4 * 9 * gap) or g3 < 1.8 * g, "memory keeps growing with the instances that are scored", component=name,
                   bytes_at_points=sizes, longer_stream=sizes3, instances=fed3)
    case.check(True, "")
    case.state(name, warm, gap, sizes[0] // 64)


CHECK = Check(
    "C16", "exploration",
    "A case feeds one component (random small window) a long stream over a bounded domain, every instance in a fresh buffer, with scoring "
    "in between, while an object-graph monitor samples the bytes reachable from the component and from the library's module and class "
    "globals at six equally spaced points after warm-up; growth that scales with the stream length is a violation. Distinct non-trivial: distinct "
    "(component, configuration, size) runs.",
    [Family(bounded, 110, 700), Family(creeping, 2 * len(NAMES), 10 * len(NAMES)), Family(bounded_reads, 2 * len(READ_NAMES), 12 * len(READ_NAMES))],
    ["in streams without a period, growth below 4 bytes per instance is not distinguished from noise"],
    case_timeout=500)
