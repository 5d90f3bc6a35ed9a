"""C39: results follow the unit and the origin in which data is measured (metamorphic twin runs)."""
import numpy as np

from ..common import Check, Family, in_fork
from .. import workloads as w


class U:
    """a component whose constructor takes the unit s and the origin t of the data"""

    def __init__(self, ctor, d, kind="model", power=0, rtol=1e-9, first=0, warm=1, kmax=60, kmin=None, n=30, origin=0, unit=True, gen=None, tmax=2**18,
                 atol=0.0, skip=None, cap=None):
        self.ctor, self.d, self.kind, self.power, self.rtol, self.first, self.warm = ctor, d, kind, power, rtol, first, warm
        self.kmax, self.kmin, self.n = kmax, kmax if kmin is None else kmin, n
        # origin: None = results depend on it; 0 = results unchanged; 1 = results move with it
        self.origin, self.unit, self.gen, self.tmax, self.atol, self.skip, self.cap = origin, unit, gen, tmax, atol, skip, cap


def component(case, name):
    from pysad import models as pm, statistics as st, evaluation as ev
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform import preprocessing as pp, projection as pj, postprocessing as po, probability_calibration as pc, ensemble as en
    r = case.rng
    d = case.int(1, 4)
    W = case.int(2, 12)
    a, b, c = case.int(1, 6), case.int(1, 5), case.int(2, 9)
    lo, hi = -8.0 * np.ones(d), 8.0 * np.ones(d)
    init = r.randint(-40, 41, (c + 12, d)) / 8.0
    rad = float(case.pick([0.5, 1.0, 3.0]))
    per = case.int(2, 5)
    absl = case.flip()
    if name == "ExactStorm":
        return U(lambda s, t: pm.ExactStorm(W, rad * s), d)
    if name == "HalfSpaceTrees":
        return U(lambda s, t: pm.HalfSpaceTrees(lo * s + t, hi * s + t, W, a, b, None if c % 2 else init * s + t), d)
    if name == "xStream":           # the first window's bins have a fixed width
        return U(lambda s, t: pm.xStream(a + 1, b, a, W), d, first=W, kmin=0, origin=None, gen=lambda n: r.randn(n, d) * 64)
    if name == "KitNet":            # normalisation adds 1e-16 to a range
        return U(lambda s, t: pm.KitNet(b, W, c + 6), d, kmax=40, kmin=0, rtol=1e-6, atol=1e-9, origin=None, cap=1e3, gen=lambda n: r.rand(n, d) * 4)
    if name == "LocalOutlierProbability":
        far = r.randn(20, d)
        return U(lambda s, t: pm.LocalOutlierProbability(far * s + t, num_neighbors=a + 1), d, rtol=1e-6, atol=1e-7, kmax=20, n=10,
                 gen=lambda n: r.randn(n, d) * 2, tmax=64)
    if name == "RelativeEntropy":
        return U(lambda s, t: pm.RelativeEntropy(-8.0 * s + t, 8.0 * s + t, 4, W), 1, warm=0)
    if name == "RobustRandomCutForest":
        return U(lambda s, t: pm.RobustRandomCutForest(a, b, W + 2), d, warm=2)
    if name == "IForestASD":
        return U(lambda s, t: pm.IForestASD(init * s + t, W + 3, n_estimators=3), d, n=12, kmax=20, tmax=64, rtol=1e-7)
    if name == "KNNCAD":
        return U(lambda s, t: pm.KNNCAD(48 + a), 1, n=140, origin=None, kmax=30)
    if name in ("SeasonalESD", "SeasonalHybridESD"):
        # whether a value beside a threshold or a tie is flagged is up to rounding once the origin moves
        return U(lambda s, t: getattr(pm, name)(per, 3 * per + a, 1 + a % 2, robust=absl), 1, kmax=30, kmin=9, rtol=1e-7, warm=0, origin=None,
                 gen=lambda n: (np.sin(np.arange(n) * 2 * np.pi / per) + 0.2 * r.randn(n) + 6 * (r.rand(n) < 0.1)).reshape(-1, 1))
    if name == "MedianAbsoluteDeviation":       # 1e-10 is added to the scale
        return U(lambda s, t: pm.MedianAbsoluteDeviation(absolute=absl), 1, kmax=30, kmin=6, rtol=2e-7, gen=lambda n: r.randint(-400, 401, (n, 1)) / 8.0,
                 first=6, skip="flat", cap=1e5)
    if name == "StandardAbsoluteDeviation":
        stat = case.pick(["mean", "median"])
        return U(lambda s, t: pm.StandardAbsoluteDeviation(substracted_statistic=stat, absolute=absl), 1, kmax=30, kmin=6, rtol=1e-6,
                 gen=lambda n: r.randint(-400, 401, (n, 1)) / 8.0, first=6, tmax=2**8, atol=1e-6, skip="flat", cap=1e5)
    if name == "OneFitModel":
        return U(lambda s, t: OneFitModel(w.MeanDetector, init * s + t), d, power=1, origin=0, rtol=1e-9, atol=1e-9, tmax=2**10)
    if name == "ReferenceWindowModel":
        return U(lambda s, t: ReferenceWindowModel(w.MeanDetector, W, a), d, power=1, atol=1e-9, tmax=2**10)
    if name == "Inqmad":
        return U(lambda s, t: pm.Inqmad(d, 6, 0.2 / s ** 2, random_state=a), d, kmax=8, n=5, origin=None, rtol=1e-3, atol=1e-4)
    if name == "LODA":              # bins have a fixed width around the instance held
        return U(lambda s, t: pm.LODA(c if c % 2 else c + 1, a), d, unit=False, origin=None)
    T = dict(kind="transformer")
    if name == "InstanceStandardScaler":
        return U(lambda s, t: pp.InstanceStandardScaler(), d + 2, kmax=60, atol=1e-9, **T)
    if name == "InstanceUnitNormScaler":
        q = case.pick([1, 2, 3])
        return U(lambda s, t: pp.InstanceUnitNormScaler(q), d + 1, kmax=60, origin=None, **T)
    if name == "SeasonalTrendDecomposer":
        return U(lambda s, t: pp.SeasonalTrendDecomposer(b, a), d, power=1, atol=1e-9, **T)
    if name == "ModifiedSTLResidualTransformer":
        return U(lambda s, t: pp.ModifiedSTLResidualTransformer(per, 2 * per + a, robust=False), 1, power=1, atol=1e-8, tmax=2**8, kmax=30, rtol=1e-7, **T)
    if name == "StreamhashProjector":
        return U(lambda s, t: pj.StreamhashProjector(c), d, power=1, origin=None, **T)
    if name == "GaussianRandomProjector":
        return U(lambda s, t: pj.GaussianRandomProjector(c), d, power=1, origin=None, **T)
    if name == "SparseRandomProjector":
        return U(lambda s, t: pj.SparseRandomProjector(c), d, power=1, origin=None, **T)
    P = dict(kind="post", d=0, warm=1)
    if name in ("AveragePostprocessor", "MaxPostprocessor", "MedianPostprocessor"):
        return U(lambda s, t: getattr(po, name)(), power=1, origin=1, atol=1e-9, **P)
    if name in ("RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor"):
        return U(lambda s, t: getattr(po, name)(W), power=1, origin=1, atol=1e-9, **P)
    P["warm"] = 2
    if name == "ZScorePostprocessor":
        return U(lambda s, t: po.ZScorePostprocessor(), origin=0, rtol=1e-7, atol=1e-7, tmax=2**8, first=4, skip="flat", **P)
    if name == "RunningZScorePostprocessor":
        return U(lambda s, t: po.RunningZScorePostprocessor(W + 2), origin=0, rtol=1e-6, atol=1e-6, tmax=2**8, first=4, skip="flat", **P)
    if name == "ConformalProbabilityCalibrator":
        return U(lambda s, t: pc.ConformalProbabilityCalibrator(windowed=absl, window_size=W), **P)
    if name == "GaussianTailProbabilityCalibrator":
        return U(lambda s, t: pc.GaussianTailProbabilityCalibrator(running_statistics=absl, window_size=W + 2), rtol=1e-6, atol=1e-6, tmax=2**8,
                 first=4, skip="flat", **P)
    E = dict(kind="ens", d=2 * c, power=1, origin=1, atol=1e-9)
    if name == "AverageScoreEnsembler":
        wt = r.randint(1, 5, (1, 2 * c)).astype(float) if absl else None
        return U(lambda s, t: en.AverageScoreEnsembler(estimator_weights=wt), **E)
    if name in ("MaximumScoreEnsembler", "MedianScoreEnsembler"):
        return U(lambda s, t: getattr(en, name)(), **E)
    if name in ("AverageOfMaximumScoreEnsembler", "MaximumOfAverageScoreEnsembler"):
        return U(lambda s, t: getattr(en, name)(n_buckets=2), **E)
    if name.startswith("meter/"):
        nm = name[6:]
        mk = getattr(st, nm)
        run = case.flip()
        p = {"SumSquaresMeter": 2, "VarianceMeter": 2, "CountMeter": 0}.get(nm, 1)
        o = {"SumMeter": None, "SumSquaresMeter": None, "CountMeter": 0, "VarianceMeter": 0}.get(nm, 1)
        return U((lambda s, t: st.RunningStatistic(mk, W)) if run else (lambda s, t: mk()), 0, kind="meter", power=p, origin=o, atol=1e-7, rtol=1e-7,
                 tmax=2**8 if nm == "VarianceMeter" else 2**18)
    if name.startswith("metric/"):
        return U(lambda s, t: getattr(ev, name[7:])(), 0, kind="metric", warm=2)
    raise ValueError(name)


NAMES = [n for n in w.MODEL_NAMES if n not in ("NullModel", "PerfectModel", "RandomModel", "LODA", "Inqmad", "RSHash")] + \
    [n for n in w.TRANSFORMER_NAMES if n != "IdentityScaler"] + w.POST_NAMES + w.ENS_NAMES + \
    ["meter/" + m for m in ("SumMeter", "CountMeter", "AverageMeter", "MaxMeter", "MinMeter", "MedianMeter", "SumSquaresMeter", "VarianceMeter")] + \
    ["metric/AUROCMetric", "metric/AUPRMetric"]


def default_stream(case, u):
    """values on a grid of eighths within [-6, 6], so that changes of unit and origin are exact"""
    r = case.rng
    kind = case.pick(["grid", "coarse", "cluster", "walk"])
    shape = (u.n,) if u.d == 0 else (u.n, u.d)
    if kind == "grid":
        X = r.randint(-48, 49, shape) / 8.0
    elif kind == "coarse":
        X = r.randint(-3, 4, shape) * 1.0
    elif kind == "cluster":
        X = np.clip(np.round(r.randn(*shape) * 4) / 8.0 + 5.5 * (r.rand(u.n) < 0.1).reshape((-1,) + (1,) * (len(shape) - 1)), -6, 6)
    else:
        X = np.clip(np.cumsum(r.randint(-4, 5, shape), axis=0) / 8.0, -6, 6)
    if u.kind == "transformer" and u.power == 0:
        X = X + np.arange(shape[1]) / 8.0 + 0.125       # neither zero nor constant instances
        bad = np.ptp(X, axis=1) == 0
        X[bad, 0] += 1.0
    return X


def ops(case, u):
    out = []
    for i in range(u.n):
        both = case.flip(0.4) and i + 1 >= u.warm
        out.append(("fit_read" if both else "fit", i))
        for _ in range(case.pick([0, 1, 1, 2])):
            if i + 1 >= max(1, u.warm):
                out.append(("read", case.int(0, min(u.n - 1, i + 3))))
    return out


def run(case, u, plan, X, y, s, t):
    case.reseed("unit")
    o = u.ctor(s, t)
    X = X * s + t
    res = []
    for k, (op, i) in enumerate(plan):
        case.reseed(("unit", k))
        x = X[i]
        v = None
        if u.kind == "model":
            if op == "fit":
                o.fit_partial(x)
            elif op == "read":
                v = o.score_partial(x)
            else:
                v = o.fit_score_partial(x)
        elif u.kind in ("transformer", "post", "ens"):
            if op == "fit":
                o.fit_partial(x)
            else:
                v = getattr(o, "transform_partial" if op == "read" else "fit_transform_partial")(x)
        elif u.kind == "meter":
            if op != "read":
                o.update(x)
            if op != "fit":
                v = o.get()
        else:
            if op != "read":
                o.update(int(y[i]), float(x))
            if op != "fit":
                v = o.get()
        if v is not None:
            res.append((k, np.asarray(v, dtype=np.float64).reshape(-1).copy()))
    return res


def judge(case, name, how):
    u = component(case, name)
    X = u.gen(u.n) if u.gen else default_stream(case, u)
    y = case.rng.randint(0, 2, u.n)
    y[:2] = [0, 1]
    plan = ops(case, u)
    if u.kind == "metric":
        plan = [p for p in plan if p[1] >= 1 or p[0] == "fit"]
    s, t = 1.0, 0.0
    if how == "unit":
        s = 2.0 ** case.pick([k for k in (-60, -45, -30, -20, -14, -9, -6, -3, -1, 1, 2, 5, 9, 14, 20, 30, 45, 60) if -u.kmin <= k <= u.kmax])
    else:
        t = float(case.pick([k for k in (1, 3, 16, 64, 100, 256, 1000, 4096, 2**14, 2**18) if k <= u.tmax]) * case.pick([-1, 1]))
    case.describe(component=name, unit=s, origin=t, n=u.n, X=X, plan=plan[:40])
    base = run(case, u, plan, X, y, 1.0, 0.0)
    other = run(case, u, plan, X, y, s, t)
    f = s ** u.power
    atol = u.atol if how == "origin" or u.atol < 1e-9 or u.power == 0 else 0.0
    fitted = 0
    seen = {}
    for k, (op, i) in enumerate(plan):
        fitted += op != "read"
        seen[k] = fitted
    judged = 0
    for (k, a), (k2, b) in zip(base, other):
        if seen[k] <= u.first:
            continue
        if u.skip == "flat":
            done = [X[j] for op, j in plan[:k + 1] if op != "read"]
            part = np.array(done[-4:])
            if len(np.unique(part)) < 3:           # a (nearly) vanishing deviation
                continue
        if u.cap and np.max(np.abs(a)) > u.cap:        # a vanishing scale
            if name == "KitNet":
                break
            continue
        want = a * f
        if how == "origin":
            want = a + (t if u.origin == 1 else 0.0)
        case.close(b, want, "the result does not follow the %s of the data" % how, rtol=u.rtol, atol=atol * max(1.0, abs(t)) if u.origin == 1 else atol,
                   step=k, op=plan[k], component=name)
        judged += 1
    case.see("results compared", judged)
    if judged:
        case.state(name, s, t, [np.round(a, 6) for _, a in base[-2:]])


def units(case):
    names = [n for n in NAMES]
    judge(case, names[case.index % len(names)], "unit")


SHIFTED = [n for n in NAMES if n not in ("xStream", "KitNet", "KNNCAD", "SeasonalESD", "SeasonalHybridESD", "InstanceUnitNormScaler", "StreamhashProjector",
                                         "GaussianRandomProjector", "SparseRandomProjector", "meter/SumMeter", "meter/SumSquaresMeter")]


def origins(case):
    judge(case, SHIFTED[case.index % len(SHIFTED)], "origin")


def monotone(case):
    """ranking metrics and conformal calibration only see the order of scores"""
    from pysad import evaluation as ev
    from pysad.transform.probability_calibration import ConformalProbabilityCalibrator
    r = case.rng
    n = case.int(2, 60)
    sc = r.randint(-9, 10, n) * 1.0 if case.flip() else r.randn(n)
    maps = {"cube": lambda v: v ** 3 + v, "exp": lambda v: np.exp(v * 3), "tiny": lambda v: v * 1e-9 + 3e-7, "arctan": np.arctan, "big": lambda v: v * 1e9 - 5e10,
            "rank": lambda v: np.argsort(np.argsort(np.unique(v)))[np.searchsorted(np.unique(v), v)] * 1.0}
    f = case.pick(sorted(maps))
    sc2 = maps[f](sc)
    if len(np.unique(sc2)) != len(np.unique(sc)):
        sc2 = sc * 4.0
    y = r.randint(0, 2, n)
    y[:2] = [0, 1]
    case.describe(n=n, map=f, scores=sc, y=y)
    for cls in (ev.AUROCMetric, ev.AUPRMetric):
        m1, m2 = cls(), cls()
        for i in range(n):
            m1.update(int(y[i]), float(sc[i]))
            m2.update(int(y[i]), float(sc2[i]))
        case.close(m2.get(), m1.get(), "%s changes under an increasing map of the scores" % cls.__name__, rtol=1e-12)
    win = case.flip()
    W = case.int(1, 20)
    c1, c2 = (ConformalProbabilityCalibrator(windowed=win, window_size=W) for _ in range(2))
    for i in range(n):
        c1.fit_partial(sc[i])
        c2.fit_partial(sc2[i])
        j = case.int(0, n - 1)
        case.eq(np.float64(case.scalar(c2.transform_partial(sc2[j]))), np.float64(case.scalar(c1.transform_partial(sc[j]))),
                "the conformal calibrator changes under an increasing map of the scores")
    case.state(n, f, win, W)


def renamed(case):
    """detectors of an ensemble, and features where their names do not matter, may come in any order"""
    from pysad.transform import ensemble as en, preprocessing as pp
    from pysad import models as pm
    r = case.rng
    k = case.int(1, 12)
    n = case.int(3, 30)
    X = r.randint(-40, 41, (n, k)) / 8.0
    p = r.permutation(k)
    which = case.pick(["mean", "weighted", "max", "median", "storm", "unit", "std", "decomp"])
    case.describe(k=k, n=n, which=which, order=p, X=X)
    wt = r.randint(1, 9, (1, k)).astype(float)
    if which in ("mean", "weighted", "max", "median"):
        mk = {"mean": lambda q: en.AverageScoreEnsembler(), "weighted": lambda q: en.AverageScoreEnsembler(estimator_weights=wt[:, q]),
              "max": lambda q: en.MaximumScoreEnsembler(), "median": lambda q: en.MedianScoreEnsembler()}[which]
        a, b = mk(np.arange(k)).fit_transform(X), mk(p).fit_transform(X[:, p])
        case.close(b, a, "the order of the detectors changes the combined score", rtol=1e-12, atol=1e-12)
    elif which == "storm":
        W, R = case.int(1, 9), float(case.pick([0.5, 2.0, 5.0]))
        a, b = pm.ExactStorm(W, R).fit_score(X), pm.ExactStorm(W, R).fit_score(X[:, p])
        d2 = np.array([[np.sum((X[i] - X[j]) ** 2) for j in range(n)] for i in range(n)])
        if np.min(np.abs(np.sqrt(d2) - R)) > 1e-9:
            case.close(b, a, "the order of the features changes the score", rtol=1e-12)
        case.check(True, "")
    else:
        X = X + np.arange(k) / 8.0 + 0.125
        X[np.ptp(X, axis=1) == 0, 0] += 1.0
        if which == "std" and k == 1:
            which = "unit"
        mk = {"unit": pp.InstanceUnitNormScaler, "std": pp.InstanceStandardScaler, "decomp": lambda: pp.SeasonalTrendDecomposer(2, 3)}[which]
        X[np.abs(X).sum(1) == 0] = 1.0
        a, b = mk().fit_transform(X), mk().fit_transform(X[:, p])
        case.close(b, a[:, p], "the order of the features changes the result", rtol=1e-9, atol=1e-10)
    case.see("results compared", n)
    case.state(k, n, which, list(p))


CHECK = Check(
    "C39", "exploration",
    "A case runs one life of a component (fits, reads, combined calls) twice with the same random numbers: on a stream and on the same "
    "stream in another unit (powers of two from 2^-60 to 2^60) or from another origin, configured ranges and radii converted likewise; "
    "every result must be unchanged or converted as its dimension says. Ranking metrics and conformal calibration are compared under "
    "increasing maps, symmetric components under permutations. Distinct non-trivial: distinct (component, unit or origin, results).",
    [Family(units, 20 * len(NAMES), 150 * len(NAMES)), Family(origins, 14 * len(SHIFTED), 100 * len(SHIFTED)), Family(monotone, 300, 2500), Family(renamed, 300, 2500)],
    ["streams lie on a grid of eighths or are scaled by powers of two, so that the conversion itself is exact",
     "components that contain absolute constants (LODA's bins, RSHash's cells, xStream's first window, 1e-10 and 1e-16 offsets) are judged where these do not matter"])
