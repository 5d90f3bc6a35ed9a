"""C13: nothing the caller passes in is ever modified; read-only arrays are accepted."""
import copy

import numpy as np

from ..common import Check, Family, Skip
from .. import drivers as dr
from .. import workloads as w


class Guard:
    """Snapshots of every caller-owned object, compared at any time."""

    def __init__(self, case):
        self.case, self.items = case, []

    def add(self, name, obj):
        if isinstance(obj, np.ndarray):
            base = obj
            while isinstance(base.base, np.ndarray):
                base = base.base
            self.items.append((name, obj, obj.copy(), base, base.tobytes("A"), (obj.shape, obj.dtype, obj.strides, obj.flags.writeable)))
        else:
            self.items.append((name, obj, copy.deepcopy(obj), None, None, None))
        return obj

    def verify(self, when):
        for name, obj, snap, base, raw, meta in self.items:
            if isinstance(obj, np.ndarray):
                ok = base.tobytes("A") == raw and meta == (obj.shape, obj.dtype, obj.strides, obj.flags.writeable)
            elif hasattr(obj, "equals"):
                ok = obj.equals(snap) and list(obj.index) == list(snap.index) and (
                    not hasattr(obj, "columns") or (list(obj.columns) == list(snap.columns) and list(obj.dtypes) == list(snap.dtypes)))
            else:
                ok = obj == snap
            self.case.check(ok, "caller's %s was modified (%s)" % (name, when), before=snap, after=obj)
        self.case.see("objects verified", len(self.items))


def prepare(case, X, dtype=None):
    X = np.asarray(X) if dtype is None else np.asarray(X).astype(dtype)
    return w.layout(case, X)


STREAMED = [n for n in w.MODEL_NAMES + w.TRANSFORMER_NAMES + w.POST_NAMES + w.ENS_NAMES if n != "Inqmad"] + ["Inqmad"]


def calls(case):
    """every partial and batch call of every component on a strided / Fortran / reversed view"""
    name = STREAMED[case.index % len(STREAMED)]
    d = dr.driver(case, name, n=min(dr.LENGTH.get(name, 16), 60))
    g = Guard(case)
    X = g.add("features", prepare(case, d.X))
    probes = g.add("probes", prepare(case, d.probes))
    y = None if d.y is None else g.add("labels", prepare(case, d.y))
    d.X, d.probes, d.y = X, probes, y
    batch = case.flip()
    outcomes = []
    case.describe(component=name, cfg=d.cfg, strides=X.strides, batch=batch)
    for ro in (False, True):
        if ro:
            for name_, o, *_ in list(g.items):
                o.flags.writeable = False
            g.items = [(a, b, c, e, f, (b.shape, b.dtype, b.strides, b.flags.writeable)) for a, b, c, e, f, _ in g.items]
        case.reseed("run")
        obj = d.ctor()
        out = []
        n = d.n
        if batch:
            h = n // 2
            if d.kind == "model":
                obj.fit(X[:h], None if y is None else y[:h])
                out.append(np.array(obj.fit_score(X[h:], None if y is None else y[h:])))
                if name != "PerfectModel":
                    out.append(np.array(obj.score(probes)))
            else:
                obj.fit(X[:h])
                out.append(np.array(obj.fit_transform(X[h:])))
                out.append(np.array(obj.transform(probes)))
            case.see("batch calls", 3)
        else:
            for i in range(n):
                if case.flip() and i >= d.warm:
                    out.append(d.fit_read(obj, i))
                else:
                    d.fit(obj, i)
                if i >= d.warm and name != "PerfectModel":
                    out.append(d.read(obj, i % len(probes)))
                case.see("calls", 2)
            if case.flip(0.3):
                g.verify("during the stream")
        g.verify("read-only input" if ro else "writable input")
        outcomes.append(out)
    case.state(name, batch, X.strides, [np.round(np.sum(o), 5) for o in outcomes[1][:6]])


def deterministic_ro(case):
    """read-only input gives the same results as writable input"""
    name = STREAMED[case.index % (len(STREAMED) - 1)]
    d = dr.driver(case, name, n=min(dr.LENGTH.get(name, 16), 60))
    if name == "LODA" and d.cfg["num_bins"] % 2 == 0:
        raise Skip()        # a fitted value lies on the end of its bin there, and the layout may change its last digit
    res = []
    case.describe(component=name, cfg=d.cfg)
    X0, P0, y0 = d.X, d.probes, d.y
    which = case.pick(["C", "F", "rows", "cols", "rev"])
    for ro in (False, True):
        d.X = w.layout(case, X0, which if ro else "C", writable=not ro)
        d.probes = w.layout(case, P0, which if ro else "C", writable=not ro)
        d.y = None if y0 is None else w.layout(case, y0, "C", writable=not ro)
        case.reseed("run")
        obj = d.ctor()
        out = []
        for i in range(d.n):
            d.fit(obj, i)
            if i + 1 >= d.warm:
                out.append(d.read(obj, i % len(P0)))
        res.append(np.concatenate(out))
    case.close(res[1], res[0], "a read-only view gives other results than a writable array", rtol=max(d.rtol, 1e-9), atol=1e-9, component=name)
    case.state(name, which, np.round(res[0][-3:], 6))


CTORS = ["HalfSpaceTrees", "HalfSpaceTrees", "IForestASD", "LocalOutlierProbability", "OneFitModel", "ReferenceWindowModel", "RSHash",
         "AverageScoreEnsembler", "SeasonalESD"]


def constructors(case):
    from pysad import models as pm
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    from pysad.transform.ensemble import AverageScoreEnsembler
    r = case.rng
    name = CTORS[case.index % len(CTORS)]
    g = Guard(case)
    d = case.int(1, 5)
    n = case.int(12, 24)
    ro = case.flip()

    def mk(label, A):
        A = w.layout(case, np.asarray(A, dtype=np.float64), writable=not ro)
        return g.add(label, A)

    X = g.add("stream", r.rand(n, d))
    case.describe(component=name, d=d, n=n, read_only=ro)
    y = None
    if name == "HalfSpaceTrees":
        lo, hi = mk("feature_mins", -r.rand(d)), mk("feature_maxes", 1 + r.rand(d))
        init = mk("initial_window_X", r.rand(case.int(1, 9), d)) if case.flip() else None
        m = pm.HalfSpaceTrees(lo, hi, window_size=case.int(1, 6), num_trees=3, max_depth=4, initial_window_X=init)
    elif name == "IForestASD":
        m = pm.IForestASD(initial_window_X=mk("initial_window_X", r.rand(8, d)), window_size=case.int(4, 8), n_estimators=3)
    elif name == "LocalOutlierProbability":
        m = pm.LocalOutlierProbability(mk("initial_X", r.rand(20, d)), num_neighbors=case.int(2, 6), extent=2)
    elif name == "OneFitModel":
        y = g.add("labels", r.randint(0, 2, n))
        m = OneFitModel(w.MeanDetector, mk("initial_X", r.rand(6, d)), mk("initial_y", r.randint(0, 2, 6)) if case.flip() else None)
    elif name == "ReferenceWindowModel":
        k = case.int(1, 12)
        y = g.add("labels", r.randint(0, 2, n))
        m = ReferenceWindowModel(w.MeanDetector, case.int(2, 9), case.int(1, 9), initial_window_X=mk("initial_window_X", r.rand(k, d)),
                                 initial_window_y=mk("initial_window_y", r.randint(0, 2, k)))
    elif name == "RSHash":
        lo, hi = -r.rand(d), 1 + r.rand(d)
        if case.flip():
            hi[0] = lo[0]
        m = pm.RSHash(mk("feature_mins", lo), mk("feature_maxes", hi), num_components=4)
    elif name == "SeasonalESD":
        kw = g.add("keyword dictionary", dict(period=3, window_size=9, max_anomalies=2, seasonal=7))
        X = g.add("stream1", r.rand(n, 1))
        m = pm.SeasonalESD(**kw)
    else:
        wts = mk("estimator_weights", r.randint(1, 5, (1, d)) if case.flip() else r.rand(1, d) * 4 + 0.1)
        e = AverageScoreEnsembler(estimator_weights=wts)
        for i in range(n):
            e.fit_transform_partial(X[i])
            g.verify("after instance %d" % i)
        e.transform(X)
        g.verify("at the end")
        case.state(name, ro, d, n)
        return
    g.verify("after construction")
    for i in range(n):
        m.fit_partial(X[i], None if y is None else y[i])
        if i > 2:
            m.score_partial(X[case.int(0, n - 1)])
        if case.flip(0.3):
            g.verify("after instance %d" % i)
    m.score(X)
    g.verify("at the end")
    case.state(name, ro, d, n)


def whole_windows(case):
    """a window handed over as a whole stays as it is"""
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
    r = case.rng
    period = case.int(2, 5)
    n = case.int(2 * period, case.pick([6, 30]) * period)
    g = Guard(case)
    x = r.randn(n) + 3 * np.sin(2 * np.pi * np.arange(n) / period)
    kind = case.pick(["flat", "flat", "column", "labels"])
    t = ModifiedSTLResidualTransformer(period, robust=case.flip(), **({} if case.flip() else dict(window_size=2 * period)))
    outs = []
    for ro in (False, True):
        a = x.reshape(-1, 1).copy() if kind == "column" else x.copy()
        a = g.add("window", w.layout(case, a, writable=not ro))
        if kind == "labels":
            outs.append(np.array(t.transform_window((a, None))))
        else:
            outs.append(np.array(t.transform_window(a)))
        g.verify("after transform_window")
        outs.append(np.array(t.transform_window(a)))
        g.verify("after the second transform_window")
    for o in outs[1:]:
        case.close(o, outs[0], "the same window gives other residuals", rtol=1e-9, atol=1e-9)
    case.describe(period=period, n=n, kind=kind)
    case.state(period, n, kind)


def utilities(case):
    """streamers, data frames, metrics, meters and helper functions"""
    import pandas as pd
    from pysad import utils as pu
    from pysad.utils import ArrayStreamer, PandasStreamer
    r = case.rng
    g = Guard(case)
    n, d = case.int(1, 12), case.int(1, 4)
    X = g.add("X", w.layout(case, r.randn(n, d), writable=case.flip()))
    y = g.add("y", w.layout(case, r.randint(0, 2, n), writable=case.flip()))
    df = g.add("X frame", pd.DataFrame(r.randn(n, d), columns=["c%d" % i for i in range(d)], index=r.permutation(n) + 5))
    ys = g.add("y series", pd.Series(r.randint(0, 2, n), index=df.index))
    ydf = g.add("y frame", pd.DataFrame({"y": ys}))
    sh = case.flip()
    case.describe(n=n, d=d, shuffle=sh)
    cnt = 0
    for xi, yi in ArrayStreamer(shuffle=sh).iter(X, y):
        cnt += 1
    for xi in ArrayStreamer(shuffle=sh).iter(X):
        cnt += 1
    for xi, yi in PandasStreamer(shuffle=sh).iter(df, case.pick([ys, ydf])):
        cnt += 1
    for xi in PandasStreamer(shuffle=sh).iter(df):
        cnt += 1
    case.see("instances streamed", cnt)
    g.verify("after streaming")
    pu.get_minmax_array(X)
    pu.get_minmax_scalar(X)
    g.verify("after min/max")
    case.state(n, d, sh, X.strides)


def frames_into_models(case):
    """a whole data frame streamed through scaler -> model -> postprocessor stays as it was"""
    import pandas as pd
    from pysad.utils import ArrayStreamer, PandasStreamer
    from pysad.transform.preprocessing import InstanceUnitNormScaler, InstanceStandardScaler, IdentityScaler
    from pysad.transform.projection import StreamhashProjector
    from pysad.transform.postprocessing import RunningAveragePostprocessor
    from pysad.models import LODA, xStream, ExactStorm, KitNet
    from pysad.evaluation import AUROCMetric
    r = case.rng
    n, d = case.int(10, 30), case.int(2, 5)
    g = Guard(case)
    pdf = case.flip()
    if pdf:
        X = g.add("frame", pd.DataFrame(r.rand(n, d) + 0.1, columns=list("abcdefg")[:d]))
        y = g.add("labels", pd.Series(np.arange(n) % 2))
        it = PandasStreamer(shuffle=False).iter(X, y)
    else:
        X = g.add("array", w.layout(case, r.rand(n, d) + 0.1))
        y = g.add("labels", np.arange(n) % 2)
        it = ArrayStreamer(shuffle=case.flip()).iter(X, y)
    scaler = case.pick([InstanceUnitNormScaler, InstanceStandardScaler, IdentityScaler, lambda: StreamhashProjector(3)])()
    model = case.pick([lambda: LODA(num_bins=4, num_random_cuts=3), lambda: xStream(4, 3, 4, 5), lambda: ExactStorm(6, 0.4),
                       lambda: KitNet(2, 4, 6)])()
    post = RunningAveragePostprocessor(4)
    metric = AUROCMetric()
    case.describe(n=n, d=d, frame=pdf, scaler=type(scaler).__name__, model=type(model).__name__)
    for xi, yi in it:
        z = scaler.fit_transform_partial(np.asarray(xi))
        s = model.fit_score_partial(z)
        s = post.fit_transform_partial(float(np.asarray(s).reshape(-1)[0]))
        metric.update(yi, s)
        case.see("instances")
    g.verify("after the pipeline")
    case.state(n, d, pdf, type(scaler).__name__, type(model).__name__)


CHECK = Check(
    "C13", "exploration",
    "A case hands caller-owned arrays (contiguous, Fortran, strided, reversed; writable and read-only), label arrays, data frames, "
    "initial windows, bounds, weights and dictionaries to real components, drives random interleavings of all calls, and compares every "
    "byte (of the underlying buffers too), shape, strides and flags with a snapshot taken before. Distinct non-trivial: distinct "
    "(component, layout, call mode, outcome) combinations.",
    [Family(calls, 240, 3000), Family(deterministic_ro, 200, 2600), Family(constructors, 108, 1400), Family(whole_windows, 24, 200), Family(utilities, 60, 800),
     Family(frames_into_models, 40, 500)],
    ["arrays are float64 features and integer labels as documented; aliasing of caller buffers by windows is not judged, only modification"])
