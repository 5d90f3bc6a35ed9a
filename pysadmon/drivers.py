"""One uniform driver for every public component: construct, fit one instance, read with a probe."""
import numpy as np

from . import workloads as w

METER_NAMES = ["SumMeter", "CountMeter", "AverageMeter", "MaxMeter", "MinMeter", "MedianMeter", "SumSquaresMeter",
               "VarianceMeter", "AbsStatistic", "RunningStatistic"]
METRIC_NAMES = ["PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric", "WindowedMetric"]
WINDOW_NAMES = ["Window", "UnlimitedWindow"]
ALL = (w.MODEL_NAMES + w.TRANSFORMER_NAMES + w.POST_NAMES + w.ENS_NAMES + METER_NAMES + METRIC_NAMES + WINDOW_NAMES)


class D:
    """driver of one configured component with a prepared stream"""

    def __init__(self, name, kind, ctor, X, y, probes, cfg, warm=1, pure=True, stochastic=False, rtol=1e-9, atol=1e-12):
        self.name, self.kind, self.ctor, self.X, self.y, self.probes = name, kind, ctor, X, y, probes
        self.cfg, self.warm, self.pure, self.stochastic, self.rtol, self.atol = cfg, warm, pure, stochastic, rtol, atol

    def fit(self, obj, i):
        if self.kind == "model":
            return obj.fit_partial(self.X[i], None if self.y is None else self.y[i])
        if self.kind in ("transformer", "post"):
            return obj.fit_partial(self.X[i])
        if self.kind == "metric":
            return obj.update(self.y[i], self.X[i])
        return obj.update(self.X[i])

    def read(self, obj, p):
        if self.kind == "model":
            v = obj.score_partial(self.probes[p])
        elif self.kind in ("transformer", "post"):
            v = obj.transform_partial(self.probes[p])
        else:
            v = obj.get()
        return np.array(np.asarray(v), dtype=np.float64).reshape(-1)

    def fit_read(self, obj, i):
        """the combined call"""
        if self.kind == "model":
            v = obj.fit_score_partial(self.X[i], None if self.y is None else self.y[i])
        elif self.kind in ("transformer", "post"):
            v = obj.fit_transform_partial(self.X[i])
        else:
            self.fit(obj, i)
            v = obj.get()
        return np.array(np.asarray(v), dtype=np.float64).reshape(-1)

    def batch_read(self, obj, ps):
        P = np.array([self.probes[p] for p in ps])
        if self.kind == "model":
            return obj.score(P)
        if self.kind in ("transformer", "post"):
            return obj.transform(P)
        return None

    @property
    def n(self):
        return len(self.X)


LENGTH = {"IForestASD": 14, "Inqmad": 8, "KNNCAD": 130, "RelativeEntropy": 40, "SeasonalESD": 24, "SeasonalHybridESD": 24,
          "ModifiedSTLResidualTransformer": 20, "KitNet": 26}


def driver(case, name, n=None):
    r = case.rng
    n = n or LENGTH.get(name, 30)
    if name in w.MODEL_NAMES:
        m = w.model(case, name)
        X = m.gen(n)
        # labels only where the model is documented to use them or consistently ignores them
        y = w.labels(case, n) if (m.needs_y or case.flip(0.3)) else None
        probes = np.concatenate([X[r.randint(0, n, 4)], X[:2] + 0.25, m.gen(3)], axis=0)
        if name not in ("RelativeEntropy",):
            probes[-1] = probes[-1] * 50 + 100
        return D(name, "model", m.ctor, X, y, probes, m.cfg, warm=max(1, m.warm), pure=m.pure, stochastic=m.stochastic, rtol=m.rtol)
    if name in w.TRANSFORMER_NAMES:
        t = w.transformer(case, name)
        X = t.gen(n)
        probes = np.concatenate([X[r.randint(0, n, 3)], t.gen(4)], axis=0)
        return D(name, "transformer", t.ctor, X, None, probes, t.cfg, stochastic=t.stochastic, rtol=t.rtol)
    if name in w.POST_NAMES + w.ENS_NAMES:
        s = w.post(case, name)
        X = s.gen(n)
        probes = np.concatenate([X[r.randint(0, n, 3)], s.gen(4)], axis=0)
        if name.endswith("ZScorePostprocessor"):
            X = X + r.rand(n)      # positive deviation
        return D(name, "post", s.ctor, X, None, probes, s.cfg, warm=2 if "ZScore" in name else 1)
    vals = [float(v) for v in r.randint(-9, 10, n)]
    if name in METER_NAMES:
        from pysad import statistics as st
        base = getattr(st, case.pick(METER_NAMES[:8]))
        if name == "AbsStatistic":
            return D(name, "meter", lambda: st.AbsStatistic(base), vals, None, [0], dict(base=base.__name__))
        if name == "RunningStatistic":
            W = case.int(1, 8)
            return D(name, "meter", lambda: st.RunningStatistic(base, W), vals, None, [0], dict(base=base.__name__, W=W))
        return D(name, "meter", getattr(st, name), vals, None, [0], {})
    if name in METRIC_NAMES:
        from pysad import evaluation as ev
        y = r.randint(0, 2, n)
        y[:2] = [0, 1]
        if name in ("PrecisionMetric", "RecallMetric"):
            X = r.randint(0, 2, n)
            X[1] = 1
        else:
            X = r.randn(n)
        if name == "WindowedMetric":
            W = case.int(2, 6)
            y = np.arange(n) % 2
            return D(name, "metric", lambda: ev.WindowedMetric(ev.AUROCMetric, W), list(X), list(y), [0], dict(W=W), warm=2)
        return D(name, "metric", getattr(ev, name), list(X), list(y), [0], {}, warm=2)
    from pysad.utils import window as pw
    if name == "Window":
        W = case.int(1, 8)
        return D(name, "window", lambda: pw.Window(W), vals, None, [0], dict(W=W))
    return D(name, "window", lambda: pw.UnlimitedWindow(), vals, None, [0], {})
