"""C24: modified STL residuals and the streaming seasonal-trend decomposer against references."""
import numpy as np

from .. import workloads as w
from ..common import Check, Family
from .c23 import residuals, stream


def stl_config(case):
    period = case.int(2, 8)
    W = 2 * period + case.int(0, 20)
    if case.flip(0.08):
        W = case.int(60, 200)
    robust = case.flip()
    kw = {}
    if case.flip(0.3):
        kw["seasonal"] = case.pick([7, 9, 13])
    if case.flip(0.2):
        kw["seasonal_deg"] = case.pick([0, 1])
    return period, W, robust, kw


def units(case, x):
    """the same series in another unit"""
    if case.flip(0.4):
        x = x - case.pick([0.0, 1.0]) * x.mean()
        x = x * float(case.pick([1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e4, 1e7]))
    return x


def judge(case, got, want, msg, scale, **wit):
    if not np.all(np.isfinite(want)):
        case.see("skipped: STL did not converge to numbers")
        return False
    case.close(got, want, msg, rtol=1e-9, atol=1e-11 * scale, **wit)
    return True


def stl_partial(case):
    """last residual of the last window_size values"""
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
    period, W, robust, kw = stl_config(case)
    args = dict(period=period, window_size=W, **kw)
    if not robust or case.flip():
        args["robust"] = robust
    t = ModifiedSTLResidualTransformer(**args)
    n = W + case.int(2, 15)
    x = units(case, stream(case, n, period))
    scale = float(np.max(np.abs(x)))
    case.describe(args=args, n=n, x=x)
    hist = []

    def want(vals):
        vals = vals[-W:]
        return 0.0 if len(vals) < 2 * period else residuals(vals, period, robust, kw)[-1]

    for i in range(n):
        v = float(x[i])
        if case.flip(0.5):
            u = float(case.pick([v, v + 10 * case.rng.randn(), x[case.int(0, n - 1)]]))
            if judge(case, case.scalar(t.transform_partial(np.array([u]))), want(hist + [u]),
                     "transform_partial is not the newest residual of the last window_size values", scale, step=i):
                case.see("transform_partial")
                case.state("t", period, W, len(hist) >= W, len(hist) + 1 < 2 * period, robust, bool(kw))
        if case.flip(0.5):
            got = case.scalar(t.fit_transform_partial(np.array([v])))
            hist.append(v)
            if judge(case, got, want(hist), "fit_transform_partial is not the newest residual of the last window_size values", scale, step=i):
                case.see("fit_transform_partial")
                case.state("ft", period, W, len(hist) > W, len(hist) < 2 * period, robust, bool(kw))
        else:
            t.fit_partial(np.array([v]))
            hist.append(v)


def stl_window(case):
    """whole windows, in both documented shapes, whatever was fitted before"""
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
    period, W, robust, kw = stl_config(case)
    windowed = case.flip()
    t = ModifiedSTLResidualTransformer(period, W, robust, **kw) if windowed else \
        ModifiedSTLResidualTransformer(period, robust=robust, **kw)
    case.describe(period=period, W=W if windowed else None, robust=robust, kw=kw)
    for _ in range(4):
        n = 2 * period + case.int(0, 30)
        x = units(case, stream(case, n, period))
        if windowed and case.flip():
            t.fit_partial(np.array([x[0]]))
        arg = x.copy() if case.flip() else x.copy().reshape(-1, 1)
        got = t.transform_window(arg)
        if judge(case, got, residuals(x, period, robust, kw), "transform_window is not x - seasonal - median", float(np.max(np.abs(x))), x=x):
            case.see("windows")
            case.state(period, n, robust, bool(kw), arg.ndim)
    try:
        t.transform_window(np.zeros(2 * period - 1))
    except ValueError:
        case.check(True, "")
    else:
        case.fail("a window shorter than two periods is accepted")
    for bad in (dict(period=1), dict(period=0), dict(period=period, window_size=2 * period - 1), dict(period=-2)):
        try:
            ModifiedSTLResidualTransformer(**bad)
        except ValueError:
            case.check(True, "")
            continue
        case.fail("invalid configuration accepted", args=bad)


class Ref:
    """trend = mean of the last trend_window fitted values; season = mean of detrended values per phase"""

    def __init__(self, L, tw):
        self.L, self.tw, self.hist, self.det = L, tw, [], [[] for _ in range(L)]

    def trend(self):
        h = self.hist[-self.tw:]
        return sum(h) / len(h) if h else 0.0

    def season(self, ph):
        return sum(self.det[ph]) / len(self.det[ph]) if self.det[ph] else 0.0

    def fit(self, x):
        ph = len(self.hist) % self.L
        self.hist.append(x)
        if len(self.hist) >= self.tw:
            self.det[ph].append(x - self.trend())
        return ph

    def transform(self, x):
        return x - self.trend() - self.season(len(self.hist) % self.L)

    def scale(self, ph):
        """magnitude of the values that trend and season of this phase are made of now"""
        vals = self.hist[-self.tw:] + self.det[ph]
        return float(np.max(np.abs(vals))) if vals else 0.0


def decomposer(case):
    from pysad.transform.preprocessing import SeasonalTrendDecomposer
    L = case.int(1, 7)
    tw = case.pick([None, 1, 2, L, L + 3, 2 * L, case.int(1, 15)])
    t = SeasonalTrendDecomposer(L) if tw is None else SeasonalTrendDecomposer(L, tw)
    if case.flip(0.2):         # long seasons, wide trends, long streams
        L, tw = case.pick([1, 7, 24, 60, 140, 300]), case.pick([None, 1, 50, 200])
        t = SeasonalTrendDecomposer(L) if tw is None else SeasonalTrendDecomposer(L, tw)
    tw_ = L if tw is None else tw
    d = case.pick([1, 1, 2, 5])
    n = case.int(tw_ + 3, tw_ + 4 * L + 12)
    if max(L, tw_) > 20 or case.flip(0.05):
        n = tw_ + case.pick([300, 900, 2100])
    X = w.matrix(case, n, d)
    X = np.clip(X, -1e6, 1e6)
    unit = float(case.pick([1.0, 1.0, 1.0, 1e-3, 1e-5, 1e-7, 1e5]))
    if case.flip(0.3):
        X = X + np.sin(2 * np.pi * np.arange(n) / L)[:, None] * 5
    if case.flip(0.15):
        X = np.round(X)
        dt = np.dtype(case.pick([np.int64, np.int64, np.int32, np.int16, np.int8, np.uint8]))
        X = np.clip(X, np.iinfo(dt).min, np.iinfo(dt).max).astype(dt)
        unit = 1.0
    X = X * unit if unit != 1.0 else X
    scale = float(np.max(np.abs(X.astype(float))))
    transient = L > 1 and X.dtype.kind == "f" and case.flip(0.25)
    if transient:               # one huge value that leaves the trend window again
        X[0] = case.pick([-1, 1]) * case.pick([1e12, 1e17, 1e200])
    ref = Ref(L, tw_)

    def tol(p, ph):
        return 1e-11 * (min(unit, 1.0) + ref.scale(ph) + float(np.max(np.abs(p)))) + 1e-12 * scale
    case.describe(transient=transient, L=L, trend_window=tw, d=d, n=n, X=X)
    rare = n > 200
    for i in range(n):
        if rare and case.flip(0.97) and i < n - 4:
            t.fit_partial(X[i])
            ref.fit(X[i].astype(float))
            continue
        for _ in range(case.int(0, 2)):
            p = X[case.int(1, n - 1)].astype(float)
            case.close(t.transform_partial(p), ref.transform(p), "transform_partial does not remove the stated trend and season",
                       rtol=1e-9, atol=tol(p, i % L), step=i)
            case.see("transform_partial")
        if case.flip():
            got = t.fit_transform_partial(X[i])
            ph = ref.fit(X[i].astype(float))
            want = X[i] - ref.trend() - ref.season(ph)
            case.close(got, want, "fit_transform_partial does not remove trend and season including the instance",
                       rtol=1e-9, atol=tol(X[i].astype(float), ph), step=i)
            case.see("fit_transform_partial")
        else:
            t.fit_partial(X[i])
            ref.fit(X[i].astype(float))
        case.state(L, tw, d, i % L, min(i, tw_), len(ref.det[i % L]))
    for bad in ((0,), (-1,), (L, 0), (L, -2)):
        try:
            SeasonalTrendDecomposer(*bad)
        except ValueError:
            case.check(True, "")
            continue
        case.fail("invalid configuration accepted", args=bad)


CHECK = Check("C24", "exploration",
              "distinct = distinct (transformer, configuration, phase, window fill) situations in which the monitor compared an output with "
              "an independent reference",
              [Family(stl_partial, 80, 1500), Family(stl_window, 40, 800), Family(decomposer, 300, 3500)],
              ["statsmodels' STL supplies the seasonal component for both sides"])
