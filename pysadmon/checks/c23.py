"""C23: seasonal ESD models against an independent generalized ESD over STL residuals."""
import math

import numpy as np
from scipy import stats

from .. import workloads as w
from ..common import Check, Family


def residuals(vals, period, robust, kw):
    from statsmodels.tsa.seasonal import STL
    v = np.array([float(z) for z in vals])
    s = STL(v, period=period, robust=robust, **kw).fit().seasonal
    srt = sorted(v.tolist())
    n = len(srt)
    med = srt[n // 2] if n % 2 else (srt[n // 2 - 1] + srt[n // 2]) / 2.0
    return v - s - med


def crit(n, i, alpha):
    """Rosner's lambda_i, two-sided"""
    p = 1.0 - alpha / (2.0 * (n - i + 1))
    t = stats.t.ppf(p, n - i - 1)
    return (n - i) * t / math.sqrt((n - i - 1 + t * t) * (n - i + 1))


class Unclear(Exception):
    """the verdict hangs on the last digits of floating-point noise"""


def med(v):
    v = sorted(v)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2.0


def esd_score(r, kmax, alpha, hybrid, noise):
    """generalized ESD; returns (score of the last element, number of detected anomalies)"""
    n = len(r)
    left = list(range(n))
    steps = []
    for i in range(1, kmax + 1):
        v = [r[j] for j in left]
        if hybrid:
            c = med(v)
            s = 1.4826 * med([abs(a - c) for a in v])
        else:
            c = math.fsum(v) / len(v)
            s = math.sqrt(math.fsum((a - c) ** 2 for a in v) / (len(v) - 1))
        if s <= 1e-10:
            if s > 0 and (s > 1e-11 or noise > 1e-12):
                raise Unclear
            break
        if s < 1e-9 or s < 1e3 * noise:
            raise Unclear
        dev = sorted(((abs(r[j] - c) / s, j) for j in left), reverse=True)
        if len(dev) > 1 and dev[0][0] - dev[1][0] <= 1e-7 * dev[0][0]:
            raise Unclear
        cv = crit(n, i, alpha)
        if abs(dev[0][0] - cv) <= 1e-7 * cv:
            raise Unclear
        steps.append((dev[0][1], dev[0][0], dev[0][0] > cv))
        left.remove(dev[0][1])
    k = max([i for i, t in enumerate(steps, 1) if t[2]], default=0)
    for j, stat, _ in steps[:k]:
        if j == n - 1:
            return stat, k
    return 0.0, k


def config(case):
    period = case.int(2, 8)
    W = case.int(2 * period, 2 * period + 24)
    if case.flip(0.1):
        W = case.int(60, 160)
    W = max(W, 5)
    kmax = case.int(1, max(1, (49 * W) // 100))
    alpha = case.pick([0.05, 0.01, 0.5, 0.2, 0.001, 0.9])
    robust = case.flip(0.5)
    kw = {}
    if case.flip(0.3):
        kw["seasonal"] = case.pick([7, 9, 13])
    if case.flip(0.2):
        kw["seasonal_deg"] = case.pick([0, 1])
    return period, W, kmax, alpha, robust, kw


def stream(case, n, period):
    kind = case.pick(["seasonal", "seasonal", "seasonal", "other", "spiky", "flat", "flat"])
    if kind == "flat":       # mostly an exact level: the median deviation can vanish while single values stand out
        x = np.full(n, float(case.pick([0.0, 0.0, 1.0, -2.0])))
        hit = case.rng.rand(n) < case.pick([0.03, 0.1, 0.2])
        x[hit] += case.rng.choice([-5.0, 1.0, 8.0, 40.0], hit.sum())
        if case.flip():
            x[-case.int(1, 4):] += case.rng.choice([3.0, 20.0])
        return x
    if kind == "other":
        return w.series(case, n)
    t = np.arange(n)
    x = case.pick([0.0, 1.0, 10.0]) * np.sin(2 * np.pi * t / period) + case.pick([0.05, 0.5, 1.0]) * case.rng.randn(n) \
        + case.pick([0.0, 0.0, 0.05]) * t + case.pick([0.0, 0.0, 50.0, -300.0])
    p = 0.25 if kind == "spiky" else 0.07
    hit = case.rng.rand(n) < p
    x[hit] += case.rng.choice([-1, 1], hit.sum()) * case.rng.choice([4.0, 8.0, 30.0], hit.sum())
    return x


def scores(case, hybrid):
    from pysad.models import SeasonalESD, SeasonalHybridESD
    period, W, kmax, alpha, robust, kw = config(case)
    cls = SeasonalHybridESD if hybrid else SeasonalESD
    args = dict(period=period, window_size=W, max_anomalies=kmax)
    if alpha != 0.05 or case.flip():
        args["alpha"] = alpha
    if not robust or case.flip():
        args["robust"] = robust
    args.update(kw)
    m = cls(**args)
    n = W + case.int(3, 14)
    x = stream(case, n, period)
    unit = float(case.pick([1.0, 1.0, 1.0, 1e-3, 1e-5, 1e-6, 1e4, 1e7]))
    x = (x - (x.mean() if unit < 1 else 0.0)) * unit
    case.describe(args=args, n=n, unit=unit, x=x, hybrid=hybrid)
    hist = []
    scale = float(np.max(np.abs(x))) + 1e-300
    noise = 1e-15 * max(1.0, scale) if scale > 1 else 1e-16 * max(scale, 1e-3)

    def judge(got, values, call, i):
        got = case.scalar(got)
        values = values[-W:]
        if len(values) < W:
            case.eq(got, 0.0, "%s: non-zero score before window_size values are available" % call, step=i)
            case.see("warm-up scores")
            return
        r = residuals(values, period, robust, kw)
        if not np.all(np.isfinite(r)):
            case.see("skipped: STL did not converge to numbers")
            return
        try:
            want, k = esd_score(r.tolist(), kmax, alpha, hybrid, noise * 100)
        except Unclear:
            case.see("skipped: decided by rounding")
            return
        case.close(got, want, "%s is not the generalized-ESD statistic of the newest value" % call, rtol=1e-6, atol=1e-9,
                   step=i, detected=k, residuals=r)
        case.see("anomalous" if want else "clean")
        case.state(hybrid, period, W, kmax, alpha, k, bool(want), call)

    for i in range(n):
        v = x[i]
        if len(hist) >= W - 2 and case.flip(0.8) or case.flip(0.1):
            for u in ([v] + [float(case.pick([x[case.int(0, n - 1)], v + case.rng.randn() * 10 * unit]))])[:case.int(1, 2)]:
                judge(m.score_partial(np.array([u])), hist + [u], "score_partial", i)
        if case.flip():
            got = m.fit_score_partial(np.array([v]))
            hist.append(v)
            judge(got, hist, "fit_score_partial", i)
        else:
            m.fit_partial(np.array([v]))
            hist.append(v)


def deep(case):
    """many allowed anomalies, values of graded size: verdicts far down the sequence of removals"""
    from pysad.models import SeasonalESD, SeasonalHybridESD
    hybrid = case.flip()
    period = case.int(2, 6)
    W = case.int(30, 110)
    kmax = case.int(max(1, W // 5), (49 * W) // 100)
    alpha = case.pick([0.05, 0.2, 0.5, 0.01])
    robust = case.flip(0.7)
    m = (SeasonalHybridESD if hybrid else SeasonalESD)(period=period, window_size=W, max_anomalies=kmax, alpha=alpha, robust=robust)
    r = case.rng
    x = np.sin(2 * np.pi * np.arange(W) / period) * case.pick([0.0, 3.0]) + r.standard_t(case.pick([1.5, 2.5, 4.0]), W)
    h = case.int(4, max(4, kmax))
    x[r.permutation(W)[:h]] += case.pick([-1, 1]) * np.linspace(3.0, case.pick([6.0, 12.0, 40.0]), h)
    case.describe(period=period, W=W, kmax=kmax, alpha=alpha, robust=robust, hybrid=hybrid, x=x)
    m.fit(x[:-1, None])
    hist = x[:-1].tolist()
    sd = 1.4826 * med([abs(v - med(hist)) for v in hist])
    for u in list(case.pick([-1, 1]) * sd * np.linspace(1.5, 9.0, 12)) + [x[-1]]:
        got = case.scalar(m.score_partial(np.array([u])))
        res = residuals(hist + [u], period, robust, {})
        if not np.all(np.isfinite(res)):
            case.see("skipped: STL did not converge to numbers")
            continue
        try:
            want, k = esd_score(res.tolist(), kmax, alpha, hybrid, 1e-13)
        except Unclear:
            case.see("skipped: decided by rounding")
            continue
        case.close(got, want, "score_partial is not the generalized-ESD statistic of the newest value", rtol=1e-6, atol=1e-9, detected=k, value=u)
        case.see("verdicts beyond eight removals" if k > 8 else "verdicts within eight removals")
        case.state(hybrid, period, W, kmax, alpha, k, bool(want), "deep")


def plain(case):
    scores(case, False)


def hybrid(case):
    scores(case, True)


def rejected(case):
    """invalid configurations raise ValueError, the valid neighbours do not"""
    from pysad.models import SeasonalESD, SeasonalHybridESD
    cls = case.pick([SeasonalESD, SeasonalHybridESD])
    period = case.int(2, 12)
    W = 2 * period + case.int(0, 60)
    top = (49 * W) // 100
    if (49 * W) % 100 == 0 or top < 1:
        W += 1
        top = max(1, (49 * W) // 100)
    if top < 1 or W < 5:
        period, W, top = 3, 7, 3
    case.describe(period=period, W=W, top=top, cls=cls.__name__)
    ok = [dict(period=period, window_size=W, max_anomalies=k, alpha=a) for k in (1, top) for a in (1e-9, 0.05, 0.999)]
    ok.append(dict(period=W // 2, window_size=W, max_anomalies=1))
    bad = [dict(period=period, window_size=W, max_anomalies=k) for k in (0, -1, -5, top + 1, W, top + 7)]
    bad += [dict(period=period, window_size=W, max_anomalies=1, alpha=a) for a in (0, 0.0, 1, 1.0, -0.1, 1.5, float("nan"), float("inf"), -float("inf"))]
    bad += [dict(period=p, window_size=W, max_anomalies=1) for p in (W // 2 + 1, W, 1, 0, -3)]
    bad += [dict(period=period, window_size=2 * period - 1, max_anomalies=1)]
    for a in ok:
        cls(**a)
        case.see("valid configuration accepted")
    for a in bad:
        try:
            cls(**a)
        except ValueError:
            case.check(True, "")
            case.see("invalid configuration rejected")
            continue
        case.fail("invalid configuration accepted", args=a)
    m = cls(**ok[0])
    for bx in (np.zeros(2), np.zeros(0), np.zeros(period + 1)):
        for call in (m.fit_partial, m.score_partial, m.fit_score_partial):
            try:
                call(bx)
            except ValueError:
                case.check(True, "")
                case.see("multivariate instance rejected")
                continue
            case.fail("an instance that is not univariate is accepted", width=len(bx))
    case.state(cls.__name__, period, W)


CHECK = Check("C23", "exploration",
              "distinct = distinct (model, period, window, max_anomalies, alpha, number of detected anomalies, newest value flagged or not, "
              "call) situations in which the monitor compared a full-window score with an independent generalized ESD",
              [Family(plain, 110, 1600), Family(hybrid, 110, 1600), Family(rejected, 12, 120), Family(deep, 240, 2400)],
              ["statsmodels' STL supplies the seasonal component for both sides",
               "verdicts that hang on the last digits (ties, statistics within 1e-7 of the critical value, rounding-noise residuals) are skipped and counted"])
