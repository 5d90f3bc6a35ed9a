"""C18: deviation models score exactly their running location and scale formula."""
import numpy as np

from ..common import Check, Family
from .. import workloads as w

KINDS = ["walk", "season", "spikes", "lattice", "const", "normal", "dups", "offset", "shift"]


def _score(case, m, v):
    r = m.score_partial(np.array([v]))
    return case.scalar(r)


def mad(case):
    from pysad.models import MedianAbsoluteDeviation
    absolute, b = case.flip(), float(case.pick([1.4826, 1.0, 0.5, 3.0]))
    dflt = case.flip(0.2)
    m = MedianAbsoluteDeviation() if dflt else MedianAbsoluteDeviation(absolute=absolute, b=b)
    if dflt:
        absolute, b = True, 1.4826
    kind = case.pick(KINDS)
    x = w.series(case, case.int(1, 60), kind)
    case.describe(absolute=absolute, b=b, kind=kind, n=len(x))
    devs = []
    for i in range(len(x)):
        m.fit_partial(np.array([x[i]]), case.pick([None, 0, 1]))
        med = np.median(x[:i + 1])
        devs.append(abs(x[i] - med))
        if i > 3 and case.flip(0.4):
            continue
        mad_ = np.median(devs)
        for v in [x[i], x[case.int(0, i)], case.rng.randn() * 20, med]:
            want = (v - med) / (b * mad_ + 1e-10)
            want = abs(want) if absolute else want
            # an error of one ulp in x - med is magnified by the scale
            tol = 64 * np.finfo(float).eps * (abs(v) + abs(med)) / (b * mad_ + 1e-10)
            case.close(_score(case, m, v), want, "not (x - median)/(b*mad + 1e-10)", rtol=1e-9, atol=1e-12 + tol, step=i, v=v)
            case.see("scores")
        case.state(i, absolute, b, round(float(med), 6), round(float(mad_), 6))


def sad(case):
    from pysad.models import StandardAbsoluteDeviation
    absolute, sub = case.flip(), case.pick(["mean", "median"])
    dflt = case.flip(0.2)
    m = StandardAbsoluteDeviation() if dflt else StandardAbsoluteDeviation(substracted_statistic=sub, absolute=absolute)
    if dflt:
        absolute, sub = True, "mean"
    kind = case.pick(["walk", "season", "spikes", "lattice", "normal", "dups", "shift", "ints"])
    x = case.rng.randint(-20, 21, case.int(1, 60)).astype(float) if kind == "ints" else w.series(case, case.int(1, 60), kind)
    case.describe(absolute=absolute, sub=sub, kind=kind, n=len(x))
    for i in range(len(x)):
        m.fit_partial(np.array([x[i]]), case.pick([None, 0, 1]))
        if i > 3 and case.flip(0.4):
            continue
        h = x[:i + 1]
        c = np.mean(h) if sub == "mean" else np.median(h)
        s = np.std(h)
        # a variance obtained from running sums is known to eps*sum-of-squares only
        evar = 64 * np.finfo(float).eps * (np.mean(h ** 2) + 1e-300)
        if s ** 2 < 1e6 * evar:
            continue
        for v in [x[i], x[case.int(0, i)], case.rng.randn() * 20, c]:
            want = (v - c) / (s + 1e-10)
            want = abs(want) if absolute else want
            rel = evar / s ** 2
            tol = 64 * np.finfo(float).eps * (abs(v) + np.mean(np.abs(h))) / s
            case.close(_score(case, m, v), want, "not (x - centre)/(std + 1e-10)", rtol=1e-9 + rel, atol=1e-12 + tol, step=i, v=v, sub=sub)
            case.see("scores")
        case.state(i, absolute, sub, round(float(c), 6), round(float(s), 6))


def constant(case):
    """no spread: the value itself scores 0, anything else is finite, huge and has the right sign"""
    from pysad.models import MedianAbsoluteDeviation, StandardAbsoluteDeviation
    v = float(case.int(-50, 50))
    absolute = case.flip()
    mk = case.pick([lambda: MedianAbsoluteDeviation(absolute=absolute), lambda: StandardAbsoluteDeviation("mean", absolute),
                    lambda: StandardAbsoluteDeviation("median", absolute)])
    m = mk()
    n = case.int(1, 40)
    case.describe(v=v, n=n, model=type(m).__name__, absolute=absolute)
    for i in range(n):
        m.fit_partial(np.array([v]))
        case.close(_score(case, m, v), 0.0, "the only value ever seen does not score 0", atol=1e-9)
        d = case.pick([-1.0, 1.0]) * case.int(1, 9)
        want = d / 1e-10
        case.close(_score(case, m, v + d), abs(want) if absolute else want, "deviation over 1e-10 expected", rtol=1e-6)
        case.see("scores", 2)
    case.state(v, n, type(m).__name__, absolute)


def bad_statistic(case):
    from pysad.models import StandardAbsoluteDeviation
    bad = case.pick(["max", "", "Mean", "mode", "std"])
    try:
        StandardAbsoluteDeviation(substracted_statistic=bad)
        ok = False
    except ValueError:
        ok = True
    case.check(ok, "unknown statistic accepted", value=bad)
    case.state(bad)


def long_histories(case):
    """hundreds to thousands of values whose level and scale change for good"""
    from pysad.models import MedianAbsoluteDeviation, StandardAbsoluteDeviation
    n = case.pick([600, 1100, 2100, 3000])
    cut = case.int(50, n // 2)
    r = case.rng
    x = np.concatenate([r.randn(cut) * case.pick([0.1, 30.0]) + case.pick([0, 40]), r.randn(n - cut) * case.pick([0.5, 5.0]) + case.pick([0, 0, 3e4, -1e6])])
    which = case.index % 3
    mk = [lambda: MedianAbsoluteDeviation(absolute=False), lambda: StandardAbsoluteDeviation("mean", False),
          lambda: StandardAbsoluteDeviation("median", False)][which]
    m = mk()
    reads = set(r.randint(cut, n, 5).tolist()) | {n - 1}
    case.describe(model=which, n=n, cut=cut)
    devs = []
    for i in range(n):
        m.fit_partial(np.array([x[i]]))
        if which == 0:
            devs.append(abs(x[i] - np.median(x[:i + 1])))
        if i not in reads:
            continue
        h = x[:i + 1]
        if which == 0:
            c, s = np.median(h), 1.4826 * np.median(devs)
        else:
            c, s = (np.mean(h) if which == 1 else np.median(h)), np.std(h)
        for v in (x[i], x[0], c + s, c - 7.0):
            case.close(_score(case, m, v), (v - c) / (s + 1e-10), "not (x - location)/(scale + 1e-10) of the whole history", rtol=1e-7, atol=1e-7, step=i, v=v)
            case.see("scores")
        case.state(which, n, i, round(float(s), 6))


CHECK = Check(
    "C18", "exploration",
    "A case fits a univariate series value by value and compares the scores of seen, unseen and central values after many prefixes with an "
    "independent batch evaluation of the formula. Distinct non-trivial: distinct (prefix length, configuration, location, scale).",
    [Family(mad, 160, 2400), Family(sad, 160, 2400), Family(constant, 60, 600), Family(bad_statistic, 5, 5), Family(long_histories, 24, 240)],
    ["tolerances scale with the rounding error of running sums (eps times the sum of squares); prefixes whose variance is below that are skipped for the standard deviation model"])
