"""C07: calibrated probabilities against their definition."""
import math

import numpy as np
from scipy.stats import norm

from ..common import Check, Family
from . import c04

KINDS = ["int", "ties", "dyadic", "const", "float", "np", "neg", "mixed", "tiny", "huge", "zeros", "npint"]


def gaussian(case):
    from pysad.transform.probability_calibration import GaussianTailProbabilityCalibrator as G
    W = case.pick([1, 2, 3, 5, 10, 40, 500])
    running = case.flip(0.6)
    n = case.pick([1, 2, W, W + 1, case.int(1, 60), case.int(50, 200)])
    kind = case.pick(KINDS)
    pool = [case.pick([0.1, 1 / 3.0, 2])]
    p = G(running_statistics=running, window_size=W) if case.index % 5 else (
        G(window_size=W) if running else G(False, W))
    case.describe(W=W, running=running, n=n, values=kind)
    hist, s1, s2 = [], 0.0, 0.0
    for k in range(n):
        v = c04.value(case, kind, pool)
        hist.append(v)
        s1, s2 = s1 + 2 * abs(float(v)), s2 + 2 * float(v) ** 2
        ret = hist[-W:] if running else hist
        mean, var = c04.reference("AverageMeter", ret), c04.reference("VarianceMeter", ret)
        vtol = c04.tolerance("VarianceMeter", len(ret), s1, s2, 2 * k)
        exact_const = len(set(float(x) for x in ret)) == 1
        if case.flip(0.3):
            outs = [(v, p.fit_transform_partial(v))]
        else:
            case.check(p.fit_partial(v) is p, "fit_partial does not return the calibrator")
            outs = []
        probes = [float(v), mean, mean + 0.5, c04.value(case, kind, pool), mean - 3.7, mean + 60.0, mean - 60.0, 1e300, -1e300]
        outs += [(a, p.transform_partial(a)) for a in probes]
        seq = []
        for a, o in outs:
            g = case.scalar(o)
            case.see("outputs")
            case.check(0.0 <= g <= 1.0, "not a probability", got=g, score=a)
            seq.append((float(a), g))
            if exact_const and var == 0 and kind in ("int", "ties", "dyadic"):
                std = 1.0
            elif var > 1e4 * vtol:
                std = math.sqrt(var)
            else:
                continue           # rounding decides between "zero" and "tiny" variance
            want = float(norm.cdf((float(a) - mean) / std))
            tol = 1e-9 + 0.4 * (c04.tolerance("AverageMeter", len(ret), s1, s2, 2 * k) / std + abs(float(a) - mean) / std * vtol / max(var, 1e-300) * (std != 1.0))
            case.check(abs(g - want) <= min(tol, 1.0) if tol < 1e-3 else True,
                       "not the normal CDF of the standardised score", got=g, want=want, score=a, retained=ret, tol=tol)
            case.state("g", W, running, kind, k, round(g, 6))
        seq.sort()
        case.check(all(x[1] <= y[1] + 1e-12 for x, y in zip(seq, seq[1:])), "not monotone in the score", seq=seq)
        if case.flip(0.1):
            case.check(case.scalar(p.transform_partial(probes[2])) == case.scalar(p.transform_partial(probes[2])), "transforming changes outputs")


def conformal(case):
    from pysad.transform.probability_calibration import ConformalProbabilityCalibrator as C
    W = case.pick([1, 2, 3, 5, 10, 40, 300, 500])
    windowed = case.flip(0.6)
    n = case.pick([1, 2, W, W + 1, case.int(1, 60), case.int(50, 200), 350])
    kind = case.pick(KINDS)
    pool = [case.pick([0.1, 1 / 3.0, 2])]
    p = C(windowed=windowed, window_size=W)
    case.describe(W=W, windowed=windowed, n=n, values=kind)
    hist = []
    read_p = 1.0 if n < 80 else 0.2
    for k in range(n):
        v = c04.value(case, kind, pool)
        hist.append(v)
        ret = np.array([float(x) for x in (hist[-W:] if windowed else hist)])
        outs = []
        if case.flip(0.3):
            outs = [(v, p.fit_transform_partial(v))]
        else:
            case.check(p.fit_partial(v) is p, "fit_partial does not return the calibrator")
        if case.rng.rand() < read_p or k == n - 1:
            probes = [v, c04.value(case, kind, pool), ret.max(), ret.min(), ret.max() + 1, ret.min() - 1, float(np.median(ret))]
            outs += [(a, p.transform_partial(a)) for a in probes]
        seq = []
        for a, o in outs:
            g = case.scalar(o)
            case.see("outputs")
            want = float(np.sum(ret > float(a))) / len(ret)
            case.check(abs(g - want) <= 1e-12, "not the fraction of retained scores that are greater", got=g, want=want, score=a, retained=ret)
            case.check(0.0 <= g <= 1.0, "not a probability", got=g)
            seq.append((float(a), g))
            case.state("c", W, windowed, kind, k, round(g, 6))
        seq.sort()
        case.check(all(x[1] >= y[1] for x, y in zip(seq, seq[1:])), "not monotone in the score", seq=seq)


def defaults(case):
    """default window sizes: windowed with 300 (conformal) and 6400 (gaussian) scores"""
    from pysad.transform import probability_calibration as pc
    r = case.rng
    off = case.int(0, 3)
    if case.index % 2 == 0:
        n = 300 + off + case.int(0, 40)
        v = r.randint(0, 50, size=n).astype(float)
        p = pc.ConformalProbabilityCalibrator()
        for x in v:
            p.fit_partial(x)
        ret = v[-300:]
        for a in range(-1, 51, 5):
            case.close(p.transform_partial(float(a)), float(np.mean(ret > a)), "default conformal calibrator")
            case.state("c", n, a)
    else:
        n = 6400 + case.int(1, 60)
        v = r.randint(-3, 4, size=n).astype(float)
        v[:n - 6400] = 1000.0
        p = pc.GaussianTailProbabilityCalibrator()
        for x in v:
            p.fit_partial(x)
        ret = v[-6400:]
        for a in (-2.0, 0.0, 0.3, 2.0):
            case.close(p.transform_partial(a), float(norm.cdf((a - ret.mean()) / ret.std())), "default Gaussian calibrator", rtol=1e-6)
            case.state("g", n, a)
    case.describe(n=n)


def drift(case):
    """thousands of scores whose level and scale change"""
    from pysad.transform import probability_calibration as pc
    gauss = case.index % 2 == 0
    n = case.pick([1200, 2600, 5200] if gauss else [700, 1500, 3000])
    W = case.pick([70, 300, 1000, 2000])
    windowed = case.flip()
    v = c04.drifting(case, n)
    p = pc.GaussianTailProbabilityCalibrator(running_statistics=windowed, window_size=W) if gauss else \
        pc.ConformalProbabilityCalibrator(windowed=windowed, window_size=W)
    reads = set(case.rng.randint(2, n, 5).tolist()) | {n - 1}
    case.describe(gaussian=gauss, windowed=windowed, W=W, n=n)
    for k in range(n):
        p.fit_partial(float(v[k]))
        if k not in reads:
            continue
        ret = v[max(0, k + 1 - W):k + 1] if windowed else v[:k + 1]
        for a in (float(v[k]), float(ret.mean()), float(ret.mean() + ret.std()), float(ret.min()), float(np.median(ret))):
            g = case.scalar(p.transform_partial(a))
            if not gauss:
                case.close(g, float(np.mean(ret > a)), "not the fraction of retained scores that are greater", rtol=0, step=k)
            elif ret.std() > 0.1:
                case.close(g, float(norm.cdf((a - ret.mean()) / ret.std())), "not the normal CDF of the standardised score", rtol=1e-6, atol=1e-7, step=k)
            case.state(gauss, windowed, W, n, k, round(g, 6))
    case.see("fits", n)


def very_long(case):
    """tens of thousands of scores without a window"""
    from pysad.transform import probability_calibration as pc
    n = case.pick([20000, 45000, 70000, 110000])
    gauss = case.index % 4 == 3
    v = c04.drifting(case, n)
    v[case.int(0, 300)] = 1e5             # an early extreme counts forever
    p = pc.GaussianTailProbabilityCalibrator(running_statistics=False) if gauss else pc.ConformalProbabilityCalibrator(windowed=False)
    case.describe(gaussian=gauss, n=n)
    reads = {n // 3, n - 1}
    for k in range(n):
        p.fit_partial(float(v[k]))
        if k not in reads:
            continue
        ret = v[:k + 1]
        for a in [float(q) for q in np.quantile(ret, [0.01, 0.3, 0.5, 0.9, 0.999])] + [float(ret.max()), float(v[k])]:
            g = case.scalar(p.transform_partial(a))
            if gauss:
                case.close(g, float(norm.cdf((a - ret.mean()) / ret.std())), "not the normal CDF of the standardised score", rtol=1e-6, atol=1e-6, step=k)
            else:
                case.close(g, float(np.mean(ret > a)), "not the fraction of retained scores that are greater", rtol=0, step=k)
            case.state(gauss, n, k, round(g, 6))
    case.see("fits", n)


CHECK = Check(
    "C07", "exploration",
    "A case fits one calibrator with a random score sequence and compares every output (fitted scores, ties, extremes, far probes) "
    "with the definition over the recorded retained scores; range and monotonicity are monitored on every output. Distinct "
    "non-trivial: distinct (calibrator, W, windowed, values, position, probability) observations.",
    [Family(gaussian, 900, 12000), Family(conformal, 900, 12000), Family(defaults, 8, 60), Family(drift, 24, 200), Family(very_long, 8, 48)],
    ["Gaussian outputs are compared where the retained variance is exactly zero or positive beyond rounding"])
