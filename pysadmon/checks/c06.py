"""C06: postprocessors against the aggregate of the fitted (retained) scores."""
import numpy as np

from ..common import Check, Family
from . import c04

NAMES = ["AveragePostprocessor", "MaxPostprocessor", "MedianPostprocessor", "ZScorePostprocessor",
         "RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor", "RunningZScorePostprocessor"]
BASE = {"Average": "AverageMeter", "Max": "MaxMeter", "Median": "MedianMeter", "ZScore": None}


def drive(case, n, read_p):
    from pysad.transform import postprocessing as po
    name = NAMES[case.index % 8]
    running = name.startswith("Running")
    short = name.replace("Running", "").replace("Postprocessor", "")
    W = case.pick([1, 2, 3, 5, 8, 20, 50, 400]) if running else None
    p = getattr(po, name)(window_size=W) if running else getattr(po, name)()
    kind = case.pick(c04.KINDS)
    pool = [case.pick([0.1, 1 / 3.0, 0.7, 5])]
    case.describe(postprocessor=name, W=W, n=n, values=kind)
    hist, s1, s2 = [], 0.0, 0.0
    for k in range(n):
        v = c04.value(case, kind, pool)
        hist.append(v)
        s1, s2 = s1 + 2 * abs(float(v)), s2 + 2 * float(v) ** 2
        op = case.pick(["fit", "fit_transform", "fit+transform", "fit+probe"])
        got, arg = None, v
        if op == "fit_transform":
            got = p.fit_transform_partial(v)
        else:
            case.check(p.fit_partial(v) is p, "fit_partial does not return the postprocessor")
            if op == "fit+transform":
                got = p.transform_partial(v)
            elif op == "fit+probe" or (k == n - 1):
                arg = c04.value(case, kind, pool)
                if case.flip(0.15):     # far outside the fitted scores
                    arg = float(arg) + case.pick([-1, 1]) * 10.0 ** case.int(0, 12) * (1 + abs(float(v)))
                got = p.transform_partial(arg)
        case.see(op)
        if got is None:
            continue
        ret = hist[-W:] if running else hist
        m = len(ret)
        if short == "ZScore":
            mean, var = c04.reference("AverageMeter", ret), c04.reference("VarianceMeter", ret)
            vtol = c04.tolerance("VarianceMeter", m, s1, s2, 2 * k)
            mtol = c04.tolerance("AverageMeter", m, s1, s2, 2 * k)
            if var <= 1e4 * vtol:      # undefined or numerically undecidable
                case.see("zero_deviation_skipped")
                continue
            g = case.scalar(got)
            want = (float(arg) - mean) / np.sqrt(var)
            tol = mtol / np.sqrt(var) + abs(want) * (vtol / var) + 1e-12 * (1 + abs(want))
        else:
            g = case.scalar(got)
            want = c04.reference(BASE[short], ret)
            tol = c04.tolerance(BASE[short], m, s1, s2, 2 * k)
        case.check(abs(g - want) <= tol, "%s: output is not the aggregate of the retained scores" % name,
                   got=g, want=want, tol=tol, step=k, arg=arg, retained=ret)
        if m > 1:
            case.state(name, W, kind, k, round(g, 6))
        if case.rng.rand() < 0.2:   # transforming other values changes nothing
            for _ in range(3):
                p.transform_partial(c04.value(case, kind, pool))
            case.check(case.scalar(p.transform_partial(arg)) == g, "transforming changes later outputs")


def histories(case):
    drive(case, case.int(1, 80), 1.0)


def long_histories(case):
    drive(case, 1000, 0.1)


def drift(case):
    """thousands of scores whose level and scale change, so that forgetting or keeping too much shows"""
    from pysad.transform import postprocessing as po
    name = NAMES[case.index % 8]
    running = name.startswith("Running")
    short = name.replace("Running", "").replace("Postprocessor", "")
    n = case.pick([1200, 2600, 5200])
    W = case.pick([70, 300, 700, 1000, 1100, 2000, 2500]) if running else None
    p = getattr(po, name)(window_size=W) if running else getattr(po, name)()
    v = c04.drifting(case, n)
    reads = set(case.rng.randint(2, n, 6).tolist()) | {n - 1}
    case.describe(postprocessor=name, W=W, n=n)
    s1, s2 = float(np.abs(v).sum()) * 2, float((v * v).sum()) * 2
    for k in range(n):
        if k not in reads:
            p.fit_partial(float(v[k]))
            continue
        g = case.scalar(p.fit_transform_partial(float(v[k])))
        ret = v[max(0, k + 1 - W):k + 1] if running else v[:k + 1]
        if short == "ZScore":
            mean, var = c04.reference("AverageMeter", ret), c04.reference("VarianceMeter", ret)
            vtol, mtol = c04.tolerance("VarianceMeter", len(ret), s1, s2, 2 * k), c04.tolerance("AverageMeter", len(ret), s1, s2, 2 * k)
            if var <= 1e4 * vtol:
                continue
            want = (v[k] - mean) / np.sqrt(var)
            tol = mtol / np.sqrt(var) + abs(want) * (vtol / var) + 1e-12 * (1 + abs(want))
        else:
            want, tol = c04.reference(BASE[short], ret), c04.tolerance(BASE[short], len(ret), s1, s2, 2 * k)
        case.check(abs(g - want) <= tol, "%s: output is not the aggregate of the retained scores" % name, got=g, want=want, tol=tol, step=k)
        case.state(name, W, n, k, round(g, 6))
    case.see("fit", n)


CHECK = Check(
    "C06", "exploration",
    "A case fits one postprocessor with a random score sequence, mixing fit_partial, transform_partial (of the same and of other "
    "scores) and fit_transform_partial, and compares every output with the aggregate of the recorded (last W) scores. Distinct "
    "non-trivial: distinct (postprocessor, W, values, position, output) with at least two retained scores.",
    [Family(histories, 1600, 24000), Family(long_histories, 40, 400), Family(drift, 64, 480)],
    ["Z-scores are decided only where the retained scores' variance is positive beyond rounding"])
