"""C17: windowed components forget everything older than their window."""
import numpy as np

from ..common import Check, Family
from .. import workloads as w


class Sub:
    def __init__(self, ctor, kind, d, prefix, suffix, cfg, lattice=False, rtol=1e-9, atol=1e-12, ctor2=None):
        self.ctor, self.kind, self.d, self.prefix, self.suffix, self.cfg = ctor, kind, d, prefix, suffix, cfg
        self.lattice, self.rtol, self.atol, self.ctor2 = lattice, rtol, atol, ctor2 or ctor


NAMES = ["Window", "RunningStatistic", "RunningAveragePostprocessor", "RunningMaxPostprocessor", "RunningMedianPostprocessor",
         "RunningZScorePostprocessor", "ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator",
         "ModifiedSTLResidualTransformer", "SeasonalESD", "SeasonalHybridESD", "ExactStorm", "HalfSpaceTrees", "xStream",
         "ReferenceWindowModel", "ReferenceWindowModel", "HalfSpaceTrees", "xStream", "IForestASD", "KNNCAD"]
METERS = ["SumMeter", "CountMeter", "AverageMeter", "MaxMeter", "MinMeter", "MedianMeter", "SumSquaresMeter", "VarianceMeter"]


def subject(case, name, big=False):
    from pysad import models as pm, statistics as st
    from pysad.models.integrations import ReferenceWindowModel
    from pysad.transform import preprocessing as pp, postprocessing as po, probability_calibration as pc
    from pysad.utils import Window
    W = case.int(40, 400) if big else case.int(1, 10)
    pre = case.pick([0, 1, 2, W - 1, W, W + 1, case.int(0, 40), 3 * W])
    ex = case.int(0, 6)
    if big and name in NAMES[:7] and case.flip(0.4):
        W, pre, ex = case.pick([700, 1100, 1500, 2600]), case.int(0, 3000), case.int(0, 1)
    d = case.int(1, 4)
    if name == "Window":
        return Sub(lambda: Window(W), "window", 1, pre, W + ex, dict(W=W), True)
    if name == "RunningStatistic":
        b = case.pick(METERS)
        return Sub(lambda: st.RunningStatistic(getattr(st, b), W), "window", 1, pre, W + ex, dict(W=W, meter=b), True)
    if name.startswith("Running"):
        W = max(W, 2)
        return Sub(lambda: getattr(po, name)(window_size=W), "post", 1, pre, W + ex, dict(W=W), True)
    if name == "ConformalProbabilityCalibrator":
        return Sub(lambda: pc.ConformalProbabilityCalibrator(windowed=True, window_size=W), "post", 1, pre, W + ex, dict(W=W), True)
    if name == "GaussianTailProbabilityCalibrator":
        return Sub(lambda: pc.GaussianTailProbabilityCalibrator(running_statistics=True, window_size=W), "post", 1, pre, W + ex, dict(W=W), True)
    per = case.int(2, 4)
    SW = case.int(2 * per, 3 * per + 2)
    if name == "ModifiedSTLResidualTransformer":
        return Sub(lambda: pp.ModifiedSTLResidualTransformer(per, SW), "transformer", 1, pre, SW + ex, dict(period=per, W=SW))
    if name in ("SeasonalESD", "SeasonalHybridESD"):
        c = dict(period=per, window_size=SW, max_anomalies=case.int(1, int(SW * 0.49)), alpha=0.3)
        return Sub(lambda: getattr(pm, name)(**c), "model", 1, pre, SW + ex, c)
    if name == "ExactStorm":
        rad = float(case.pick([0.5, 1.0, 3.0]))
        return Sub(lambda: pm.ExactStorm(W, rad), "model", d, pre, W + ex, dict(W=W, r=rad))
    if name == "HalfSpaceTrees":
        k, t, dep = case.int(0, 5), case.int(1, 4), case.int(1, 5)
        # with an initial window of differing content (as long as the prefixes)
        return Sub(lambda: pm.HalfSpaceTrees(-3 * np.ones(d), 3 * np.ones(d), window_size=W, num_trees=t, max_depth=dep), "model", d, k * W,
                   W * case.int(1, 3), dict(W=W, trees=t, depth=dep))
    if name == "xStream":
        k = case.int(0, 5)
        c = dict(num_components=case.int(1, 6), n_chains=case.int(1, 4), depth=case.int(1, 5), window_size=W)
        return Sub(lambda: pm.xStream(**c), "model", d, k * W, W * case.int(1, 3), c)
    if name == "ReferenceWindowModel":
        W, S = case.int(2, 9), case.int(1, 11)
        i1 = i2 = None
        if case.flip():
            k = case.int(1, 12)
            i1, i2 = case.rng.randn(k, d), case.rng.randn(k, d) * 9
        mk = lambda i: (lambda: ReferenceWindowModel(w.MeanDetector, W, S, initial_window_X=None if i is None else i.copy()))
        return Sub(mk(i1), "model", d, case.int(0, 30), W + S + ex, dict(W=W, S=S, init=i1 is not None), ctor2=mk(i2))
    if name == "IForestASD":
        W = case.int(4, 8)
        return Sub(lambda: pm.IForestASD(window_size=W, n_estimators=3), "model", d, case.int(0, 12), 2 * W + ex, dict(W=W))
    if name == "KNNCAD":
        P = case.int(48, 56)
        return Sub(lambda: pm.KNNCAD(P), "model", 1, case.int(0, 2 * P), 5 * P + ex, dict(P=P))
    raise ValueError(name)


def values(case, n, s, scale, shift):
    if s.lattice:
        return case.rng.randint(-9, 10, size=n).astype(float) * scale + shift
    return case.rng.randn(n, s.d) * scale + shift


def feed(obj, s, x):
    if s.kind == "window":
        obj.update(x)
    else:
        obj.fit_partial(x)


def read(obj, s, p):
    if s.kind == "window":
        v = obj.get()
    elif s.kind == "model":
        v = obj.score_partial(p)
    else:
        v = obj.transform_partial(p)
    return np.array(np.asarray(v), dtype=np.float64).reshape(-1)


BIG = [n for n in NAMES[:14] if n not in ("ModifiedSTLResidualTransformer", "SeasonalESD", "SeasonalHybridESD")]


def forget_long(case):
    """windows of hundreds of instances"""
    forget(case, BIG[case.index % len(BIG)], True)


def forget(case, name=None, big=False):
    name = name or NAMES[case.index % len(NAMES)]
    s = subject(case, name, big)
    scale = case.pick([1, 4, 100])
    A = values(case, s.prefix, s, 1, 0)
    B = values(case, s.prefix, s, scale, case.pick([0, 5, -7]))
    if name == "KNNCAD":
        suffix = values(case, s.suffix, s, 1, 0)
    else:
        suffix = values(case, s.suffix, s, case.pick([1, 1, 2]), 0)
    more = values(case, case.int(0, 2 if big else 8), s, 1, 0)
    probes = np.concatenate([suffix[-3:], values(case, 4, s, 2, 0)])
    if name == "RunningZScorePostprocessor":
        # keep the deviation positive
        suffix = suffix + np.arange(len(suffix)) % 2 * 0.5
        more = more + np.arange(len(more)) % 2 * 0.5 + 0.25
    case.describe(component=name, cfg=s.cfg, prefix=s.prefix, suffix=s.suffix)
    objs, reads_during = [], case.flip()
    for tag, pre, ctor in ((0, A, s.ctor), (1, B, s.ctor2)):
        case.reseed("ctor")
        o = ctor()
        for i, x in enumerate(pre):
            case.reseed(("pre", i))
            feed(o, s, x)
            if reads_during and name not in ("KNNCAD", "RunningZScorePostprocessor") and i % (50 if big else 3) == 2:
                read(o, s, probes[0])
        for i, x in enumerate(suffix):
            case.reseed(("suf", i))
            feed(o, s, x)
        objs.append(o)
    k = 0
    for i in range(len(more) + 1):
        outs = []
        for o in objs:
            vals = []
            for p, x in enumerate(probes):
                case.reseed(("read", i, p))
                vals.append(read(o, s, x))
            outs.append(np.concatenate(vals))
        case.close(outs[1], outs[0], "outputs depend on instances older than the window", rtol=s.rtol, atol=s.atol, component=name, after=i)
        k += 1
        case.state(name, s.cfg, np.round(outs[0][:4], 6))
        if i < len(more):
            for o in objs:
                case.reseed(("more", i))
                feed(o, s, more[i])
    case.see("windows compared", k)


def remembers(case):
    """control monitor: inside the window the older instances do matter (the comparison above is not vacuous)"""
    name = case.pick(["Window", "RunningAveragePostprocessor", "RunningMaxPostprocessor", "ConformalProbabilityCalibrator", "ExactStorm"])
    from pysad import models as pm
    from pysad.transform import postprocessing as po, probability_calibration as pc
    from pysad.utils import Window
    W = case.int(2, 12)
    x = case.rng.randint(0, 5, W).astype(float)
    x[0] = 1000.0                      # oldest instance that is still inside the window
    case.describe(component=name, W=W)
    if name == "Window":
        o = Window(W)
        for v in [3.0] * case.int(0, 9) + list(x):
            o.update(v)
        case.check(list(o.get())[0] == 1000.0, "the oldest instance inside the window was dropped")
    elif name == "ExactStorm":
        o = pm.ExactStorm(W, 0.5)
        for v in [3.0] * case.int(0, 9) + list(x):
            o.fit_partial(np.array([v]))
        case.close(case.scalar(o.score_partial(np.array([1000.0]))), 1.0 / (W - 1), "the oldest instance inside the window was dropped")
    elif name == "ConformalProbabilityCalibrator":
        o = pc.ConformalProbabilityCalibrator(windowed=True, window_size=W)
        for v in [3.0] * case.int(0, 9) + list(x):
            o.fit_partial(v)
        case.close(case.scalar(o.transform_partial(500.0)), 1.0 / W, "the oldest instance inside the window was dropped")
    else:
        o = getattr(po, name)(window_size=W)
        for v in [3.0] * case.int(0, 9) + list(x):
            o.fit_partial(v)
        want = np.mean(x) if "Average" in name else 1000.0
        case.close(case.scalar(o.transform_partial(0.0)), want, "the oldest instance inside the window was dropped")
    case.state(name, W)


CHECK = Check(
    "C17", "exploration",
    "A case feeds two identically configured (and identically seeded) objects different pasts of equal length and then the same instances "
    "filling the window, and compares their outputs on many probes there and while the stream goes on; a control family checks that the "
    "oldest instance still inside the window matters. Distinct non-trivial: distinct (component, configuration, outputs).",
    [Family(forget, 460, 6000), Family(remembers, 60, 600), Family(forget_long, 33, 330)],
    ["both random generators are reset before every call; histories of equal length, whole windows for half-space trees and xStream"])
