"""C15: objects of the library do not influence each other."""
import copy
import gc

import numpy as np

from ..common import Check, Family, in_fork
from .. import drivers as dr
from .. import workloads as w

NAMES = [n for n in dr.ALL if n not in ("Inqmad", "IForestASD")] + ["Inqmad", "IForestASD"]
RICH = ["HalfSpaceTrees", "xStream", "RSHash", "StreamhashProjector", "KitNet", "LODA", "RobustRandomCutForest", "ExactStorm", "KNNCAD",
        "RelativeEntropy", "SeasonalESD", "ReferenceWindowModel", "ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator",
        "RunningStatistic", "Window", "UnlimitedWindow", "MedianAbsoluteDeviation", "PerfectModel", "AUROCMetric", "WindowedMetric",
        "MedianMeter", "SeasonalTrendDecomposer", "ModifiedSTLResidualTransformer", "SparseRandomProjector", "GaussianRandomProjector",
        "AverageScoreEnsembler", "LocalOutlierProbability", "OneFitModel"]


class Track:
    """the life of one object as a list of operations, each with its own random seed"""

    def __init__(self, case, tag, d):
        self.case, self.tag, self.d = case, tag, d
        self.pos, self.obj, self.out = 0, None, []
        self.ops = [("ctor",)]
        for i in range(d.n):
            if d.name == "PerfectModel":
                self.ops.append(("fit_read", i))
                continue
            self.ops.append(("fit_read", i) if case.flip(0.3) and i + 1 >= d.warm else ("fit", i))
            if i + 1 >= d.warm and case.flip(0.6):
                self.ops.append(("read", case.int(0, len(d.probes) - 1)))

    def reset(self):
        self.pos, self.obj, self.out = 0, None, []

    def step(self):
        op = self.ops[self.pos]
        self.case.reseed((self.tag, self.pos))
        self.pos += 1
        if op[0] == "ctor":
            self.obj = self.d.ctor()
        elif op[0] == "fit":
            self.d.fit(self.obj, op[1])
        elif op[0] == "fit_read":
            self.out.append(self.d.fit_read(self.obj, op[1]))
        else:
            self.out.append(self.d.read(self.obj, op[1]))

    @property
    def done(self):
        return self.pos >= len(self.ops)

    def solo(self):
        self.reset()
        while not self.done:
            self.step()
        return np.concatenate(self.out) if self.out else np.zeros(0)


def run_interleaved(case, tracks, schedule, churn):
    for t in tracks:
        t.reset()
    for k, who in enumerate(schedule):
        if churn and k % 5 == 0:
            # create, use and discard unrelated objects of the same classes
            d = churn[k // 5 % len(churn)]
            o = d.ctor()
            d.fit(o, 0)
            d.fit(o, min(1, d.n - 1))
            del o
            if k % 50 == 0:
                gc.collect()
        tracks[who].step()
    return [np.concatenate(t.out) if t.out else np.zeros(0) for t in tracks]


def judge(case, names, ds=None):
    n = {"KNNCAD": 110, "Inqmad": 5, "IForestASD": 10}
    ds = ds or [dr.driver(case, nm, n=n.get(nm, 18)) for nm in names]
    tracks = [Track(case, i, d) for i, d in enumerate(ds)]
    churn = [dr.driver(case, nm, n=3) for nm in names] if case.flip(0.5) else []
    churn = [d for d in churn if d.name not in ("Inqmad", "IForestASD")]
    left = [len(t.ops) for t in tracks]
    schedule = []
    style = case.pick(["random", "random", "roundrobin", "nested", "bursts"])
    if style == "nested":            # one object lives entirely inside the other's life
        cut = case.int(1, left[0] - 1)
        schedule = [0] * cut + [j for j in range(1, len(tracks)) for _ in range(left[j])] + [0] * (left[0] - cut)
    else:
        pos = 0
        while sum(left):
            alive = [j for j, v in enumerate(left) if v]
            j = alive[pos % len(alive)] if style == "roundrobin" else alive[case.rng.randint(len(alive))]
            pos += 1
            for _ in range(min(left[j], case.int(1, 6) if style == "bursts" else 1)):
                schedule.append(j)
                left[j] -= 1
    case.describe(components=names, cfgs=[d.cfg for d in ds], style=style, churn=len(churn), steps=len(schedule))
    solo = [in_fork(t.solo) for t in tracks]
    together = in_fork(lambda: run_interleaved(case, tracks, schedule, churn))
    for nm, d, a, b in zip(names, ds, solo, together):
        case.close(b, a, "outputs differ from the object used alone", rtol=max(d.rtol, 1e-9), atol=1e-9, component=nm)
        case.see("outputs compared", a.size)
    case.see("operations interleaved", len(schedule))
    case.state(names, style, len(churn) > 0, [np.round(a[-2:], 6) for a in solo])


def same_class(case):
    nm = RICH[case.index % len(RICH)] if case.index % 2 else NAMES[(case.index // 2) % len(NAMES)]
    judge(case, [nm] * case.pick([2, 2, 3]))


def twins(case):
    """identically configured objects of one class with different streams"""
    more = ["HalfSpaceTrees"] * 5 + ["KitNet"] * 4
    nm = (RICH + more)[case.index % (len(RICH) + len(more))]
    d = dr.driver(case, nm, n={"KNNCAD": 110, "SeasonalESD": 24}.get(nm, 18))
    if nm == "KitNet" and case.flip(0.7):                # wide autoencoders
        for _ in range(60):
            if d.X.shape[1] > 8 and d.cfg["max_size_ae"] > 8:
                break
            d = dr.driver(case, nm)
    if nm == "HalfSpaceTrees" and case.flip(0.7):        # features without a range make nodes indistinguishable
        for _ in range(60):
            if min(d.cfg["ranges"]) == 0 and d.cfg["max_depth"] > 1:
                break
            d = dr.driver(case, nm, n=18)
    ds = [d]
    for _ in range(case.pick([1, 1, 2])):
        e = copy.copy(d)
        if nm not in ("PerfectModel", "AUROCMetric", "WindowedMetric"):
            perm = case.rng.permutation(d.n)
            e.X = d.X[perm] if isinstance(d.X, np.ndarray) else [d.X[int(i)] for i in perm]
            if d.y is not None:
                e.y = d.y[perm] if isinstance(d.y, np.ndarray) else [d.y[int(i)] for i in perm]
        ds.append(e)
    judge(case, [nm] * len(ds), ds)


CONFIGURABLE = ["ModifiedSTLResidualTransformer", "SeasonalESD", "SeasonalHybridESD", "StreamhashProjector", "InstanceUnitNormScaler",
                "SeasonalTrendDecomposer", "ExactStorm", "MedianAbsoluteDeviation", "StandardAbsoluteDeviation", "RelativeEntropy",
                "LocalOutlierProbability", "KNNCAD", "ConformalProbabilityCalibrator", "GaussianTailProbabilityCalibrator",
                "RunningMedianPostprocessor", "RunningZScorePostprocessor", "KitNet", "HalfSpaceTrees", "xStream", "LODA", "RSHash",
                "AverageScoreEnsembler", "RunningStatistic", "Window", "ReferenceWindowModel", "OneFitModel", "RobustRandomCutForest",
                "AbsStatistic", "WindowedMetric", "ModifiedSTLResidualTransformer", "SeasonalESD", "SeasonalHybridESD"]


def same_stream(case):
    """differently configured objects of one class that see the very same instances at the same time"""
    nm = CONFIGURABLE[case.index % len(CONFIGURABLE)]
    n = {"KNNCAD": 110}.get(nm, 22)
    ds = [dr.driver(case, nm, n=n)]
    for _ in range(60):
        d = dr.driver(case, nm, n=n)
        if np.shape(d.X) == np.shape(ds[0].X) and np.shape(d.probes)[1:] == np.shape(ds[0].probes)[1:]:
            d.X, d.probes, d.y = ds[0].X, ds[0].probes, ds[0].y
            ds.append(d)
            if len(ds) == 3:
                break
    tracks = [Track(case, i, d) for i, d in enumerate(ds)]
    for t in tracks:                         # one plan for all, executed in lockstep
        t.ops = list(tracks[0].ops)
    schedule = []
    for _ in range(len(tracks[0].ops)):
        schedule += [int(j) for j in case.rng.permutation(len(tracks))]
    case.describe(component=nm, cfgs=[d.cfg for d in ds], steps=len(schedule))
    solo = [in_fork(t.solo) for t in tracks]
    together = in_fork(lambda: run_interleaved(case, tracks, schedule, []))
    for d, a, b in zip(ds, solo, together):
        case.close(b, a, "outputs differ from the object used alone", rtol=max(d.rtol, 1e-9), atol=1e-9, component=nm, cfg=d.cfg)
        case.see("outputs compared", a.size)
    case.state(nm, len(ds), [np.round(a[-2:], 6) for a in solo])


def mixed_classes(case):
    cheap = NAMES[:-2]
    judge(case, [case.pick(cheap) for _ in range(case.int(2, 4))])


def configuration(case):
    """differently configured objects of one class: each one keeps its own configuration"""
    from pysad.transform.projection import StreamhashProjector, GaussianRandomProjector, SparseRandomProjector
    from pysad.statistics import RunningStatistic, MaxMeter, MinMeter, AverageMeter
    from pysad.utils import Window
    from pysad.evaluation import WindowedMetric, PrecisionMetric, RecallMetric
    from pysad.transform.postprocessing import RunningMaxPostprocessor
    from pysad.transform.preprocessing import InstanceUnitNormScaler, SeasonalTrendDecomposer
    r = case.rng
    X = r.randn(14, 4)
    kind = case.pick(["hash", "unit", "window", "running", "post", "metric", "decomp"])
    mk = {"hash": lambda: (StreamhashProjector, dict(num_components=case.int(1, 5), density=float(case.pick([0.2, 1 / 3, 0.7, 1.0])))),
          "unit": lambda: (InstanceUnitNormScaler, dict(pow=case.pick([1, 2, 3]))),
          "window": lambda: (Window, dict(window_size=case.int(1, 7))),
          "running": lambda: (RunningStatistic, dict(statistic_cls=case.pick([MaxMeter, MinMeter, AverageMeter]), window_size=case.int(1, 7))),
          "post": lambda: (RunningMaxPostprocessor, dict(window_size=case.int(1, 7))),
          "metric": lambda: (WindowedMetric, dict(metric_cls=case.pick([PrecisionMetric, RecallMetric]), window_size=case.int(1, 5))),
          "decomp": lambda: (SeasonalTrendDecomposer, dict(season_length=case.int(1, 4), trend_window=case.int(1, 5)))}[kind]
    specs = [mk() for _ in range(case.int(2, 4))]

    def use(o, i):
        if kind in ("hash", "unit", "decomp"):
            return o.fit_transform_partial(X[i])
        if kind == "post":
            return o.fit_transform_partial(X[i, 0])
        if kind == "metric":
            o.update(i % 2, int(X[i, 0] > 0) if i > 1 else 1)
            return o.get() if i > 1 else 0.0
        o.update(float(X[i, 1]))
        return o.get() if kind == "running" else list(o.get())

    def alone(c, kw):
        o = c(**kw)
        return [np.asarray(use(o, i), dtype=float).reshape(-1) for i in range(14)]

    def together():
        objs = [c(**kw) for c, kw in specs]
        res = [[] for _ in objs]
        for i in range(14):
            for j in np.random.RandomState(i).permutation(len(objs)):
                res[j].append(np.asarray(use(objs[j], i), dtype=float).reshape(-1))
        return res
    case.describe(kind=kind, specs=[str(s) for s in specs])
    want = [in_fork(lambda s=s: alone(*s)) for s in specs]
    got = in_fork(together)
    for s, a, b in zip(specs, want, got):
        for i in range(14):
            case.close(b[i], a[i], "another object's configuration leaks", rtol=1e-12, spec=str(s), instance=i)
    case.state(kind, [sorted((k, str(v)) for k, v in kw.items()) for _, kw in specs])


CHECK = Check(
    "C15", "exploration",
    "A case plans the lives of 2-4 objects (same class and configuration, same class with different configurations, or different "
    "classes), runs each alone in a pristine forked process and all of them interleaved in another (random, round-robin, nested and "
    "bursty schedules, optionally creating and discarding further objects in between), with both random generators reset before every "
    "operation, and compares all outputs. Distinct non-trivial: distinct (components, schedule style, outputs).",
    [Family(same_class, 200, 2400), Family(twins, 190, 2000), Family(same_stream, 128, 1500), Family(mixed_classes, 100, 1200), Family(configuration, 60, 700)],
    ["random draws are compensated by resetting the shared global generators before each operation"])
