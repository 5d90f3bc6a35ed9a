"""C33: scores reflect the whole retained history, not only the latest instance."""
import numpy as np

from .. import workloads as w
from ..common import Check, Family

MODELS = ["ExactStorm", "HalfSpaceTrees", "IForestASD", "KitNet", "KNNCAD", "MedianAbsoluteDeviation", "StandardAbsoluteDeviation",
          "RelativeEntropy", "RobustRandomCutForest", "RSHash", "SeasonalESD", "SeasonalHybridESD", "xStream", "ReferenceWindowModel",
          "LODA", "Inqmad"]


def setup(case, name):
    """(constructor, number of fits, slice of instances that the model retains, width, tail of instances both histories share,
    scored as the last fitted instance?)"""
    from pysad import models as pm
    from pysad.models.integrations import ReferenceWindowModel
    d = case.int(1, 4)
    n = case.int(12, 30)
    if name == "ExactStorm":
        W = case.int(6, n + 5)
        return (lambda: pm.ExactStorm(window_size=W, max_radius=1.0)), n, (max(0, n - W), n - 1), d, False
    if name == "HalfSpaceTrees":
        W = case.int(4, n)
        k = n // W
        c = dict(window_size=W, num_trees=8, max_depth=5)
        return (lambda: pm.HalfSpaceTrees(-np.ones(d) * 8, np.ones(d) * 8, **c)), n, ((k - 1) * W, k * W if k * W < n else n - 1), d, False
    if name == "IForestASD":
        W = case.int(8, 12)
        return (lambda: pm.IForestASD(window_size=W, n_estimators=10)), W, (0, W - 1), d, False
    if name == "KitNet":
        d = case.int(2, 4)
        return (lambda: pm.KitNet(grace_feature_mapping=6, grace_anomaly_detector=10)), 17, (7, 16), d, False
    if name == "KNNCAD":
        P = case.int(48, 60)
        return (lambda: pm.KNNCAD(P)), P + 25, (0, P - 1), 1, True
    if name in ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation"):
        return getattr(pm, name), n, (0, n - 1), 1, False
    if name == "RelativeEntropy":
        W = case.int(6, 12)
        return (lambda: pm.RelativeEntropy(-8, 8, 4, W)), 2 * W, (0, W), 1, True
    if name == "RobustRandomCutForest":
        c = dict(num_trees=4, tree_size=case.int(5, 20))
        return (lambda: pm.RobustRandomCutForest(**c)), n, (max(0, n - c["tree_size"]), n - 1), d, False
    if name == "RSHash":
        return (lambda: pm.RSHash(-np.ones(d) * 8, np.ones(d) * 8, num_components=10)), n, (0, n - 1), d, True
    if name in ("SeasonalESD", "SeasonalHybridESD"):
        per = case.int(3, 5)
        W = per * 10
        return (lambda: getattr(pm, name)(per, W, 3)), W, (1, W - 1), 1, False
    if name == "xStream":
        # the reference window is the last complete window
        W = case.int(4, 8)
        n = W * case.int(1, 3) + case.int(0, W - 1)
        c = dict(num_components=10, n_chains=10, depth=6, window_size=W)
        k = n // W
        return (lambda: pm.xStream(**c)), n, ((k - 1) * W, k * W if k * W < n else n - 1), d, False
    if name == "ReferenceWindowModel":
        W = case.int(5, 9)
        n = W
        return (lambda: ReferenceWindowModel(w.MeanDetector, W, W)), n, (0, n - 1), d, False
    if name == "LODA":
        return (lambda: pm.LODA(num_bins=7, num_random_cuts=10)), n, (0, n - 1), d, False
    if name == "Inqmad":
        return (lambda: pm.Inqmad(d, 32, 0.5, 3)), 6, (0, 5), d, False
    raise ValueError(name)


def twins(case):
    name = MODELS[case.index % len(MODELS)]
    ctor, n, (lo, hi), d, last = setup(case, name)
    r = case.rng
    if name == "KNNCAD":
        A = np.sin(np.arange(n) / 3.0)[:, None] + 0.1 * r.randn(n, 1)
        B = A.copy()
        B[lo:hi] = 0.3 * r.randn(hi - lo, 1) + case.pick([-3, 3])
    elif name.startswith("Seasonal"):
        A = 0.2 * r.randn(n, 1)
        B = A.copy()
        B[lo:hi] = 6 * r.randn(hi - lo, 1)  # a spike stands out of A, not out of B
    else:
        a, b = r.uniform(1, 5, d), -r.uniform(1, 5, d)
        if name == "RelativeEntropy":
            a, b = np.array([5.0]), np.array([-5.0])
        A = a + (0.01 if name == "RSHash" else 0.5) * r.randn(n, d)
        A = np.clip(A, -7.9, 7.9)
        B = A.copy()
        B[lo:hi] = np.clip(b + 0.7 * r.randn(hi - lo, d), -7.9, 7.9)
    if name.startswith("Seasonal"):
        extra = [np.array([v]) for v in (20.0, -20.0, 12.0, -12.0)]
    else:
        extra = []
    case.describe(model=name, n=n, retained=(lo, hi), A=A, B=B)
    probes = [A[-1], A[lo], B[lo], (A[lo] + B[lo]) / 2, A[lo] + 3, B[lo] - 3] + [np.clip(6 * r.randn(d), -7.9, 7.9) for _ in range(4)] + extra

    def run(X):
        case.reseed("build")
        m = ctor()
        out = []
        for i, x in enumerate(X):
            m.fit_partial(x.copy())
            case.see("fits")
            if last and i >= hi:  # the instances that both histories share
                out.append(case.scalar(m.score_partial(x.copy())))
        if last:
            return out
        for p in probes:
            case.reseed("probe")
            out.append(case.scalar(m.score_partial(p.copy())))
        return out

    case.eq(A[-1], B[-1], "the twin histories do not end alike")
    sa, sa2, sb = run(A), run(A), run(B)
    case.close(sa2, sa, "%s: the same history scores differently" % name, rtol=1e-5, key=name + "-unrepeatable")
    same = np.allclose(sa, sb, rtol=1e-5, atol=1e-9)
    case.check(not same, "%s: histories that differ in %d retained instances score every probe alike" % (name, hi - lo), key=name, scores=sa)
    case.see("pairs:" + name)
    case.state(name, n, lo, hi, [round(v, 6) for v in sa[:3]])


def runs(case):
    """histories of the same instances in other multiplicities, arriving in long runs of identical instances"""
    from pysad import models as pm
    from pysad.models.integrations import ReferenceWindowModel
    name = RUNS[case.index % len(RUNS)]
    r = case.rng
    d = 1 if "Deviation" in name else case.int(1, 4)
    P, Q = r.uniform(2, 5, d), -r.uniform(2, 5, d)
    a = case.int(3, 9)
    b = case.int(3, 9)
    b += 3 if b == a else 0
    if case.flip(0.5):          # long runs
        a, b = case.rng.permutation([case.pick([20, 40, 90]), case.pick([140, 270])]).tolist()
        if name in ("RobustRandomCutForest", "RSHash"):
            a, b = a // 2, b // 2
    n = a + b
    box = np.ones(d) * 8
    ctor = {"ExactStorm": lambda: pm.ExactStorm(window_size=n + 1, max_radius=1.0),
            "HalfSpaceTrees": lambda: pm.HalfSpaceTrees(-box, box, window_size=n, num_trees=20, max_depth=5),
            "RobustRandomCutForest": lambda: pm.RobustRandomCutForest(num_trees=4, tree_size=n + 1),
            "xStream": lambda: pm.xStream(num_components=20, n_chains=20, depth=6, window_size=n),
            "RSHash": lambda: pm.RSHash(-box, box, num_components=10),
            "StandardAbsoluteDeviation": pm.StandardAbsoluteDeviation,
            "ReferenceWindowModel": lambda: ReferenceWindowModel(w.MeanDetector, n, n)}[name]
    # ExactStorm leaves the newest instance out, so that its histories carry one more
    tail = [P] if name in ("ExactStorm", "RobustRandomCutForest") else [P, Q] if name == "RSHash" else []
    case.describe(model=name, P=P, Q=Q, counts=(a, b), tail=len(tail))

    def run(k, l):
        case.reseed("build")
        m = ctor()
        for x in [P] * k + [Q] * l:
            m.fit_partial(x.copy())
        out = []
        for x in tail:
            m.fit_partial(x.copy())
            if name == "RSHash":
                out.append(case.scalar(m.score_partial(x.copy())))
        if not out:
            for p in (P, Q, P + 2, Q - 2, np.zeros(d)):
                case.reseed("probe")
                out.append(case.scalar(m.score_partial(p.copy())))
        return out
    sa, sb = run(a, b), run(b, a)
    case.check(not np.allclose(sa, sb, rtol=1e-7, atol=1e-9), "%s: the multiplicities of the retained instances make no difference" % name,
               key=name, scores=sa)
    case.see("pairs:" + name)
    # every further repetition counts too
    if name in ("ExactStorm", "RobustRandomCutForest"):
        sc = run(a, b + 1)
        case.check(not np.allclose(sa, sc, rtol=1e-7, atol=1e-9), "%s: one more repetition makes no difference" % name, key=name, scores=sa)
    case.state(name, a, b, [round(v, 6) for v in sa])


RUNS = ["ExactStorm", "HalfSpaceTrees", "RobustRandomCutForest", "xStream", "RSHash", "StandardAbsoluteDeviation", "ReferenceWindowModel"]


CHECK = Check("C33", "exploration",
              "distinct = distinct (model, history length, retained range, scores) twin histories told apart by the monitor",
              [Family(twins, 16 * 12, 16 * 200), Family(runs, 7 * 12, 7 * 200)],
              ["the two histories differ in all retained instances but the last; the exact dependence is decided per model in C18-C26"])
