"""C31: baseline models and local outlier probabilities."""
import numpy as np

from .. import workloads as w
from ..common import Check, Family


def null(case):
    from pysad.models import NullModel
    m = NullModel()
    d = case.int(1, 6)
    X = w.matrix(case, 20, d)
    case.describe(d=d)
    for i in range(20):
        op = case.pick(["score", "fit", "fit_score", "batch"])
        if op == "fit":
            case.check(m.fit_partial(X[i], case.pick([None, 0, 1])) is m, "fit_partial does not return the model")
        elif op == "score":
            case.eq(m.score_partial(X[i]), 0.5, "null score is not 0.5")
        elif op == "fit_score":
            case.eq(m.fit_score_partial(X[i]), 0.5, "null score is not 0.5")
        else:
            case.eq(m.score(X[:i + 1]), np.full(i + 1, 0.5), "null scores are not 0.5")
        case.see(op)
        case.state(op, d, i)


def perfect(case):
    """a queue monitor: labels come out in order, exactly once each"""
    from pysad.models import PerfectModel
    m = PerfectModel()
    pool = case.pick([[0, 1], [0, 1], [-1.5, 2.25, 0.0, 7], [0, 0, 0, 1], [float(k) for k in range(50)]])
    queue = []
    deepest = 0
    case.describe(pool=pool[:5])
    for i in range(case.int(10, 80) if case.flip(0.9) else 3000):
        y = case.pick(pool)
        y = case.pick([y, np.float64(y), np.int64(y)]) if y == int(y) else y
        op = case.pick(["fit", "fit", "score", "fit_score", "none"])
        if op == "fit":
            case.check(m.fit_partial(case.rng.randn(2), y) is m, "fit_partial does not return the model")
            queue.append(y)
        elif op == "score" and queue:
            case.eq(float(m.score_partial(case.rng.randn(2))), float(queue.pop(0)), "label out of order, lost or repeated", step=i)
        elif op == "fit_score":
            queue.append(y)
            case.eq(float(m.fit_score_partial(case.rng.randn(2), y)), float(queue.pop(0)), "label out of order, lost or repeated", step=i)
        elif op == "none":
            try:
                m.fit_partial(case.rng.randn(2), None)
            except ValueError:
                case.check(True, "")
            else:
                case.fail("a missing label is accepted")
        case.see(op)
        deepest = max(deepest, len(queue))
        case.state(len(queue), op)
    n = case.int(1, 20)
    Y = np.array([case.pick(pool) for _ in range(n)])
    got = PerfectModel().fit_score(case.rng.randn(n, 2), Y)
    case.eq(np.asarray(got, dtype=float), Y.astype(float), "fit_score does not return the labels")
    m2 = PerfectModel()
    m2.fit(case.rng.randn(n, 2), Y)
    case.eq(np.asarray(m2.score(case.rng.randn(n, 2)), dtype=float), Y.astype(float), "fit then score does not return the labels in order")


def rand(case):
    """independent and uniform: moments, bins, serial correlation, independence of the input"""
    from pysad.models import RandomModel
    m = RandomModel()
    n = 4000
    d = case.int(1, 4)
    x = case.rng.randn(d)
    mode = case.pick(["same", "varied", "fit_score"])
    case.describe(mode=mode, d=d)
    case.reseed("draw")
    if mode == "same":
        s = np.array([float(m.score_partial(x)) for _ in range(n)])
    elif mode == "varied":
        X = case.rng.randn(n, d) * 100
        s = np.asarray(m.score(X), dtype=float)
    else:
        s = np.array([float(m.fit_score_partial(x * i)) for i in range(n)])
    case.check(bool(np.all((s >= 0) & (s < 1))), "random score outside [0, 1)", lo=s.min(), hi=s.max())
    se = 1 / np.sqrt(12 * n)
    case.check(abs(s.mean() - 0.5) < 6.5 * se, "random scores are not centred", mean=s.mean())
    h = np.histogram(s, bins=20, range=(0, 1))[0]
    chi = float(((h - n / 20) ** 2 / (n / 20)).sum())
    case.check(chi < 19 + 8 * np.sqrt(38), "random scores are not uniform", chi2=chi)
    case.check(s.min() < 0.01 and s.max() > 0.99, "random scores do not reach the ends of [0, 1)")
    for lag in (1, 2, 7):
        c = float(np.mean((s[lag:] - 0.5) * (s[:-lag] - 0.5)) * 12)
        case.check(abs(c) < 6.5 / np.sqrt(n), "random scores are serially correlated", lag=lag, corr=c)
    case.check(len(np.unique(s)) > n - 5, "random scores repeat")
    # another input with the same generator state gives the same draws
    case.reseed("twin")
    a = [float(m.score_partial(x)) for _ in range(5)]
    case.reseed("twin")
    m2 = RandomModel()
    b = [float(m2.score_partial(x * 7 + 3)) for _ in range(5)]
    case.eq(a, b, "the input influences the random score")
    case.see("scores", n)
    case.state(mode, d, round(s.mean(), 9))


def loop(case):
    from PyNomaly import loop as pn
    from pysad.models import LocalOutlierProbability
    d = case.int(1, 5)
    n0 = case.int(12, 60)
    init = w.matrix(case, n0, d, case.pick(["normal", "uniform", "heavy", "offset", "shift"]))
    k, ext = case.int(2, min(11, n0 - 1)), case.int(1, 3)
    args = dict(num_neighbors=k, extent=ext)
    if n0 > 10 and case.flip(0.2):
        args.pop("num_neighbors")
        k = 10
    if case.flip(0.3):
        args.pop("extent")
        ext = 3
    case.describe(args=args, n0=n0, d=d, init=init)
    m = LocalOutlierProbability(init.copy(), **args)
    ref = pn.LocalOutlierProbability(init.copy(), extent=ext, n_neighbors=k).fit()
    P = np.vstack([init[case.rng.randint(n0, size=3)], init.mean(0) + 3 * init.std(0) * case.rng.randn(4, d), init.mean(0) + 100 * init.std(0) * np.ones(d)])
    first = [case.scalar(m.score_partial(p.copy())) for p in P]
    for p, s in zip(P, first):
        case.check(0.0 <= s <= 1.0, "local outlier probability outside [0, 1]", score=s, p=p)
        case.close(s, float(ref.stream(p.copy())), "score differs from PyNomaly's on the same initial data", rtol=1e-9, p=p)
        case.see("scores")
    for i in range(case.int(1, 15)):
        m.fit_partial(P[case.int(0, len(P) - 1)].copy() + case.rng.randn(d) * case.pick([0, 1, 50]))
        j = case.int(0, len(P) - 1)
        case.close(case.scalar(m.score_partial(P[j].copy())), first[j], "fitting changed the score", rtol=1e-9)
        j = case.int(0, len(P) - 1)
        case.close(case.scalar(m.fit_score_partial(P[j].copy())), first[j], "fitting changed the score", rtol=1e-9)
        case.see("scores after fits", 2)
    case.state(n0, d, k, ext, tuple(round(s, 6) for s in first))


CHECK = Check("C31", "exploration",
              "distinct = distinct (queue depth, operation) pairs, random-score samples and (initial data, neighbours, extent, scores) configurations judged",
              [Family(null, 10, 60), Family(perfect, 60, 1500), Family(rand, 12, 120), Family(loop, 60, 1200)],
              ["randomness is judged at 6.5 standard errors on seeded, hence deterministic, draws"])
