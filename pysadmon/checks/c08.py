"""C08: ensemblers against their combination rule."""
import itertools
from functools import lru_cache

import numpy as np

from ..common import Check, Family
from .. import workloads as w

NAMES = w.ENS_NAMES


@lru_cache(None)
def partitions(n, k):
    """all partitions of range(n) into k unordered blocks of equal size"""
    size = n // k

    def rec(rest):
        if not rest:
            yield ()
            return
        f, others = rest[0], rest[1:]
        for c in itertools.combinations(others, size - 1):
            blk = (f,) + c
            left = tuple(x for x in others if x not in c)
            for r in rec(left):
                yield (blk,) + r
    return list(rec(tuple(range(n))))


def scores_of(case, n, nd):
    r = case.rng
    kind = case.pick(["normal", "ties", "neg", "mixed", "const", "big", "int"])
    X = {"normal": lambda: r.randn(n, nd), "ties": lambda: r.randint(0, 2, (n, nd)).astype(float),
         "neg": lambda: -r.rand(n, nd), "mixed": lambda: r.randn(n, nd) * 10.0 ** r.randint(-3, 4, (n, nd)),
         "const": lambda: np.full((n, nd), 2.5), "big": lambda: r.randn(n, nd) * 1e8,
         "int": lambda: r.randint(-50, 50, (n, nd)).astype(float)}[kind]()
    return X, kind


def allowed(name, row, k):
    """set of admissible values for the bucket ensemblers"""
    n = len(row)
    vals = []
    for part in partitions(n, k):
        b = [row[list(p)] for p in part]
        vals.append(np.mean([x.max() for x in b]) if name.startswith("AverageOf") else np.max([x.mean() for x in b]))
    return np.array(vals)


def combine(case):
    from pysad.transform import ensemble as en
    name = NAMES[case.index % 5]
    n = case.int(1, 12)
    k, per = case.int(2, 4), case.int(1, 4)
    if k * per > 9:
        k, per = 2, 3
    bucket = name in NAMES[3:]
    nd = k * per if bucket else case.int(1, 9)
    X, kind = scores_of(case, n, nd)
    Xl = w.layout(case, X)
    wts = None
    if name == "AverageScoreEnsembler":
        if nd > 1 and case.flip():
            wts = case.rng.randint(1, 6, size=(1, nd)).astype(float)
            if case.flip(0.5):
                wts[0, case.rng.permutation(nd)[:case.int(1, nd - 1)]] = 0.0
        e = en.AverageScoreEnsembler(estimator_weights=wts) if wts is not None else en.AverageScoreEnsembler()
    elif bucket:
        e = getattr(en, name)(n_buckets=k, method="static")
    else:
        e = getattr(en, name)()
    case.describe(ensembler=name, n=n, detectors=nd, buckets=k if bucket else None, scores=kind, weights=wts)
    how = case.pick(["partial", "batch", "fit_batch", "fit_partial"])
    if how == "partial":
        outs = [e.transform_partial(Xl[i]) for i in range(n)]
    elif how == "fit_partial":
        outs = []
        for i in range(n):
            case.check(e.fit_partial(Xl[i]) is e, "fit_partial does not return the ensembler")
            outs.append(e.transform_partial(Xl[i]))
    elif how == "batch":
        outs = e.transform(Xl)
    else:
        outs = e.fit_transform(Xl)
    case.eq(len(outs), n, "one combined score per instance")
    for i in range(n):
        g = case.scalar(outs[i])
        row = X[i]
        scale = 1e-12 * (1 + np.abs(row).sum())
        case.see("combined")
        if name == "AverageScoreEnsembler":
            want = np.mean(row) if wts is None else float((row * wts[0]).sum() / wts[0].sum())
            case.check(abs(g - want) <= scale, "not the (weighted) mean of the instance's scores", got=g, want=want, row=row)
        elif name == "MaximumScoreEnsembler":
            case.check(g == row.max(), "not the maximum of the instance's scores", got=g, row=row)
        elif name == "MedianScoreEnsembler":
            case.check(abs(g - np.median(row)) <= scale, "not the median of the instance's scores", got=g, row=row)
        else:
            vals = allowed(name, row, k)
            case.check(np.min(np.abs(vals - g)) <= scale, "not the rule's value for any equal-size bucketing", got=g, row=row, buckets=k)
            if len(set(np.round(vals, 9))) > 1:
                case.see("bucketing_matters")
        case.state(name, nd, k if bucket else 0, kind, how, round(g, 6))


def larger_ensembles(case):
    """bucket ensemblers with many detectors: bounds that hold for every equal-size bucketing, and two-valued rows"""
    from pysad.transform import ensemble as en
    name = NAMES[3 + case.index % 2]
    k, per = case.int(2, 6), case.int(2, 6)
    nd = k * per
    e = getattr(en, name)(n_buckets=k) if k != 5 else getattr(en, name)()
    X, kind = scores_of(case, 5, nd)
    X[4] = 0.0
    X[4, case.int(0, nd - 1)] = 1.0       # a single positive score: both rules give exactly 1/k resp. 1/per
    case.describe(ensembler=name, detectors=nd, buckets=k, scores=kind)
    outs = e.fit_transform(X)
    for i in range(5):
        row, g = np.sort(X[i]), case.scalar(outs[i])
        scale = 1e-12 * (1 + np.abs(row).sum())
        if name.startswith("AverageOf"):
            # mean of bucket maxima: extremes over bucketings
            lo = np.mean(row[per - 1::per])
            hi = np.mean(row[-k:])
        else:
            lo, hi = np.mean(row), np.mean(row[-per:])
        case.check(lo - scale <= g <= hi + scale, "outside the range of the rule over all bucketings", got=g, lo=lo, hi=hi, row=row)
        case.state(name, k, per, kind, round(g, 6))
    want = 1.0 / k if name.startswith("AverageOf") else 1.0 / per
    case.close(outs[4], want, "single non-zero score", rtol=1e-12)


def wide(case):
    """hundreds of detectors and instances"""
    from pysad.transform import ensemble as en
    name = NAMES[case.index % 3]
    nd, n = case.pick([40, 130, 300, 1100]), case.pick([1, 60, 300])
    X, kind = scores_of(case, n, nd)
    wts = (case.rng.rand(1, nd) + 0.01) * (case.rng.rand(1, nd) < case.pick([1.0, 0.5])) if name == "AverageScoreEnsembler" and case.flip() else None
    e = en.AverageScoreEnsembler(wts) if wts is not None else getattr(en, name)()
    out = np.asarray(e.transform(X), dtype=float)
    want = {"AverageScoreEnsembler": lambda: X.mean(1) if wts is None else (X * wts[0]).sum(1) / wts[0].sum(), "MaximumScoreEnsembler": lambda: X.max(1),
            "MedianScoreEnsembler": lambda: np.median(X, axis=1)}[name]()
    case.describe(ensembler=name, detectors=nd, n=n, scores=kind, weighted=wts is not None)
    case.close(out, want, "not the rule's combination of the instance's scores", rtol=1e-11, atol=1e-12 * (1 + np.abs(X).sum(1).max()))
    case.state(name, nd, n, kind, wts is not None)


def dynamic_buckets(case):
    from pysad.transform import ensemble as en
    name = NAMES[3 + case.index % 2]
    nd = case.int(6, 14)
    k = case.int(2, 3)
    X, kind = scores_of(case, 4, nd)
    X[3] = 1.25
    e = getattr(en, name)(n_buckets=k, method="dynamic", bootstrap_estimators=case.flip())
    case.describe(ensembler=name, detectors=nd, buckets=k, scores=kind, dynamic=True)
    outs = e.fit_transform(X)
    for i in range(4):
        g = case.scalar(outs[i])
        s = 1e-12 * (1 + np.abs(X[i]).sum())
        case.check(X[i].min() - s <= g <= X[i].max() + s, "combined score outside the range of the scores", got=g, row=X[i])
        case.state(name, nd, k, kind)


def stateless(case):
    """the combination of an instance does not depend on the instances before it"""
    from pysad.transform import ensemble as en
    name = NAMES[case.index % 3]
    nd = case.int(2, 8)
    w8 = None
    if name == "AverageScoreEnsembler" and case.flip():
        w8 = case.rng.rand(1, nd) + 0.1
    mk = (lambda: en.AverageScoreEnsembler(w8)) if w8 is not None else getattr(en, name)
    X, kind = scores_of(case, 20, nd)
    row = case.rng.randn(nd)
    fresh = case.scalar(mk().transform_partial(row))
    used = mk()
    case.describe(ensembler=name, detectors=nd, scores=kind)
    for i in range(20):
        case.pick([used.transform_partial, used.fit_transform_partial, used.fit_partial])(X[i])
        g = case.scalar(used.transform_partial(row))
        case.check(g == fresh, "result depends on earlier instances", got=g, want=fresh, after=i + 1)
        case.see("compared")
    case.state(name, nd, kind, round(fresh, 6))


CHECK = Check(
    "C08", "exploration",
    "A case combines a random score matrix with one ensembler through per-instance or batch calls and compares each result with the "
    "rule (for bucket ensemblers: with the set of values over all partitions into equally sized buckets, or its bounds). Distinct "
    "non-trivial: distinct (ensembler, detectors, buckets, score kind, call, value) observations.",
    [Family(combine, 1200, 15000), Family(larger_ensembles, 200, 2000), Family(dynamic_buckets, 100, 1500), Family(stateless, 150, 2000), Family(wide, 40, 400)],
    ["static bucketing requires n_buckets to divide the number of detectors (PyOD's own requirement)"])
