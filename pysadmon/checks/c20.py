"""C20: Exact-STORM and RS-Hash scores equal their neighbour and sketch counts."""
import itertools
import math

import numpy as np

from ..common import Check, Family
from .. import workloads as w


def storm(case):
    from pysad.models import ExactStorm
    d = case.int(1, 4)
    W = case.int(1, 14)
    kind = case.pick(["lattice", "lattice", "normal", "dups", "heavy"])
    X = w.matrix(case, case.int(1, 50), d, kind)
    if case.flip(0.25):         # runs of identical instances
        X = np.repeat(X, case.rng.randint(1, 6, len(X)), axis=0)[:60]
    radius = float(case.pick([0.5, 1.0, 2.0, 5.0, math.sqrt(2), 1.5]))
    off = float(case.pick([0, 0, 2 ** 20, -2 ** 25, 2 ** 31, 1e9, 2 ** 40])) if kind == "lattice" else 0.0
    X = X + off                    # exact: lattice points are small integers
    m = ExactStorm(window_size=W, max_radius=radius)
    case.describe(W=W, radius=radius, d=d, kind=kind, n=len(X), origin=off)
    for i in range(len(X) + 1):
        held = X[max(0, i - W):i][:-1]
        for x in [X[case.int(0, len(X) - 1)], X[max(0, i - 1)], case.rng.randn(d) * 2 if off == 0 else off + case.rng.randint(-5, 6, d) + 0.25]:
            if len(held) == 0:
                want = [0.0]
            else:
                dist = np.sqrt(np.sum((held - x) ** 2, axis=1))
                near = np.abs(dist - radius) < 1e-9
                if np.any(near) and kind != "lattice":
                    continue
                exact = np.array([sum((a - b) ** 2 for a, b in zip(h, x)) for h in held])
                want = [np.mean(exact < radius ** 2 - 1e-12) if np.any(near) else np.mean(dist < radius)]
                if np.any(near) and radius == math.sqrt(2):
                    continue
            case.close(m.score_partial(x), want[0] if np.ndim(m.score_partial(x)) == 0 else want,
                       "not the fraction of near neighbours in the window", rtol=1e-12, step=i, x=x)
            case.see("scores")
        case.state(W, radius, d, len(held), want[0], i)
        if i < len(X):
            m.fit_partial(X[i])


def storm_default(case):
    """default window of 10000 instances and radius 0.1"""
    from pysad.models import ExactStorm
    m = ExactStorm()
    n = case.int(20, 200)
    X = case.rng.randint(0, 3, size=(n, 1)) * case.pick([0.05, 0.09, 0.11])
    case.describe(n=n)
    for x in X:
        m.fit_partial(x)
    for x in ([0.0], [0.05], [0.3]):
        x = np.array(x)
        want = np.mean(np.abs(X[:-1, 0] - x[0]) < 0.1)
        case.close(m.score_partial(x), want, "default window or radius wrong", rtol=1e-12)
        case.see("scores")
    case.state(n, float(X[0, 0]))


def rs_separated(case):
    """points at least 1 apart in every feature never share a cell (cells are narrower than 1): exact scores"""
    from pysad.models import RSHash
    d = case.int(1, 5)
    decay = float(case.pick([0.015, 0.2, 0.001, 1.0]))
    c = dict(num_components=case.int(1, 10), num_hash_fns=case.int(1, 3), decay=decay, sampling_points=case.pick([1, 10, 1000]))
    k = case.int(1, 5)
    gap = float(case.pick([1.0, 1.0, 1.5, 2.5]))
    base = np.array([(case.rng.permutation(9)[:k] - 4 + case.rng.rand()) * gap for _ in range(d)]).T
    off = float(case.pick([0, 0, 0, 1e6, -3e7, 1.7e9, -4e9, 1e12]))       # large values: time stamps, byte counts
    base = base + off
    lo, hi = np.full(d, off - 20.0), np.full(d, off + 20.0)
    const = case.rng.rand(d) < 0.3
    const[case.int(0, d - 1)] = False
    hi[const] = lo[const]
    n = case.int(1, 40)
    who = case.rng.randint(0, k, n)
    m = RSHash(lo, hi, **c)
    case.describe(cfg=c, d=d, gap=gap, origin=off, locations=k, constant_features=const, n=n)
    times = {}
    for i in range(n):
        x = base[who[i]].copy()
        x[const] = case.rng.randn(int(const.sum())) * 50      # features without range never decide the cell
        m.fit_partial(x)
        cnt = sum(2.0 ** (-decay * (i - t)) for t in times.get(who[i], []))
        times.setdefault(who[i], []).append(i)
        case.close(np.asarray(m.score_partial(x)).reshape(-1), [math.log(1 + cnt)], "not log(1 + decayed count of the cell)", rtol=1e-9, atol=1e-12, step=i)
        case.see("scores")
        case.state(decay, c["num_components"], d, round(cnt, 6))


def rs_mixed(case):
    """points sharing only some features: between the counts of identical points and of points sharing a feature"""
    from pysad.models import RSHash
    d = case.int(2, 5)
    decay = float(case.pick([0.015, 0.3]))
    m = RSHash(np.zeros(d), np.ones(d) * 9, num_components=case.int(1, 12), num_hash_fns=case.int(1, 3), decay=decay)
    X = (case.rng.randint(0, 3, size=(case.int(2, 40), d)) - case.pick([0, 1, 2])) * case.pick([1.0, 3.0])
    case.describe(d=d, decay=decay, n=len(X))
    for i, x in enumerate(X):
        m.fit_partial(x)
        wts = 2.0 ** (-decay * (i - np.arange(i)))
        eq = np.all(X[:i] == x, axis=1)
        some = np.any(X[:i] == x, axis=1)
        s = case.scalar(m.score_partial(x))
        case.check(math.log(1 + wts[eq].sum()) - 1e-9 <= s <= math.log(1 + wts[some].sum()) + 1e-9,
                   "score outside the possible cell counts", step=i, score=s)
        case.see("scores")
        case.state(d, decay, i, round(s, 6))


def rs_grid(case):
    """one component, one feature: the observed counts must come from an equally spaced grid narrower than 1"""
    from pysad.models import RSHash
    decay = 0.137
    m = RSHash(np.zeros(1), np.ones(1), num_components=1, num_hash_fns=case.int(1, 2), decay=decay)
    n = 8
    x = case.rng.rand(n) * case.pick([0.5, 2.0, 5.0])
    x -= case.pick([0.0, 0.5, 1.0, 40.0]) * x.max()
    case.describe(x=x)
    cell = []
    for i in range(n):
        m.fit_partial(np.array([x[i]]))
        c = math.exp(case.scalar(m.score_partial(np.array([x[i]])))) - 1
        wts = [2.0 ** (-decay * (i - t)) for t in range(i)]
        hits = [S for k in range(i + 1) for S in itertools.combinations(range(i), k) if abs(sum(wts[t] for t in S) - c) < 1e-9]
        case.check(len(hits) > 0, "score is not a decayed count of earlier instances", step=i, c=c)
        S = hits[0]
        if len(hits) > 1:
            return
        case.see("cells decoded")
        groups = {cell[t] for t in S}
        case.check(len(groups) <= 1, "instance shares a cell with instances of different cells", step=i, sharing=S, cells=cell)
        g = groups.pop() if groups else i
        if S:
            case.check(sum(1 for v in cell if v == g) == len(S), "instance shares a cell with only part of the cell's instances", step=i, sharing=S, cells=cell)
        cell.append(g)
    # cells are disjoint intervals of one width f < 1: some f explains the grouping
    lim = 1.0 / math.sqrt(max(1000, 1.0 / (1 - 2.0 ** -decay)))
    lo, hi = [], []
    for g in set(cell):
        v = x[[j for j in range(n) if cell[j] == g]]
        lo.append(v.min())
        hi.append(v.max())
    order = np.argsort(lo)
    for a, b in zip(order[:-1], order[1:]):
        case.check(hi[a] < lo[b], "cells overlap", cells=cell)
    case.check(max(h - l for h, l in zip(hi, lo)) < 1 - lim + 1e-9, "cell wider than the largest allowed width", cells=cell)
    ok = False
    for f in np.linspace(lim, 1 - lim, 600):
        # feasible shifts: the grid line positions modulo f must avoid every group's interior
        if any(h - l >= f for h, l in zip(hi, lo)):
            continue
        cand = np.concatenate([np.mod(np.array(lo), f), np.mod(np.array(lo), f) - 1e-7, np.mod(np.array(hi), f) + 1e-7])
        for s in cand:
            idx = np.floor((x - s) / f)
            if all((idx[i] == idx[j]) == (cell[i] == cell[j]) for i in range(n) for j in range(i)):
                ok = True
                break
        if ok:
            break
    if ok:
        case.see("grids recovered")
    case.state(np.round(x, 6), cell)


def rs_features(case):
    """with many components every feature with a range is sampled by some component, a constant one by none"""
    from pysad.models import RSHash
    d = case.int(2, 4)
    lo, hi = np.zeros(d), np.ones(d) * 10
    const = case.int(0, d - 1) if case.flip() else None
    if const is not None:
        hi[const] = lo[const]
    case.describe(d=d, constant=const)
    for j in range(d):
        case.reseed(("feature", j))
        m = RSHash(lo, hi, num_components=120, decay=0.015)
        a = np.full(d, 1.0)
        b = a.copy()
        b[j] += 5.0
        m.fit_partial(a)
        m.fit_partial(b)
        s = case.scalar(m.score_partial(b))
        full = math.log(1 + 2.0 ** -0.015)
        if j == const:
            case.close(s, full, "a feature without range separates instances", rtol=1e-9, feature=j)
        else:
            case.check(-1e-12 <= s < full - 1e-9, "no component looks at this feature", feature=j, score=s)
        case.see("features")
        case.state(d, const, j, round(s, 6))


def storm_long(case):
    """windows of up to thousands of instances"""
    from pysad.models import ExactStorm
    W = case.pick([60, 300, 1100, 2500])
    d = case.int(1, 3)
    n = case.int(W // 2, 2 * W)
    cut = case.int(0, n)
    X = np.concatenate([case.rng.randint(0, 4, (cut, d)), case.rng.randint(2, 9, (n - cut, d))]).astype(float)
    radius = float(case.pick([0.5, 1.5, 2.5]))
    m = ExactStorm(window_size=W, max_radius=radius)
    case.describe(W=W, radius=radius, d=d, n=n, cut=cut)
    reads = set(case.rng.randint(1, n, 5).tolist()) | {n - 1}
    for i in range(n):
        m.fit_partial(X[i])
        if i not in reads:
            continue
        held = X[max(0, i + 1 - W):i + 1][:-1]
        for x in (X[i], X[0], X[case.int(0, n - 1)], X[i] + 0.25):
            dist = np.sqrt(np.sum((held - x) ** 2, axis=1))
            want = np.mean(dist < radius) if len(held) else 0.0
            if np.any(np.abs(dist - radius) < 1e-9):
                continue
            case.close(case.scalar(m.score_partial(x)), want, "not the fraction of near neighbours in the window", rtol=1e-12, step=i, x=x)
            case.see("scores")
            case.state(W, radius, d, i, round(float(want), 9))
    case.check(True, "")


def rs_long(case):
    """thousands of instances and the default number of components: the decayed counts of well separated points"""
    from pysad.models import RSHash
    d = case.int(1, 3)
    decay = float(case.pick([0.015, 0.001, 0.0001, 0.1]))
    c = dict(num_components=case.pick([5, 100]), decay=decay)
    if case.flip():
        c["num_hash_fns"] = case.int(1, 5)
    k = case.int(2, 12)
    base = (case.rng.permutation(40)[:k, None] - case.pick([0, 20])) * np.ones((1, d)) * case.pick([1.5, 40.0])
    n = case.pick([400, 1500, 3000]) if c["num_components"] < 50 else 250
    who = case.rng.randint(0, k, n)
    who[n // 2:] = case.rng.randint(0, max(1, k // 2), n - n // 2)
    who[-3:] = k - 1                  # not seen for a long time
    m = RSHash(base.min(0), base.max(0), **c)
    case.describe(cfg=c, d=d, n=n, locations=k)
    reads = set(case.rng.randint(0, n, 12).tolist()) | {n - 3, n - 2, n - 1}
    for i in range(n):
        m.fit_partial(base[who[i]])
        if i in reads:
            t = np.where(who[:i] == who[i])[0]
            cnt = float(np.sum(2.0 ** (-decay * (i - t))))
            case.close(np.asarray(m.score_partial(base[who[i]])).reshape(-1), [math.log(1 + cnt)], "not log(1 + decayed count of the cell)", rtol=1e-9, atol=1e-12, step=i)
            case.see("scores")
            case.state(decay, c["num_components"], d, i, round(cnt, 6))


CHECK = Check(
    "C20", "exploration",
    "A case fits a stream one by one and compares the score after every instance with an independent neighbour count (Exact-STORM; ties at "
    "the radius on integer lattices included) or decayed cell count (RS-Hash; exact for well separated points, bounded for points sharing "
    "some features, and decoded into cells that must form disjoint intervals for one feature). Distinct non-trivial: distinct "
    "(configuration, window fill, count).",
    [Family(storm, 200, 2400), Family(storm_default, 10, 60), Family(rs_separated, 160, 2000), Family(rs_mixed, 100, 1200), Family(rs_grid, 100, 1000), Family(rs_features, 20, 200), Family(storm_long, 20, 200), Family(rs_long, 24, 240)],
    ["RS-Hash values below about 1e15 (64-bit cell numbers, double precision)"])
