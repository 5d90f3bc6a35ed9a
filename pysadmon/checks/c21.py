"""C21: xStream scores reflect bin counts of the reference window."""
import math

import numpy as np

from ..common import Check, Family
from .. import workloads as w


def counted(stream, W):
    """instances that the counts refer to after fitting `stream`"""
    n = len(stream)
    return stream if n < W else stream[(n // W - 1) * W:(n // W) * W]


def make(case, **kw):
    from pysad.models import xStream
    c = dict(num_components=case.int(1, 12), n_chains=case.int(1, 6), depth=case.int(1, 8), window_size=case.int(1, 10))
    c.update(kw)
    return c, xStream(**c)


def score(case, m, x):
    return case.scalar(m.score_partial(x))


def copies(case):
    """windows of identical instances: the score of that instance is known exactly"""
    c, m = make(case)
    W = c["window_size"]
    d = case.int(1, 6)
    P = w.matrix(case, case.int(1, 4), d, case.pick(["normal", "lattice", "heavy", "offset"]))
    case.describe(cfg=c, d=d)
    last = None
    if case.flip(0.1):
        c, m = make(case, window_size=case.pick([30, 120, 300]), n_chains=2, depth=case.pick([4, 25]))
        W = c["window_size"]
        case.describe(cfg=c)
    for win in range(case.int(1, 5) if W < 20 else 2):
        p = P[case.int(0, len(P) - 1)]
        for i in range(W):
            m.fit_partial(p)
            if win == 0:
                case.close(score(case, m, p), -(math.log2(2 + i) + 1), "first window: not the counts so far", rtol=1e-9, fitted=i + 1)
            elif i < W - 1:
                case.close(score(case, m, last), -(math.log2(1 + W) + 1), "not the counts of the last complete window", rtol=1e-9, window=win, i=i)
            case.see("scores")
        case.close(score(case, m, p), -(math.log2(1 + W) + 1), "not the counts of the complete window", rtol=1e-9, window=win)
        last = p
        case.state(c, d, win)


def bounds(case):
    """arbitrary streams: range, multiplicity bound, and -1 for instances that share no bin"""
    from pysad.transform.projection import StreamhashProjector
    c, m = make(case)
    W = c["window_size"]
    d = case.int(1, 6)
    X = w.matrix(case, case.int(1, 45), d, case.pick(["normal", "lattice", "dups", "uniform", "sparse", "binary"]))
    off = float(case.pick([0, 0, 0, 1e7, 3e9, -6e10]))
    X = X + off
    proj = StreamhashProjector(c["num_components"])
    case.describe(cfg=c, d=d, n=len(X), origin=off)
    for i in range(len(X)):
        m.fit_partial(X[i])
        ref = np.array(counted(list(X[:i + 1]), W))
        n = len(ref)
        for x in [ref[case.int(0, n - 1)], X[case.int(0, len(X) - 1)], case.rng.randn(d) + off]:
            s = score(case, m, x)
            k = int(np.sum(np.all(ref == x, axis=1)))
            case.check(-(math.log2(1 + n) + 1) - 1e-9 <= s <= -1 + 1e-9, "score outside its range", s=s, n=n, step=i)
            case.check(s <= -(math.log2(1 + k) + 1) + 1e-9, "score above the bound of an instance present k times", s=s, k=k, step=i)
            case.see("scores")
        far = (case.rng.randn(d) + 2) * case.pick([1e4, 1e4, 1e11]) + off
        pr = np.array([proj.transform_partial(z) for z in ref])
        pf = proj.transform_partial(far)
        half = (pr.max(0) - pr.min(0)) / 2
        if np.all(np.abs(pr - pf).min(0) > 50 + 10 * half):
            case.close(score(case, m, far), -1.0, "an instance sharing no bin does not score -1", rtol=1e-9, step=i)
            case.see("far instances")
        case.state(c, d, i, round(s, 6))


def refine(intervals, breaks, ok):
    """parts of the intervals on which ok(midpoint) holds, cut at the break points"""
    out = []
    for a, b in intervals:
        cuts = [a] + sorted(t for t in breaks if a < t < b) + [b]
        for l, r in zip(cuts[:-1], cuts[1:]):
            if r - l < 1e-12 or ok((l + r) / 2):
                out.append((l, r))
    return out


def chain_score(u, z, ref, delta, depth):
    best = -np.inf
    for k in range(1, depth + 1):
        f = 2.0 ** (k - 1)
        b = math.floor(f * z / delta + u)
        cnt = int(np.sum(np.floor(f * ref / delta + u) == b))
        best = max(best, -(math.log2(1 + cnt) + k))
    return best


def one_chain(case):
    """one chain over one projected feature: some shift u of its halving bins must explain every score observed"""
    from pysad.transform.projection import StreamhashProjector
    c, m = make(case, num_components=1, n_chains=1, depth=case.int(1, 5))
    W, depth = c["window_size"], c["depth"]
    proj = StreamhashProjector(1)
    d = case.int(1, 6)
    scale = float(case.pick([0.3, 1.0, 5.0, 3e-3]))
    X = w.matrix(case, case.int(2, 30), d, case.pick(["normal", "uniform", "dups"])) * scale + case.pick([0, 0, 7])
    Z = np.array([proj.transform_partial(x)[0] for x in X])
    case.describe(cfg=c, d=d, n=len(X), projected=Z)
    feas = [(0.0, 1.0)]
    for i in range(len(X)):
        m.fit_partial(X[i])
        ref = np.array(counted(list(Z[:i + 1]), W))
        if i + 1 < W:
            delta = 0.5
        else:
            delta = (ref.max() - ref.min()) / 2
            if abs(delta) <= 1e-4:
                delta = 1.0
        for x in (X[case.int(0, len(X) - 1)], case.rng.randn(d) * scale):
            z = float(proj.transform_partial(x)[0])
            s = score(case, m, x)
            breaks = set()
            for k in range(depth):
                f = 2.0 ** k
                for v in list(ref) + [z]:
                    t = (-f * v / delta) % 1.0
                    breaks.update((t - 1e-9, t + 1e-9))
            feas = refine(feas, breaks, lambda u: abs(chain_score(u, z, ref, delta, depth) - s) < 1e-9)
            case.check(len(feas) > 0, "no placement of the bins explains the scores", step=i, score=s, x=x)
            case.see("scores")
    case.see("shift range left (1e-6)", int(sum(b - a for a, b in feas) * 1e6))
    case.state(c, d, len(X), [round(a, 4) for a, _ in feas[:3]])


def break_points(values, depth):
    """fractions of u at which some bin index at some depth changes"""
    out = set()
    for k in range(depth):
        for v in values:
            t = (-(2.0 ** k) * v) % 1.0
            out.update((t - 1e-9, t + 1e-9))
    return sorted(t for t in out if 0 < t < 1)


def two_score(fs, u, z, ref, delta, depth):
    """published chain over two features: depth k bins feature fs[k] at twice its previous resolution, the other one as before"""
    used = [0, 0]
    same = [np.ones(len(ref), dtype=bool)] * 2
    best = -np.inf
    for k in range(depth):
        f = fs[k]
        used[f] += 1
        q = 2.0 ** (used[f] - 1) / delta[f]
        same[f] = np.floor(q * ref[:, f] + u[f]) == math.floor(q * z[f] + u[f])
        best = max(best, -(math.log2(1 + int((same[0] & same[1]).sum())) + k + 1))
    return best


def two_features(case):
    """one chain over two projected features of possibly very different range: some choice of features and shifts explains every score"""
    from pysad.transform.projection import StreamhashProjector
    import itertools
    depth = case.int(1, 3)
    c, m = make(case, num_components=2, n_chains=1, depth=depth, window_size=case.int(2, 6))
    W = c["window_size"]
    proj = StreamhashProjector(2)
    d = case.int(3, 8)
    R = np.array([proj.transform_partial(e) for e in np.eye(d)])
    if np.linalg.matrix_rank(R) < 2:
        from ..common import Skip
        raise Skip()
    back = np.linalg.pinv(R)
    scales = np.array([case.pick([1.0, 1.0, 30.0, 1e-2, 2e-3]), case.pick([1.0, 10.0, 1e-2])])
    n = case.int(W, 4 * W)
    want = case.rng.randn(n, 2) * scales
    if case.flip(0.3):
        want = want[case.rng.randint(0, max(1, n // 3), n)]
    X = want @ back
    Z = np.array([proj.transform_partial(x) for x in X])
    case.describe(cfg=c, d=d, n=n, scales=scales, projected=Z)
    hyp = {fs: [((0.0, 1.0), (0.0, 1.0))] for fs in itertools.product((0, 1), repeat=depth)}
    for i in range(n):
        m.fit_partial(X[i])
        ref = np.array(counted(list(Z[:i + 1]), W))
        if i + 1 < W:
            delta = np.array([0.5, 0.5])
        else:
            delta = (ref.max(0) - ref.min(0)) / 2
            delta[np.abs(delta) <= 1e-4] = 1.0
            if np.any(np.abs(delta - 1e-4) < 1e-8):
                return
        if i + 1 < W and case.flip(0.5):
            continue
        x = X[case.int(0, i)] + (0 if case.flip(0.4) else (case.rng.randn(2) * scales * 0.3) @ back)
        z = proj.transform_partial(x)
        s = score(case, m, x)
        case.see("scores")
        cuts = [break_points([v[f] / delta[f] for v in list(ref) + [z]], depth) for f in (0, 1)]
        left = {}
        for fs, boxes in hyp.items():
            keep = []
            for (a0, b0), (a1, b1) in boxes:
                e0 = [a0] + [t for t in cuts[0] if a0 < t < b0] + [b0]
                e1 = [a1] + [t for t in cuts[1] if a1 < t < b1] + [b1]
                if 1 not in fs:
                    e1 = [a1, b1]
                if 0 not in fs:
                    e0 = [a0, b0]
                for l0, r0 in zip(e0[:-1], e0[1:]):
                    for l1, r1 in zip(e1[:-1], e1[1:]):
                        if r0 - l0 < 1e-8 or r1 - l1 < 1e-8:
                            # a sliver around a bin edge: never excluded, kept only if it is not already one
                            keep.append(((l0, r0), (l1, r1)))
                        elif abs(two_score(fs, ((l0 + r0) / 2, (l1 + r1) / 2), z, ref, delta, depth) - s) < 1e-9:
                            keep.append(((l0, r0), (l1, r1)))
            if keep:
                left[fs] = keep
        hyp = left
        real = sum(b0 - a0 >= 1e-8 and b1 - a1 >= 1e-8 for boxes in hyp.values() for (a0, b0), (a1, b1) in boxes)
        case.check(real > 0, "no choice of features and shifts explains the scores", step=i, score=s, x=x)
        if sum(len(b) for b in hyp.values()) > 6000:
            hyp = {fs: [q for q in b if q[0][1] - q[0][0] >= 1e-8 and q[1][1] - q[1][0] >= 1e-8] for fs, b in hyp.items()}
    case.see("hypotheses left", len(hyp))
    case.state(c, d, n, tuple(scales), sorted(hyp)[:4])


def chains_average(case):
    """every chain contributes: with many chains the score of a nearby instance lies strictly between the extremes"""
    c, m = make(case, num_components=1, n_chains=60, depth=1, window_size=case.int(2, 6))
    W = c["window_size"]
    from pysad.transform.projection import StreamhashProjector
    x0 = np.array([1.0, 1.0, 1.0])
    proj = StreamhashProjector(1)
    r = proj.transform_partial(np.eye(3)[0])[0], proj.transform_partial(np.eye(3)[1])[0], proj.transform_partial(np.eye(3)[2])[0]
    j = int(np.argmax(np.abs(r)))
    if abs(r[j]) < 1e-9:
        case.check(abs(score(case, m, x0)) >= 1 - 1e-9, "score outside its range")
        return
    for _ in range(W):
        m.fit_partial(x0)
    # identical instances: bin width 1 (degenerate range); a probe half a bin away shares the bin in about half of the chains
    x = x0.copy()
    x[j] += 0.5 / abs(r[j])
    s = score(case, m, x)
    full = -(math.log2(1 + W) + 1)
    k = (s + 1) / (full + 1) * 60
    case.describe(W=W, chains_sharing=k)
    case.check(abs(k - round(k)) < 1e-6, "score is not an average over 60 chains", s=s, k=k)
    case.check(5 <= k <= 55, "chains are not shifted independently", k=k)
    case.state(W, round(k))


def long_windows(case):
    """one chain over one projected feature with windows of tens to hundreds of instances, read now and then"""
    from pysad.transform.projection import StreamhashProjector
    c, m = make(case, num_components=1, n_chains=1, depth=case.int(1, 9), window_size=case.pick([25, 60, 150, 400]))
    W, depth = c["window_size"], c["depth"]
    proj = StreamhashProjector(1)
    d = case.int(1, 4)
    n = W + case.int(0, W + W // 2)
    X = case.rng.randn(n, d) * case.pick([0.01, 1.0, 20.0])
    if case.flip(0.5):
        X = np.round(X, 1) if X.max() > 1 else X
    X[:W // 2] += case.pick([0, 0, 3])
    Z = np.array([proj.transform_partial(x)[0] for x in X])
    case.describe(cfg=c, d=d, n=n)
    feas = [(0.0, 1.0)]
    reads = set(case.rng.randint(0, n, 4).tolist()) | {n - 1, W - 1, W - 2}
    for i in range(n):
        m.fit_partial(X[i])
        if i not in reads:
            continue
        ref = np.array(counted(list(Z[:i + 1]), W))
        delta = 0.5
        if i + 1 >= W:
            delta = (ref.max() - ref.min()) / 2
            if abs(abs(delta) - 1e-4) < 1e-8:
                return
            delta = 1.0 if abs(delta) <= 1e-4 else delta
        for x in (X[case.int(0, n - 1)], X[i], X[case.int(0, n - 1)] * 0.7):
            z = float(proj.transform_partial(x)[0])
            s = score(case, m, x)
            feas = refine(feas, break_points(np.append(ref, z) / delta, depth), lambda u: abs(chain_score(u, z, ref, delta, depth) - s) < 1e-9)
            feas = [(a, b) for a, b in feas if b - a > 1e-8] or feas
            case.check(any(b - a > 1e-10 for a, b in feas), "no placement of the bins explains the scores", step=i, score=s, x=x)
            feas = merge(feas)
            case.see("scores")
    case.state(c, d, n, [round(a, 4) for a, _ in feas[:3]])


def merge(feas):
    out = []
    for a, b in feas:
        if out and a - out[-1][1] < 1e-12:
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


CHECK = Check(
    "C21", "exploration",
    "A case fits a stream and compares, after every instance, scores with what bin counts of the last complete window allow: exact values "
    "for windows of copies, the range and the multiplicity bound and exactly -1 without a shared bin for arbitrary streams, and for a single "
    "chain over one projected feature a feasibility monitor that keeps the set of all bin shifts explaining every score so far. Distinct "
    "non-trivial: distinct (configuration, step, score).",
    [Family(copies, 120, 1500), Family(bounds, 120, 1500), Family(one_chain, 120, 1500), Family(two_features, 100, 1200), Family(chains_average, 12, 100), Family(long_windows, 24, 240)],
    ["bins are the published halving bins; projections are taken from the public streamhash projector (C27)"])
