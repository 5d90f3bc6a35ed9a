"""C19: half-space trees score the mass profile of the last complete window."""
import itertools

import numpy as np

from ..common import Check, Family


def reference_window(stream, W):
    """instances that mass counts after fitting `stream`"""
    n = len(stream)
    if n < W:
        return stream
    k = n // W
    return stream[(k - 1) * W:k * W]


def path_mass(x, ref, lo, hi, feats, depth):
    """sum over depths of mass*2^depth; feats maps a node (path tuple of 0/1) to its split feature"""
    lo, hi = lo.copy(), hi.copy()
    node = ()
    cur = list(ref)
    total = 0.0
    for k in range(depth + 1):
        total += len(cur) * 2.0 ** k
        if k == depth:
            break
        q = feats(node)
        mid = (hi[q] + lo[q]) / 2.0
        if x[q] > mid:
            cur = [z for z in cur if z[q] > mid]
            lo[q] = mid
            node += (1,)
        else:
            cur = [z for z in cur if not z[q] > mid]
            hi[q] = mid
            node += (0,)
    return total


def make(case, d):
    lo = -case.rng.randint(0, 5, d).astype(float)
    hi = lo + case.rng.choice([1.0, 2.0, 8.0], d)
    n = case.int(1, 60)
    X = lo + (hi - lo) * case.rng.rand(n, d) * case.pick([1.0, 1.3])
    # values exactly on the midpoints are frequent
    onmid = case.rng.rand(n, d) < 0.25
    X[onmid] = (lo + (hi - lo) * case.rng.choice([0.25, 0.5, 0.75, 0.0, 1.0], (n, d)))[onmid]
    return lo, hi, X


def one_feature(case):
    """with one feature every tree is the same known tree: exact scores"""
    from pysad.models import HalfSpaceTrees
    lo, hi, X = make(case, 1)
    W, T, depth = case.int(1, 9), case.int(1, 6), case.int(1, 7)
    k0 = case.pick([0, 0, case.int(1, 3 * W)])
    init = lo + (hi - lo) * case.rng.rand(k0, 1) if k0 else None
    m = HalfSpaceTrees(lo, hi, window_size=W, num_trees=T, max_depth=depth, initial_window_X=init)
    hist = [] if init is None else [z for z in init]
    case.describe(W=W, trees=T, depth=depth, lo=lo, hi=hi, n=len(X), initial=k0)
    for i in range(len(X) + 1):
        ref = reference_window(hist, W)
        for x in [X[case.int(0, len(X) - 1)], lo + (hi - lo) * case.rng.rand(1) * 1.5, (lo + hi) / 2, X[min(i, len(X) - 1)]]:
            want = -T * path_mass(x, ref, lo, hi, lambda node: 0, depth)
            case.close(m.score_partial(x), want, "score is not the mass profile of the last complete window", rtol=1e-12, step=i, x=x)
            case.see("scores")
        case.state(W, T, depth, i % W, len(ref), want)
        if i < len(X):
            m.fit_partial(X[i])
            hist.append(X[i])


def all_nodes(depth):
    return [p for k in range(depth) for p in itertools.product((0, 1), repeat=k)]


def some_tree(case):
    """several features: at any time some fixed choice of split features explains every score ever observed"""
    from pysad.models import HalfSpaceTrees
    d = case.pick([2, 2, 3])
    depth = case.int(1, 3 if d == 2 else 2)
    lo, hi, X = make(case, d)
    X = X[:30]
    W = case.int(1, 9)
    m = HalfSpaceTrees(lo, hi, window_size=W, num_trees=1, max_depth=depth)
    nodes = all_nodes(depth)
    cands = [dict(zip(nodes, f)) for f in itertools.product(range(d), repeat=len(nodes))]
    total = len(cands)
    case.describe(W=W, depth=depth, d=d, lo=lo, hi=hi, n=len(X))
    hist = []
    for i in range(len(X)):
        m.fit_partial(X[i])
        hist.append(X[i])
        ref = reference_window(hist, W)
        for x in [X[case.int(0, len(X) - 1)], lo + (hi - lo) * case.rng.rand(d)]:
            got = case.scalar(m.score_partial(x))
            left = [f for f in cands if abs(-path_mass(x, ref, lo, hi, f.__getitem__, depth) - got) <= 1e-9 * max(1, abs(got))]
            case.check(len(left) > 0, "no half-space tree explains the observed scores", step=i, x=x, got=got, candidates_before=len(cands), total=total)
            cands = left
            case.see("scores")
    case.state(d, depth, W, len(X), len(cands))


def initial_window(case):
    """an initial window is the same as fitting those instances"""
    from pysad.models import HalfSpaceTrees
    d = case.int(1, 4)
    lo, hi, X = make(case, d)
    W, T, depth = case.int(1, 9), case.int(1, 5), case.int(1, 5)
    k = case.int(0, len(X))
    case.describe(W=W, k=k, n=len(X), d=d)
    case.reseed("trees")
    a = HalfSpaceTrees(lo, hi, window_size=W, num_trees=T, max_depth=depth, initial_window_X=X[:k])
    case.reseed("trees")
    b = HalfSpaceTrees(lo, hi, window_size=W, num_trees=T, max_depth=depth)
    for x in X[:k]:
        b.fit_partial(x)
    for i in range(k, len(X) + 1):
        for x in X[:: max(1, len(X) // 6)]:
            case.eq(a.score_partial(x), b.score_partial(x), "initial window differs from fitting it", step=i)
            case.see("scores")
        if i < len(X):
            a.fit_partial(X[i])
            b.fit_partial(X[i])
    case.state(W, T, depth, k, len(X), d)


def profile_bounds(case):
    """any number of features and trees: root mass, additivity over trees, and the range of the profile"""
    from pysad.models import HalfSpaceTrees
    d = case.int(1, 6)
    lo, hi, X = make(case, d)
    W, T, depth = case.int(1, 12), case.int(1, 9), case.int(1, 6)
    m = HalfSpaceTrees(lo, hi, window_size=W, num_trees=T, max_depth=depth)
    hist = []
    case.describe(W=W, trees=T, depth=depth, d=d, n=len(X))
    for i in range(len(X)):
        m.fit_partial(X[i])
        hist.append(X[i])
        ref = np.array(reference_window(hist, W))
        n = len(ref)
        for x in [ref[case.int(0, n - 1)], lo + (hi - lo) * case.rng.rand(d), hi + 1]:
            s = -case.scalar(m.score_partial(x))
            same = int(np.sum(np.all(ref == x, axis=1)))
            case.check(s >= T * (n + same * (2 ** (depth + 1) - 2)) - 1e-6, "profile below the mass of identical instances", s=s, n=n, same=same)
            case.check(s <= T * n * (2 ** (depth + 1) - 1) + 1e-6, "profile above the whole window's mass", s=s, n=n)
            case.check(abs(s - round(s)) < 1e-6 and (round(s) - T * n) % 2 == 0, "profile is not a sum of integer masses", s=s)
            case.see("scores")
        case.state(W, T, depth, i % W, n, round(s))


def large_windows(case):
    """windows of up to thousands of instances, crowded into few regions, and deep trees"""
    from pysad.models import HalfSpaceTrees
    W, T, depth = case.pick([20, 60, 130, 300, 700, 1100]), case.int(1, 3), case.pick([3, 8, 11])
    lo, hi = np.array([float(case.int(-4, 0))]), np.array([4.0])
    n = case.int(W // 2, 2 * W + W // 2)
    spread = case.pick([1.0, 0.05, 0.0])
    X = lo + (hi - lo) * np.clip(case.rng.choice([0.1, 0.37, 0.8], (n, 1)) + spread * (case.rng.rand(n, 1) - 0.5), 0, 1)
    k0 = case.pick([0, 0, W, W // 3])
    init = X[case.rng.randint(0, n, k0)] if k0 else None
    m = HalfSpaceTrees(lo, hi, window_size=W, num_trees=T, max_depth=depth, initial_window_X=init)
    hist = [] if init is None else list(init)
    case.describe(W=W, trees=T, depth=depth, n=n, spread=spread, initial=k0)
    reads = set(case.rng.randint(0, n, 6).tolist()) | {n - 1, min(n - 1, W - 1), min(n - 1, W)}
    for i in range(n):
        m.fit_partial(X[i])
        hist.append(X[i])
        if i not in reads:
            continue
        ref = reference_window(hist, W)
        for x in (X[case.int(0, n - 1)], X[i], lo + (hi - lo) * case.rng.rand(1)):
            want = -T * path_mass(x, ref, lo, hi, lambda node: 0, depth)
            case.close(m.score_partial(x), want, "score is not the mass profile of the last complete window", rtol=1e-12, step=i, x=x)
            case.see("scores")
        case.state(W, T, depth, i, len(ref), want)


CHECK = Check(
    "C19", "exploration",
    "A case fits random (often exactly on split points, sometimes out of bounds) instances one by one and compares scores of several probes "
    "after every prefix with an independent mass-profile reference: exactly for one feature, and for several features by keeping the set of "
    "all split-feature assignments that explain every score seen so far (it must never become empty). Distinct non-trivial: distinct "
    "(configuration, position in window, mass, score).",
    [Family(one_feature, 160, 2000), Family(some_tree, 120, 1500), Family(initial_window, 60, 800), Family(profile_bounds, 100, 1200), Family(large_windows, 24, 240)],
    ["trees up to depth 11 (1 feature), 3 (2 features), 2 (3 features)"])
