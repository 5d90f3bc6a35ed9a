"""C22: RRCF scores collusive displacement over exactly the last tree_size instances."""
import functools

import numpy as np

from ..common import Check, Family


def make(case, **kw):
    from pysad.models import RobustRandomCutForest
    c = dict(num_trees=case.int(1, 6), shingle_size=case.int(1, 5), tree_size=case.int(2, 14))
    c.update(kw)
    return c, RobustRandomCutForest(**c)


def score(case, m, x):
    return case.scalar(m.score_partial(x))


def mirror(case):
    """one tree driven directly through the rrcf library: last tree_size instances, oldest forgotten before the newest is inserted
    (one tree, so that the order in which a forest visits its trees does not matter)"""
    from rrcf import rrcf
    from .. import workloads as w
    c, m = make(case, num_trees=1)
    T, K = c["tree_size"], c["num_trees"]
    d = case.int(1, 4)
    n = case.int(2, 45)
    kind = case.pick(["normal", "uniform", "lattice", "dups", "heavy", "const", "shift"])
    X = w.matrix(case, n, d, kind)
    trees = [rrcf.RCTree() for _ in range(K)]
    case.describe(cfg=c, d=d, n=n, kind=kind)
    for i in range(n):
        case.reseed(("fit", i))
        m.fit_partial(X[i])
        case.reseed(("fit", i))
        for t in trees:
            if i >= T:
                t.forget_point(i - T)
            t.insert_point(X[i], index=i)
        if i == 0:
            continue
        for p in range(2):
            x = X[case.int(0, n - 1)] if case.flip(0.6) else case.rng.randn(d) * 3
            if case.flip(0.25):     # next to a held instance, but not equal to it
                x = X[case.int(max(0, i - T), i)] * (1 + case.pick([1e-2, -1e-4, 1e-6, -1e-9])) + case.pick([0.0, 1e-4, -1e-7])
            case.reseed(("read", i, p))
            s = score(case, m, x)
            case.reseed(("read", i, p))
            vals = []
            for t in trees:
                leaf = t.find_duplicate(x)
                if leaf is not None:
                    vals.append(t.codisp(leaf))
                else:
                    t.insert_point(x, index="probe")
                    vals.append(t.codisp("probe"))
                    t.forget_point("probe")
            case.close(s, np.mean(vals), "not the mean collusive displacement in trees of exactly the held instances", rtol=1e-9, step=i, x=x)
            case.see("scores")
            case.state(c, i, round(s, 6))


def far_probe(case):
    """an instance extremely far away is cut off first: it displaces exactly the number of held instances"""
    c, m = make(case)
    T = c["tree_size"]
    d = case.int(1, 4)
    X = case.rng.randn(case.int(2, 40), d)
    if case.flip(0.4):
        X = np.round(X)
    case.describe(cfg=c, d=d, n=len(X))
    far = case.pick([-1, 1]) * np.full(d, 1e12) * (1 + case.rng.rand(d))
    for i in range(len(X)):
        m.fit_partial(X[i])
        k = min(T, i + 1)
        if k > 1:
            case.close(score(case, m, far), k, "tree does not hold exactly the last tree_size instances", rtol=1e-9, step=i, held=k)
            case.see("scores")
            case.state(c, k)


def possible(values, x):
    """all collusive displacements of location x over all trees of axis cuts on the line (values: location -> count)"""
    locs = sorted(values)
    cnt = [values[v] for v in locs]
    px = locs.index(x)

    @functools.lru_cache(None)
    def rec(i, j):
        # possible maxima below node [i, j] that contains px
        if i == j:
            return frozenset([0.0])
        out = set()
        for k in range(i, j):
            l, r = sum(cnt[i:k + 1]), sum(cnt[k + 1:j + 1])
            if px <= k:
                out |= {max(v, r / l) for v in rec(i, k)}
            else:
                out |= {max(v, l / r) for v in rec(k + 1, j)}
        return frozenset(out)
    return rec(0, len(locs) - 1)


def line(case):
    """one tree over distinct instances on a line: the score of a new instance is a value that some cut tree of exactly those instances gives"""
    T = case.int(2, 9)
    c, m = make(case, num_trees=1, tree_size=T)
    n = case.int(2, 40)
    X = case.rng.permutation(60)[:n].astype(float)
    case.describe(cfg=c, X=X)
    for i in range(n):
        m.fit_partial(np.array([X[i]]))
        held = X[max(0, i + 1 - T):i + 1]
        for _ in range(2):
            x = case.int(-2, 62) + 0.5
            vals = {v: 1 for v in held}
            vals[x] = 1
            s = score(case, m, np.array([x]))
            want = possible(vals, x)
            case.check(any(abs(s - v) < 1e-9 for v in want), "no random cut tree of the held instances gives this score", step=i, x=x, s=s,
                       possible=sorted(want)[:40], held=held)
            case.see("scores")
            case.state(T, sorted(vals), x, round(s, 6))


def tree_mean(case):
    """the score is the mean over trees: with K trees a score is a mean of K possible values"""
    K = case.int(2, 4)
    c, m = make(case, num_trees=K, tree_size=12)
    seq = sorted(set(case.rng.randint(0, 12, case.int(2, 4)).tolist()) | {-3})
    case.rng.shuffle(seq)
    for v in seq:
        m.fit_partial(np.array([float(v)]))
    x = case.int(-1, 12) + 0.5
    s = score(case, m, np.array([x]))
    vals = {float(v): 1 for v in seq}
    vals[x] = 1
    pv = sorted(possible(vals, x))
    sums = {0.0}
    for _ in range(K):
        sums = {round(t + v, 9) for t in sums for v in pv}
    case.describe(cfg=c, held=seq, x=x)
    case.check(any(abs(s - t / K) < 1e-6 for t in sums), "not a mean over the trees", s=s, possible=pv, trees=K)
    case.state(K, seq, x, round(s, 6))


def near_copies(case):
    """streams of instances that differ by very little are still different instances"""
    from rrcf import rrcf
    T = case.int(3, 14)
    c, m = make(case, num_trees=1, tree_size=T)
    d = case.int(1, 3)
    n = case.int(4, 40)
    base = case.rng.randn(case.int(1, 3), d) * case.pick([1.0, 100.0])
    eps = case.pick([1e-3, 1e-4, 1e-5, 1e-6, 1e-8])
    X = base[case.rng.randint(0, len(base), n)]
    X = X + case.rng.randint(-3, 4, X.shape) * eps * (np.abs(X) + 0.1)
    tree = rrcf.RCTree()
    case.describe(cfg=c, d=d, n=n, eps=eps)
    for i in range(n):
        case.reseed(("fit", i))
        m.fit_partial(X[i])
        case.reseed(("fit", i))
        if i >= T:
            tree.forget_point(i - T)
        tree.insert_point(X[i], index=i)
        if i == 0:
            continue
        for p in range(2):
            x = X[case.int(0, n - 1)] * (1 + case.pick([0, 0, eps, -eps, eps / 3]))
            case.reseed(("read", i, p))
            s = score(case, m, x)
            case.reseed(("read", i, p))
            leaf = tree.find_duplicate(x)
            if leaf is not None:
                want = tree.codisp(leaf)
            else:
                tree.insert_point(x, index="probe")
                want = tree.codisp("probe")
                tree.forget_point("probe")
            case.close(s, want, "not the collusive displacement in a tree of exactly the held instances", rtol=1e-9, step=i, x=x)
            case.see("scores")
            case.state(T, d, i, round(s, 6))


def big_trees(case):
    """trees of hundreds of instances"""
    from rrcf import rrcf
    T = case.pick([40, 100, 260, 300])
    c, m = make(case, num_trees=1, tree_size=T)
    d = case.int(1, 4)
    n = T + case.int(0, T)
    X = case.rng.randn(n, d)
    if case.flip(0.3):
        X = np.round(X, 1)
    X[:T // 2] += case.pick([0, 4])
    tree = rrcf.RCTree()
    reads = set(case.rng.randint(1, n, 8).tolist()) | {n - 1}
    case.describe(cfg=c, d=d, n=n)
    for i in range(n):
        case.reseed(("fit", i))
        m.fit_partial(X[i])
        case.reseed(("fit", i))
        if i >= T:
            tree.forget_point(i - T)
        tree.insert_point(X[i], index=i)
        if i not in reads:
            continue
        for p, x in enumerate((X[case.int(0, i)], case.rng.randn(d) * 2, np.full(d, 5e11))):
            case.reseed(("read", i, p))
            s = score(case, m, x)
            case.reseed(("read", i, p))
            leaf = tree.find_duplicate(x)
            if leaf is not None:
                want = tree.codisp(leaf)
            else:
                tree.insert_point(x, index="probe")
                want = tree.codisp("probe")
                tree.forget_point("probe")
            case.close(s, want, "not the collusive displacement in a tree of exactly the held instances", rtol=1e-9, step=i, x=x)
            case.see("scores")
            case.state(T, d, i, round(s, 6))


def mean_rate(case):
    """forests of up to 150 trees over three instances on a line: a cut tree of {0, 1, 1 + g} separates 1 + g first with probability
    g / (1 + g) (displacement 2) and isolates 0 first otherwise (displacement 1); the score is the mean over the trees"""
    K = case.pick([1, 3, 8, 12, 20, 25, 32, 40, 64, 100, 130, 150])
    g = float(case.rng.uniform(0.3, 3.0))
    a, s0 = float(case.pick([0.0, -5.0, 100.0])), float(case.pick([1.0, 0.01, 1000.0]))
    runs = max(6, 1500 // K)
    case.describe(trees=K, gap=g, forests=runs)
    total, edge = 0, 0
    for _ in range(runs):
        c, m = make(case, num_trees=K, tree_size=case.int(2, 5))
        for v in (0.0, 1.0):
            m.fit_partial(np.array([a + s0 * v]))
        s = score(case, m, np.array([a + s0 * (1 + g)]))
        j = K * (s - 1.0)
        case.check(abs(j - round(j)) < 1e-6 * K and -0.5 < j < K + 0.5, "the score is not the mean over the trees of displacements 1 or 2", s=s)
        total += int(round(j))
        case.see("scores")
    p = g / (1 + g)
    sd = np.sqrt(runs * K * p * (1 - p))
    case.check(abs(total - runs * K * p) < 7 * sd + 1, "the mean over the trees is not that of random cuts", total=total, expected=runs * K * p, sd=sd)
    case.state(K, round(g, 3), total)


CHECK = Check(
    "C22", "exploration",
    "A case fits a stream and compares scores after every instance with the collusive displacement over exactly the last tree_size instances: "
    "with a mirror forest driven directly through the rrcf library under the same random state; exactly for an extremely far instance (it "
    "displaces all held instances); and for distinct instances on a line membership in the set of values over all possible cut trees; forests of up to 150 trees over three instances must average displacements at the rate of random cuts. "
    "Distinct non-trivial: distinct (configuration, held instances, score).",
    [Family(mirror, 140, 1800), Family(far_probe, 100, 1200), Family(line, 100, 1200), Family(tree_mean, 60, 600), Family(near_copies, 100, 1200), Family(big_trees, 16, 160), Family(mean_rate, 24, 240)],
    ["an instance 1e12 away is separated first with probability above 1 - 1e-10 per tree",
     "trees and collusive displacement are those of the rrcf library"])
