"""C25: KitNet against an independent implementation of its phases, clustering and autoencoders."""
import math

import numpy as np

from .. import workloads as w
from ..common import Check, Family


class AE:
    """tied-weight autoencoder, 0-1 normalised input, plain SGD (one instance at a time)"""

    def __init__(self, nv, lr, ratio):
        nh = int(math.ceil(nv * ratio))
        self.W = np.random.RandomState(1234).uniform(-1.0 / nv, 1.0 / nv, (nv, nh))
        self.hb, self.vb = np.zeros(nh), np.zeros(nv)
        self.lo, self.hi = np.full(nv, np.inf), np.full(nv, -np.inf)
        self.lr, self.n = lr, 0

    def norm(self, x):
        return (x - self.lo) / (self.hi - self.lo + 1e-16)

    def forward(self, v):
        h = 1.0 / (1.0 + np.exp(-(v @ self.W + self.hb)))
        return h, 1.0 / (1.0 + np.exp(-(self.W @ h + self.vb)))

    def train(self, x):
        self.n += 1
        self.lo, self.hi = np.minimum(self.lo, x), np.maximum(self.hi, x)
        v = self.norm(x)
        h, z = self.forward(v)
        e = v - z
        g = (e @ self.W) * h * (1 - h)
        self.W = self.W + self.lr * (np.outer(v, g) + np.outer(e, h))
        self.hb = self.hb + self.lr * np.mean(g)
        self.vb = self.vb + self.lr * np.mean(e)
        return math.sqrt(np.mean(e * e))

    def run(self, x):
        if self.n == 0:
            return 0.0
        v = self.norm(x)
        _, z = self.forward(v)
        return math.sqrt(np.mean((v - z) ** 2))


class Tie(Exception):
    pass


def distances(X):
    """correlation distance from residuals against the running mean"""
    n, d = X.shape
    run = np.cumsum(X, axis=0) / np.arange(1, n + 1)[:, None]
    R = X - run
    D = np.ones((d, d))
    for a in range(d):
        for b in range(d):
            den = math.sqrt(float(R[:, a] @ R[:, a])) * math.sqrt(float(R[:, b] @ R[:, b]))
            num = float(R[:, a] @ R[:, b])
            D[a, b] = max(0.0, 1.0 - num / (den if den else 1e-100))
    return D


def clusters(X, m):
    """single linkage, dendrogram broken top-down until every cluster has at most m features"""
    d = X.shape[1]
    if d == 1:
        return [[0]]
    D = distances(X)
    off = np.sort(D[np.triu_indices(d, 1)])
    if len(off) > 1 and np.min(np.diff(off)) < 1e-9:
        raise Tie
    m = max(1, min(m, d))
    nodes = {i: ([i], None) for i in range(d)}  # id -> (leaves in pre-order, children)
    active = {i: [i] for i in range(d)}
    nxt = d
    while len(active) > 1:
        best = None
        ids = sorted(active)
        for i, a in enumerate(ids):
            for b in ids[i + 1:]:
                dist = min(D[p, q] for p in active[a] for q in active[b])
                if best is None or dist < best[0]:
                    best = (dist, a, b)
        _, a, b = best
        # scipy lists the smaller cluster id first
        nodes[nxt] = (nodes[a][0] + nodes[b][0], (a, b))
        active[nxt] = active.pop(a) + active.pop(b)
        nxt += 1

    def cut(i):
        leaves, kids = nodes[i]
        return [leaves] if len(leaves) <= m else cut(kids[0]) + cut(kids[1])
    return cut(nxt - 1)


class Ref:
    def __init__(self, m, fm, ad, lr, ratio):
        self.m, self.fm, self.ad, self.lr, self.ratio = m, ad if fm is None else fm, ad, lr, ratio
        self.buf, self.map, self.k = [], None, 0

    def fit(self, x):
        if self.map is None:
            self.buf.append(x)
            if len(self.buf) == self.fm + 1:
                self.map = clusters(np.array(self.buf), self.m)
                self.ens = [AE(len(c), self.lr, self.ratio) for c in self.map]
                self.out = AE(len(self.map), self.lr, self.ratio)
        elif self.k < self.ad:
            self.k += 1
            self.out.train(np.array([e.train(x[c]) for e, c in zip(self.ens, self.map)]))

    def score(self, x):
        if self.map is None:
            return 0.0
        return self.out.run(np.array([e.run(x[c]) for e, c in zip(self.ens, self.map)]))

    @property
    def phase(self):
        return "map" if self.map is None else "untrained" if self.k == 0 else "train" if self.k < self.ad else "execute"


def config(case):
    return dict(max_size_ae=case.pick([1, 2, 3, 4, 10]), grace_feature_mapping=case.pick([None, 2, 3, 10, 25]),
                grace_anomaly_detector=case.pick([0, 1, 2, 5, 20, 40]), learning_rate=case.pick([0.1, 0.01, 0.5]),
                hidden_ratio=case.pick([0.75, 0.5, 0.2, 1.0, 1.4, 0.35, 0.34, 0.52, 0.67, 0.101, float(case.rng.uniform(0.05, 1.5))]))


def data(case, n, d):
    """correlated features of different ranges, sometimes with a constant or a duplicated one"""
    r = case.rng
    k = case.int(1, max(1, d))
    X = r.randn(n, k) @ r.randn(k, d) + case.pick([0.0, 0.3, 2.0]) * r.randn(n, d)
    X = X * r.choice([1e-3, 1.0, 1.0, 50.0], d) + r.choice([0.0, 0.0, 5.0, -100.0], d)
    if d > 1 and case.flip(0.5 if d == 2 else 0.06):
        X[:, r.randint(d)] = r.choice([0.0, 3.5])
    if d > 1 and case.flip(0.2):
        a, b = r.choice(d, 2, replace=False)
        X[:, a] = -2 * X[:, b] + 1 if case.flip() else 3 * X[:, b]
    if case.flip(0.2):
        X = np.round(X)
    return X


def exact(case):
    from pysad.models import KitNet
    cfg = config(case)
    d = case.pick([1, 2, 3, 4, 5, 8, 12])
    if case.flip(0.06):
        d = case.pick([20, 33])
        cfg.update(grace_feature_mapping=case.pick([40, 120]), grace_anomaly_detector=case.pick([30, 200]))
    if case.flip(0.06):          # long training
        d = case.int(1, 4)
        cfg.update(grace_feature_mapping=case.pick([3, 10, 300]), grace_anomaly_detector=case.pick([250, 600, 1100]))
    if d > 2 and (cfg["grace_feature_mapping"] or 0) < 3 and case.flip(0.9):
        cfg["grace_feature_mapping"] = case.pick([3, 5, 12])
    fm = cfg["grace_anomaly_detector"] if cfg["grace_feature_mapping"] is None else cfg["grace_feature_mapping"]
    n = fm + 1 + cfg["grace_anomaly_detector"] + case.int(3, 12)
    X = data(case, n, d)
    P = np.vstack([X[case.rng.randint(n, size=4)], X.mean(0) + 3 * X.std(0) * case.rng.randn(3, d), X.mean(0) + 100 + 30 * X.std(0) * case.rng.randn(1, d)])
    case.describe(cfg=cfg, d=d, n=n, X=X)
    m = KitNet(**cfg)
    ref = Ref(cfg["max_size_ae"], cfg["grace_feature_mapping"], cfg["grace_anomaly_detector"], cfg["learning_rate"], cfg["hidden_ratio"])
    for i in range(n):
        fit_score = case.flip(0.4)
        got = m.fit_score_partial(X[i].copy()) if fit_score else m.fit_partial(X[i].copy())
        try:
            ref.fit(X[i])
        except Tie:
            # the dendrogram hangs on rounding: the phases are still decided by the `phases` family
            case.see("skipped: tied correlation distances")
            case.check(True, "")
            return
        if fit_score:
            case.close(got, ref.score(X[i]), "fit_score_partial is not the output autoencoder's RMSE", rtol=1e-6, atol=1e-9, step=i, phase=ref.phase)
        if case.flip(0.5 if n < 250 else 0.02) or i > n - 4:
            for p in P[case.rng.randint(len(P), size=2)]:
                case.close(m.score_partial(p), ref.score(p), "score_partial is not the output autoencoder's RMSE", rtol=1e-6, atol=1e-9,
                           step=i, phase=ref.phase, probe=p, map=ref.map)
                case.see("scores in phase " + ref.phase)
        case.state(d, cfg, ref.phase, len(ref.map or ()))


def phases(case):
    """degenerate streams (ties, constants, duplicates): zero before training, frozen after it, finite always"""
    from pysad.models import KitNet
    cfg = config(case)
    cfg["grace_feature_mapping"] = case.pick([0, 1, 2, 5, None])
    fm = cfg["grace_anomaly_detector"] if cfg["grace_feature_mapping"] is None else cfg["grace_feature_mapping"]
    ad = cfg["grace_anomaly_detector"]
    d = case.pick([1, 2, 3, 6, 15])
    n = fm + 1 + ad + case.int(3, 15)
    X = w.matrix(case, n, d)
    X = np.clip(X, -1e8, 1e8)
    if case.flip(0.3):
        X[:] = X[:, :1]
    if case.flip(0.2):
        X[:] = X[0]
    P = np.vstack([X[case.rng.randint(n, size=3)], case.rng.randn(3, d) * (1 + np.abs(X).max())])
    case.describe(cfg=cfg, d=d, n=n, X=X)
    m = KitNet(**cfg)
    frozen = None
    for i in range(n):
        case.check(m.fit_partial(X[i].copy()) is m, "fit_partial does not return the model")
        s = [case.scalar(m.score_partial(p)) for p in P]
        case.check(all(np.isfinite(s)) and all(v >= 0 for v in s), "score is not a finite non-negative RMSE", step=i, scores=s)
        if i + 1 <= fm + 1:
            case.eq(s, [0.0] * len(P), "non-zero score before the autoencoders are trained", step=i)
        elif ad > 0 and i + 1 == fm + 2:
            case.check(max(s) > 0, "still untrained after the first instance beyond the feature-mapping phase", step=i)
        if i + 1 == fm + 1 + ad:
            frozen = s
        elif i + 1 > fm + 1 + ad:
            case.eq(s, frozen, "scores change after the training phase", step=i)
            case.see("frozen scores", len(s))
        case.state(d, cfg, i <= fm, i <= fm + ad, tuple(np.round(s, 3)))


def sizes(case):
    """every feature is used, by one autoencoder of at most max_size_ae features: with constant training data (all-zero
    residuals, all normalised inputs 0) each autoencoder's RMSE depends on its own features only"""
    from pysad.models import KitNet
    d = case.int(2, 12)
    m_ = case.int(1, d)
    X = data(case, 40, d)
    X = X + case.rng.randn(40, d) * 0.3 * (1e-9 + X.std(0))
    case.describe(d=d, m=m_)
    m = KitNet(max_size_ae=m_, grace_feature_mapping=12, grace_anomaly_detector=20)
    for x in X:
        m.fit_partial(x)
    base = X[5].copy()
    s0 = case.scalar(m.score_partial(base))
    unused = []
    for j in range(d):
        if np.ptp(X[:, j]) == 0:
            continue
        p = base.copy()
        p[j] += 7.3 * np.ptp(X[:, j])
        if case.scalar(m.score_partial(p)) == s0:
            unused.append(j)
        case.see("features probed")
    case.check(not unused, "changing a feature far beyond its training range changes no score", features=unused)
    case.state(d, m_)


CHECK = Check("C25", "exploration",
              "distinct = distinct (feature count, configuration, phase, number of autoencoders) situations whose scores the monitor compared with "
              "an independent KitNET, plus distinct degenerate score vectors judged by the phase monitor",
              [Family(exact, 120, 3000), Family(phases, 80, 1500), Family(sizes, 24, 400)],
              ["the weight initialisation (RandomState(1234), uniform in +-1/n_visible) is part of the specification, being what makes KitNet deterministic",
               "clusterings decided by ties in the correlation distances are compared by phase only"])
