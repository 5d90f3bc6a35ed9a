"""C34: LODA and INQMAD scores equal the density estimates they are defined by."""
import numpy as np
from scipy import stats

from .. import workloads as w
from ..common import Check, Family

EPS = 1e-12


class Cuts:
    """Reads, from one LODA score, how many of its cuts look an instance up in the bin of the last fitted instance."""

    def __init__(self, case, n, B):
        self.case, self.n, self.B = case, n, B
        self.hit = -np.log((1 + EPS) / (1 + B * EPS))
        self.miss = -np.log(EPS / (1 + B * EPS))

    def __call__(self, score, what):
        s = self.case.scalar(score)
        k = (self.n * self.n * s - self.n * self.miss) / (self.hit - self.miss)
        K = int(round(k))
        self.case.check(0 <= K <= self.n and abs(k - K) < 1e-6, "a LODA score is not the average of the cuts' log densities",
                        score=s, cuts=self.n, bins=self.B, of=what)
        self.case.see("scores decoded into cuts")
        return K


def loda(case, d, n, B):
    from pysad.models import LODA
    case.describe(features=d, cuts=n, bins=B)
    return LODA(num_bins=B, num_random_cuts=n), Cuts(case, n, B)


def loda_counts(case):
    """number of cuts with a zero weight, shared by every instance and every fit"""
    d = case.pick([1, 2, 3, 4, 5, 8, 9, 10, 15, 16, 17, 25, 30])
    n = case.pick([1, 2, 5, 20, 60, 150])
    B = case.pick([3, 4, 5, 7, 8, 10, 10, 11, 32])
    m, cuts = loda(case, d, n, B)
    fits = case.int(1, 6)
    scale = float(case.pick([0.01, 1.0, 1.0, 30.0]))
    zero = None
    for f in range(fits):
        v = case.rng.randn(d) * scale
        if B % 2 == 0:
            # a fitted value lies on the end of two bins and rounding of its projection may decide which of them counts it:
            # only the origin, whose projections are exactly zero, is judged
            m.fit_partial(v)
            v = np.zeros(d)
        m.fit_partial(v)
        case.check(cuts(m.score_partial(v), "the fitted instance") == n, "the fitted instance is not found in its own bin in every cut", fit=f)
        far = 1e9
        k = [cuts(m.score_partial(v + far * np.eye(d)[j]), "one feature moved") for j in range(d)]
        case.eq(sum(n - x for x in k), n * int(np.sqrt(d)), "a cut does not have int(sqrt(num_features)) non-zero weights", fit=f)
        if zero is None:
            zero = k
        case.eq(k, zero, "the cuts' zero weights changed between fits", fit=f)
        case.check(cuts(m.score_partial(v + far * case.rng.randn(d)), "everything moved") == 0,
                   "an instance moved in every feature still shares bins", fit=f)
        if d > 1:
            i, j = case.rng.permutation(d)[:2]
            kk = cuts(m.score_partial(v + far * (np.eye(d)[i] + np.pi * np.eye(d)[j])), "two features moved")
            case.check(max(0, k[i] + k[j] - n) <= kk <= min(k[i], k[j]), "moving two features leaves an impossible number of shared bins",
                       single=[k[i], k[j]], both=kk)
            case.state(d, n, B, k, kk)
    case.state(d, n, B, zero)


def loda_wide(case):
    """hundreds to thousands of features: the zero weights are counted over all of them"""
    d = case.pick([64, 100, 290, 700, 1100, 1300, 2600])
    n, B = case.pick([1, 4, 9]), case.pick([3, 5, 11])
    m, cuts = loda(case, d, n, B)
    v = case.rng.randn(d) * 0.1
    m.fit_partial(v)
    case.check(cuts(m.score_partial(v), "the fitted instance") == n, "the fitted instance is not found in its own bin in every cut")
    missed = 0
    p = v.copy()
    for j in range(d):
        p[j] += 1e9
        missed += n - cuts(m.score_partial(p), "one feature moved")
        p[j] = v[j]
    case.eq(missed, n * int(np.sqrt(d)), "a cut does not have int(sqrt(num_features)) non-zero weights")
    case.state(d, n, B, missed)


def loda_line(case):
    """one feature: the hit counts along a line are those of one fixed set of weights and of bins of width 1/num_bins"""
    n = case.pick([1, 3, 10, 40])
    B = case.pick([3, 4, 5, 6, 7, 9, 10, 16])
    m, cuts = loda(case, 1, n, B)
    v = np.array([case.rng.randn() * 3])
    m.fit_partial(v)
    count = lambda delta: cuts(m.score_partial(v + delta), "moved by %r" % delta)
    lo_edge, hi_edge = (0.0, 1.0 / B) if B % 2 == 0 else (-0.5 / B, 0.5 / B)
    # every weight is found by bisecting the point at which its cut stops hitting
    grid = np.concatenate([[0.0], np.logspace(-3, 6, 150)])
    ends = []                               # |weight| * end = 1/B (even) or 0.5/B (odd)
    steps = {}
    for sign in (1, -1):
        ks = [count(sign * g) for g in grid]
        case.check(all(a >= b for a, b in zip(ks[1:], ks[2:])), "moving further away re-enters bins", counts=ks)
        steps[sign] = ks
        case.check(ks[-1] == 0, "an instance far away still shares bins", counts=ks[-1])
    if B % 2 == 0:
        # at v itself all hit; just right of v only the positive weights hit, just left of it only the negative ones
        case.check(steps[1][1] + steps[-1][1] == n, "the cuts to the left and to the right do not add up to all cuts",
                   right=steps[1][1], left=steps[-1][1])
    else:
        case.eq(steps[1], steps[-1], "symmetric bins give asymmetric scores")
        case.check(steps[1][1] == n, "a tiny move leaves the bin")
    # the same weights explain every later fit at another place
    for f in range(case.int(1, 4)):
        v2 = np.array([case.rng.randn() * 3])
        m.fit_partial(v2)
        # with an even number of bins the instance itself lies on a bin's end and rounding decides which of the two
        # neighbouring bins counts it, so there only the sum over both directions is determined by the weights
        signs = [(1,), (-1,)] if B % 2 else [(1, -1)]
        total = lambda at, ss, t=1.0: sum(cuts(m.score_partial(at + s_ * grid[g] * t), "moved") for s_ in ss)
        for g in case.rng.randint(1, len(grid), 6):
            for ss in signs:
                a = total(v2, ss)
                # projections are rounded, so a cut may lie within rounding of a bin's end: allow what a relative 1e-7 explains
                m.fit_partial(v)
                near = [total(v, ss, t) for t in (1 - 1e-7, 1 + 1e-7)]
                m.fit_partial(v2)
                case.check(min(near) <= a <= max(near), "another fitted instance changes the bins' widths or the projections",
                           delta=float(grid[g]), counts=a, before=near)
    case.state(n, B, steps[1], steps[-1])


def loda_weights(case):
    """the weights are standard normal: hit rates of thousands of cuts"""
    d = case.pick([1, 1, 4, 9])
    n = 3000
    B = case.pick([5, 9, 10, 20])
    m, cuts = loda(case, d, n, B)
    v = case.rng.randn(d) * (B % 2)         # even numbers of bins: exact projections, see loda_counts
    m.fit_partial(v)
    p_nz = int(np.sqrt(d)) / d
    for delta in (0.05, 0.1, 0.3, 1.0, 5.0):
        for j in range(d):
            e = np.eye(d)[j]
            # both directions: with an even number of bins rounding decides which of two bins counts v
            k = sum(cuts(m.score_partial(v + sg * delta * e), "moved") for sg in (1, -1))
            inside = 2 * stats.norm.cdf((1.0 if B % 2 == 0 else 0.5) / B / delta) - 1
            mean = 2 * n * (1 - p_nz) + n * p_nz * inside * (1 if B % 2 == 0 else 2)
            case.check(abs(k - mean) < 8 * np.sqrt(n) + 2, "the cuts' hit rate is not that of standard normal weights", delta=delta, hits=k,
                       expected=mean)
            case.state(d, B, delta, k)


def loda_batch(case):
    """the batch score is the same read-out, whatever has been fitted in between"""
    d, n, B = case.int(1, 6), case.pick([4, 12, 30]), case.pick([3, 5, 6, 10])
    m, cuts = loda(case, d, n, B)
    X = w.matrix(case, case.int(3, 12), d, kinds=["normal", "lattice", "dups"])
    if B % 2 == 0:
        X[-1] = 0.0         # exact projections, see loda_counts
    m.fit(X)
    S = np.asarray(m.score(np.concatenate([X, X[-1:] + 1e9])))
    case.eq(S.shape, (len(X) + 1,), "one score per row")
    ks = [cuts(s, "batch") for s in S]
    for x, k in zip(X, ks):
        if np.array_equal(x, X[-1]):
            case.check(k == n, "an instance equal to the fitted one is not found in its bins", k=k)
    case.check(ks[-1] == 0, "a far instance shares bins")
    case.state(d, n, B, ks)


def inqmad(case):
    """INQMAD against the random Fourier feature density matrix computed in double precision"""
    from pysad.models import Inqmad
    from sklearn.kernel_approximation import RBFSampler
    d, dim = case.int(1, 5), case.pick([1, 2, 5, 16, 40])
    gamma, seed = float(case.pick([0.01, 0.1, 0.5, 2.0])), (0 if case.flip(0.25) else case.int(0, 1000))
    bs = case.pick([1, 2, 300])
    case.describe(features=d, dim_x=dim, gamma=gamma, random_state=seed, batch_size=bs)
    kw = dict(random_state=seed, batch_size=bs)
    if case.flip(0.2):
        kw, seed = {}, 42
    m = Inqmad(d, dim, gamma, **kw)
    f = RBFSampler(gamma=gamma, n_components=dim, random_state=seed).fit(np.zeros((1, d)))
    W, b = np.float64(f.random_weights_).reshape(d, dim), np.float64(f.random_offset_).reshape(dim)

    def raw(x):
        return np.cos(np.asarray(x, dtype=np.float64) @ W + b)

    def psi(x):
        r_ = raw(x)
        return r_ / np.linalg.norm(r_)
    r = case.rng
    n = case.int(2, 7)
    X = r.randn(n, d) * case.pick([0.2, 1.0])
    judged = 0
    for i in range(n):
        m.fit_partial(X[i])
        for x in list(X[: i + 1][-2:]) + [X[i] + 0.1 * r.randn(d), X[i] + 2.0 * r.randn(d), r.randn(d)]:
            got = case.scalar(m.score_partial(x))
            if min(np.linalg.norm(raw(x)), np.linalg.norm(raw(X[i]))) < 0.02 * np.sqrt(dim):
                continue        # the normalisation loses the digits of single precision
            want = (psi(x) @ psi(X[i])) ** 2 / (i + 1) ** 2
            case.close(got, want, "the INQMAD score is not the normalised overlap with the density matrix", rtol=1e-3,
                       atol=2e-3 / (i + 1) ** 2, fitted=i + 1, x=x)
            case.state(d, dim, gamma, i, round(want, 6))
            judged += 1
            if np.array_equal(x, X[i]):
                case.close(got, 1.0 / (i + 1) ** 2, "the last fitted instance does not overlap fully", rtol=1e-3)
    case.see("overlaps judged", judged)
    P = r.randn(4, d)
    case.close(m.score(P), [case.scalar(m.score_partial(p)) for p in P], "batch scores", rtol=1e-4, atol=1e-6)


CHECK = Check(
    "C34", "exploration",
    "LODA: each score is decoded into the number of cuts that look the instance up in the fitted instance's bin (must be an integer); "
    "moving single features very far counts the cuts' zero weights exactly, moving along a line measures bin widths and the weights' "
    "distribution, later fits must be explained by the same cuts. INQMAD: each score is compared with the overlap computed in double "
    "precision from scikit-learn's RBF sampler of the same seed. Distinct non-trivial: distinct (configuration, decoded counts / score).",
    [Family(loda_counts, 120, 1500), Family(loda_line, 60, 700), Family(loda_wide, 14, 120), Family(loda_weights, 16, 100), Family(loda_batch, 60, 700),
     Family(inqmad, 60, 500)],
    ["both estimators keep only the last fitted instance (known findings of C33)",
     "INQMAD computes in single precision; instances whose feature map nearly vanishes are not judged"])
