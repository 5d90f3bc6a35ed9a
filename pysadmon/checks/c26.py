"""C26: KNN-CAD and relative entropy against independent implementations."""
import math

import numpy as np
from scipy import stats

from .. import workloads as w
from ..common import Check, Family

DIM, K = 19, 27


class CAD:
    """reference KNN-CAD; numbers are compared with a tolerance and undecidable comparisons are reported as intervals"""

    def __init__(self, P):
        self.P, self.x, self.train, self.cal, self.scores = P, [], [], [], []
        self.S, self.cond, self.unchanged = np.eye(DIM), 1.0, True

    def ncm(self, item, k):
        A = np.array(self.train) - np.array(item)
        q = np.einsum("ij,jk,ik->i", A, self.S, A)
        return float(np.sum(np.sort(q)[:k]))

    def fit(self, v):
        self.x.append(v)
        n = len(self.x)
        if n < DIM:
            return
        item = self.x[-DIM:]
        if n < self.P:
            self.train.append(item)
            return
        if n % self.P in (0, int(self.P / 2)):
            T = np.array(self.train)
            G = T.T @ T
            if np.all(T == T[0, 0]) and T[0, 0] == round(T[0, 0]):
                pass        # exactly singular: there is no inverse and the matrix is kept
            else:
                cond = np.linalg.cond(G)
                if not cond < 1e9:
                    return "ill"
                self.S, self.cond = np.linalg.inv(G), cond
        if not self.scores:
            self.scores = [self.ncm(t, K + 1) for t in self.train]
        s = self.ncm(item, K)
        self.unchanged = True
        if n >= 2 * self.P:
            self.train = self.train[1:] + [self.cal[0]]
            self.cal = self.cal[1:]
            self.unchanged = False
        self.cal.append(item)
        self.scores = self.scores[1:] + [s]

    def result(self):
        """(smallest, largest) admissible fraction"""
        n = len(self.scores)
        s = self.ncm(self.x[-DIM:], K)
        tol = max(1e-10, 1e-14 * self.cond) * (abs(s) + max(abs(v) for v in self.scores))
        others = self.scores[:-1] if self.unchanged else self.scores  # its own, identical, score is not below it
        lo = sum(v < s - tol for v in others)
        hi = sum(v < s + tol for v in others)
        return lo / n, hi / n


def knn_cad_flat(case):
    """the stream is constant for a while: training vectors without an inverse leave the matrix as it was"""
    P = case.pick([48, 50, 53, 60])
    c = float(case.pick([0.0, 0.0, 1.0, -3.0]))
    k = case.pick([1, 2, 3])
    parts = [case.rng.randn(k * P) * 3, np.full(case.pick([2, 3, 4]) * P + case.int(0, P), c), case.rng.randn(P)]
    if case.flip(0.4):
        parts = [np.full(P + case.int(0, 4 * P), c), case.rng.randn(3 * P) * 2]
    x = np.concatenate(parts)
    compare(case, P, x)


def knn_cad(case):
    P = case.pick([48, 49, 50, 53, 60, 75, 90]) if case.flip(0.93) else case.pick([140, 200])
    n = case.pick([P + 20, 2 * P + 10, 3 * P + 5, 4 * P])
    x = w.series(case, n, case.pick(["walk", "season", "spikes", "normal", "shift"]))
    if case.flip(0.5):
        x = x + 0.3 * case.rng.randn(n)
    x = x * case.pick([1.0, 0.01, 30.0])
    if case.flip(0.5):
        at = case.int(P, n - 1)
        x[at:at + case.int(1, 25)] += 40 * np.std(x)
    compare(case, P, x)


def compare(case, P, x):
    from pysad.models import KNNCAD
    n = len(x)
    case.describe(P=P, n=n, x=x)
    m, ref = KNNCAD(P), CAD(P)
    hold = 0
    for i in range(n):
        fs = case.flip()
        if fs:
            calls = [m.fit_score_partial(np.array([x[i]]))]
        else:
            m.fit_partial(np.array([x[i]]))
            calls = []
        if ref.fit(float(x[i])) == "ill":
            case.see("stopped: ill-conditioned training matrix")
            case.check(True, "")
            return
        for _ in range(case.pick([0, 1, 1, 2]) if not fs else case.pick([0, 0, 1])):
            calls.append(m.score_partial(np.array([case.pick([x[i], 0.0, 1e3])])))  # the instance itself is not used by the score
        for got in calls:
            got = case.scalar(got)
            if i + 1 < max(P, DIM):
                case.eq(got, 0.0, "non-zero score in the probationary period", step=i)
                case.see("probationary scores")
                continue
            lo, hi = ref.result()
            if hold > 0:
                hold -= 1
                case.eq(got, 0.5, "score after an alarm is not held at 0.5", step=i)
                case.see("held scores")
                continue
            case.check(lo - 1e-12 <= got <= hi + 1e-12, "score is not the fraction of conformity scores below the newest one",
                       step=i, got=got, lo=lo, hi=hi)
            case.see("decided exactly" if lo == hi else "decided up to rounding ties")
            case.state(P, i // P, round(got, 6), hold)
            if got >= 0.9965:
                hold = int(P / 5)
                case.see("alarms")


def relative_entropy(case):
    from pysad.models import RelativeEntropy
    exact = case.flip()
    bins = case.int(2, 9)
    step = case.pick([0.25, 1.0, 2.0]) if exact else case.rng.uniform(0.1, 3)
    lo = float(case.int(-4, 4)) if exact else case.rng.uniform(-5, 5)
    hi = lo + bins * step
    W = case.pick([1, 2, 5, 10, 52, case.int(3, 40)])
    if case.flip(0.08):
        W, bins = case.pick([120, 300, 800]), case.pick([bins, 20, 40])
    elif case.flip(0.35):
        W, bins = case.pick([40, 60, 120]), case.int(10, 45)
    hi = lo + bins * step
    n = W + case.int(2, 40)
    base = np.exp(0.5 * case.rng.randn(bins + 1))
    tilt = np.exp(case.pick([0.2, 0.7, 1.5]) * case.rng.randn(bins + 1))
    turn = case.int(max(1, W // 2), n)
    B = np.array([case.rng.choice(bins + 1, p=(q / q.sum())) for q in [base if i < turn else base * tilt for i in range(n)]])
    # a value in bin b lies in (b-1, b] steps above lo; bin 0 is the minimum itself
    frac = case.rng.choice([0.0, 0.25, 0.5], n) if exact else case.rng.uniform(0.05, 0.95, n)
    frac = np.where(B == 0, 0.0, frac)
    x = lo + (B - frac) * step
    x = np.where(B == 0, lo, x)
    if case.flip(0.3):          # values far outside the configured range belong to no bin
        for i in case.rng.randint(0, n, case.int(1, 3)):
            far = case.int(3, 60)
            B[i], x[i] = -1, (lo - far * step if case.flip() else hi + far * step)
    args = dict(num_bins=bins, window_size=W)
    if bins == 5 and case.flip():
        del args["num_bins"]
    if W == 52 and case.flip():
        del args["window_size"]
    m = RelativeEntropy(lo, hi, **args)
    T = stats.chi2.ppf(0.99, bins - 1)
    case.describe(lo=lo, hi=hi, bins=bins, W=W, n=n, x=x)
    first = None
    for i in range(n):
        if case.flip():
            calls = [m.fit_score_partial(np.array([x[i]]))]
        else:
            m.fit_partial(np.array([x[i]]))
            calls = [m.score_partial(np.array([x[case.int(0, n - 1)]])) for _ in range(case.int(0, 2))]
        want = 0.0
        if i + 1 >= W:
            cnt = np.zeros(bins)
            for b in B[i + 1 - W:i + 1]:
                if b >= 0:
                    cnt[min(b, bins - 1)] += 1
            if cnt.sum() == 0:
                case.see("stopped: nothing in range")
                case.check(True, "")
                return
            p = cnt / cnt.sum()
            first = p if first is None else first
            kl = 0.0
            for a, b in zip(p, first):
                if a > 0:
                    kl += a * math.log(a / b) if b > 0 else math.inf
            stat = 2 * W * kl
            if abs(stat - T) < 1e-7 * T:
                case.see("skipped: at the threshold")
                continue
            want = 0.0 if stat < T else -1.0
        for got in calls:
            case.eq(case.scalar(got), want, "score does not tell whether the window agrees with the first one", step=i)
            case.see("warm-up" if i + 1 < W else "agrees" if want == 0 else "disagrees")
        if i + 1 >= W:
            case.state(bins, W, round(min(stat, 1e6), 5), want)


CHECK = Check("C26", "exploration",
              "distinct = distinct (probationary period, epoch, score, hold-off) and (bins, window, test statistic, verdict) situations the monitor decided",
              [Family(knn_cad, 64, 1200), Family(knn_cad_flat, 24, 300), Family(relative_entropy, 200, 4000)],
              ["KNN-CAD comparisons that rounding decides are accepted either way and counted; ill-conditioned training matrices end a case"])
