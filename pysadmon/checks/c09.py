"""C09: streaming metrics against textbook definitions over the whole history."""
import numpy as np

from ..common import Check, Family

NAMES = ["PrecisionMetric", "RecallMetric", "AUROCMetric", "AUPRMetric"]


def auroc(y, s):
    """probability that a random positive outscores a random negative (ties 1/2), by pair counting"""
    p, n = s[y == 1], s[y == 0]
    gt = (p[:, None] > n[None, :]).sum()
    eq = (p[:, None] == n[None, :]).sum()
    return (gt + 0.5 * eq) / float(len(p) * len(n))


def aupr(y, s):
    """average precision: sum over distinct thresholds of (recall step) * precision"""
    P = (y == 1).sum()
    ap, last = 0.0, 0.0
    for t in sorted(set(s.tolist()), reverse=True):
        sel = s >= t
        tp = (y[sel] == 1).sum()
        rec, prec = tp / P, tp / sel.sum()
        ap += (rec - last) * prec
        last = rec
    return ap


def reference(name, y, s):
    """None where the definition has a zero denominator; precision and recall are 0 there"""
    y, s = np.asarray(y), np.asarray(s, dtype=float)
    if name == "PrecisionMetric":
        pp = (s == 1).sum()
        return 0.0 if pp == 0 else ((s == 1) & (y == 1)).sum() / pp
    if name == "RecallMetric":
        return 0.0 if (y == 1).sum() == 0 else ((s == 1) & (y == 1)).sum() / (y == 1).sum()
    if (y == 1).sum() == 0 or (name == "AUROCMetric" and (y == 0).sum() == 0):
        return None
    return auroc(y, s) if name == "AUROCMetric" else aupr(y, s)


def stream(case, name, n):
    r = case.rng
    pr = float(case.pick([0.02, 0.1, 0.5, 0.9]))
    y = (r.rand(n) < pr).astype(int)
    if name in NAMES[:2]:
        s = np.where(r.rand(n) < case.pick([0.1, 0.5, 0.9]), y, 1 - y)
        kind = "binary"
    else:
        kind = case.pick(["normal", "ties", "negative", "perfect", "inverted", "const", "huge", "close", "ulp", "tiny"])
        s = {"normal": lambda: r.randn(n) + y, "ties": lambda: r.randint(0, 4, n).astype(float),
             "negative": lambda: -r.rand(n) * 5 - 1, "perfect": lambda: y + r.rand(n) * 0.5,
             "inverted": lambda: -y + r.rand(n) * 0.5, "const": lambda: np.zeros(n),
             "huge": lambda: r.randn(n) * 1e12, "close": lambda: 0.5 + r.randint(0, 20, n) * 1e-6,
             "ulp": lambda: 0.5 + r.randint(0, 20, n) * 2.0 ** -50, "tiny": lambda: r.rand(n) * 1e-12}[kind]()
    return y, s, kind, pr


def prefixes(case):
    from pysad import evaluation as ev
    name = NAMES[case.index % 4]
    n = case.int(1, 60)
    y, s, kind, pr = stream(case, name, n)
    m = getattr(ev, name)()
    read_p = float(case.pick([0.1, 0.5, 1.0]))
    ytype = case.pick([int, np.int64, np.float64, bool])
    case.describe(metric=name, n=n, scores=kind, positives=pr, ytype=ytype.__name__, read_p=read_p)
    for k in range(n):
        m.update(ytype(y[k]), s[k] if case.flip() else float(s[k]) if name in NAMES[2:] else int(s[k]))
        case.see("update")
        if case.rng.rand() < read_p or k == n - 1:
            want = reference(name, y[:k + 1], s[:k + 1])
            single = len(set(y[:k + 1].tolist())) < 2
            if name == "AUROCMetric":
                raised = False
                try:
                    got = m.get()
                except ValueError:
                    raised = True
                case.check(raised == single, "AUROC must raise ValueError exactly while one class is seen",
                           raised=raised, labels=y[:k + 1])
                if raised:
                    case.see("single_class")
                    continue
            elif want is None:
                continue
            else:
                got = m.get()
            case.close(case.scalar(got), want, name + " differs from its definition", rtol=1e-9, atol=1e-12,
                       y=y[:k + 1], s=s[:k + 1])
            case.state(name, kind, k, round(float(want), 9))
            if case.flip(0.2):
                case.check(case.scalar(m.get()) == case.scalar(got), "reading changes the metric")


def order_and_length(case):
    """longer streams; order independence"""
    from pysad import evaluation as ev
    name = NAMES[case.index % 4]
    n = case.pick([300, 700, 1500])
    y, s, kind, pr = stream(case, name, n)
    y[:2] = [0, 1]
    s[1] = 1
    perm = case.rng.permutation(n)
    vals = []
    for order in (np.arange(n), perm):
        m = getattr(ev, name)()
        for i in order:
            m.update(int(y[i]), s[i])
        vals.append(case.scalar(m.get()))
    case.see("update", 2 * n)
    case.describe(metric=name, n=n, scores=kind, positives=pr)
    case.close(vals[0], reference(name, y, s), name + " differs from its definition", rtol=1e-9)
    case.close(vals[1], vals[0], name + " depends on the order of the pairs", rtol=1e-9)
    case.state(name, kind, n, round(vals[0], 9))


def long_histories(case):
    """thousands of pairs whose class ratio and detector quality change for good on the way"""
    from pysad import evaluation as ev
    name = NAMES[case.index % 4]
    n = case.pick([2500, 4500, 9000, 12000])
    cut = case.int(300, n // 2)
    r = case.rng
    pr = np.where(np.arange(n) < cut, case.pick([0.02, 0.5]), case.pick([0.1, 0.9]))
    y = (r.rand(n) < pr).astype(int)
    good = np.where(np.arange(n) < cut, case.pick([0.05, 0.3]), case.pick([0.7, 0.95]))
    if name in NAMES[:2]:
        s = np.where(r.rand(n) < good, y, 1 - y)
    else:
        s = np.round(r.randn(n) + 3 * y * (good - 0.5), case.pick([1, 6]))
    reads = set(r.randint(cut, n, 3).tolist()) | {n - 1}
    m = getattr(ev, name)()
    case.describe(metric=name, n=n, cut=cut)
    for k in range(n):
        m.update(int(y[k]), s[k])
        if k in reads:
            want = reference(name, y[:k + 1], s[:k + 1])
            if want is not None:
                case.close(case.scalar(m.get()), want, name + " differs from its definition", rtol=1e-9, step=k)
                case.state(name, n, k, round(float(want), 9))
    case.see("update", n)
    case.check(True, "")


CHECK = Check(
    "C09", "exploration",
    "A case feeds one metric with a random label/score stream and compares get() at many prefixes with an independent definition "
    "(pair counting for AUROC, threshold sum for average precision). Distinct non-trivial: distinct (metric, score kind, prefix "
    "length, value) comparisons where the definition has a non-zero denominator.",
    [Family(prefixes, 1200, 12000), Family(order_and_length, 60, 600), Family(long_histories, 16, 160)],
    ["binary labels 0/1; precision and recall get binary predictions; AUPR without an anomaly is not compared"])
