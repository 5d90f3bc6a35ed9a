"""C10: windowed metrics = mean of the metric over consecutive disjoint blocks."""
import numpy as np

from ..common import Check, Family
from . import c09


def make_metric(log):
    from pysad.core.base_metric import BaseMetric

    class Recorder(BaseMetric):
        """metric with arguments; logs construction and updates of every window"""

        def __init__(self, a=1.0, b=0.0):
            self.a, self.b, self.pairs = a, b, []
            log.append(self)

        def update(self, y_true, y_pred):
            self.pairs.append((y_true, y_pred))
            return self

        def get(self):
            return self.a * float(np.mean([t * 2.0 + p for t, p in self.pairs])) + self.b

    return Recorder


def expected(blocks, W, value, ignore_last):
    """blocks: list of lists of pairs (the last may be incomplete, never empty)"""
    full = [b for b in blocks if len(b) == W]
    if not full:
        return value(blocks[-1])
    use = full if (ignore_last or len(blocks[-1]) == W) else blocks
    return float(np.mean([value(b) for b in use]))


def recorded(case):
    from pysad.evaluation import WindowedMetric
    log = []
    R = make_metric(log)
    W = case.pick([1, 2, 3, 4, 7, 10, 25, 100])
    n = case.pick([1, W - 1 or 1, W, W + 1, 2 * W, 2 * W + 1, 3 * W - 1 or 1, case.int(1, 70)])
    kw = case.pick([{}, {"a": 3.0}, {"b": 5.0}, {"a": -2.0, "b": 1.5}])
    ig = case.pick([True, False, "default"])
    m = WindowedMetric(R, W, **kw) if ig == "default" else WindowedMetric(R, W, ignore_nonempty_last=ig, **kw)
    ignore = ig in (True, "default")
    read_p = float(case.pick([0.0, 0.5, 1.0]))
    case.describe(W=W, n=n, kwargs=kw, ignore=ig, read_p=read_p)
    pairs = [(int(case.flip()), float(case.int(-8, 8)) / 4) for _ in range(n)]
    val = lambda b: kw.get("a", 1.0) * float(np.mean([t * 2.0 + p for t, p in b])) + kw.get("b", 0.0)
    for k, (t, p) in enumerate(pairs):
        m.update(t, p)
        case.see("update")
        if k == n - 1 or case.rng.rand() < read_p:
            done = pairs[:k + 1]
            blocks = [done[i:i + W] for i in range(0, len(done), W)]
            want = expected(blocks, W, val, ignore)
            got = case.scalar(m.get())
            case.close(got, want, "windowed metric is not the mean over disjoint blocks", rtol=1e-9, atol=1e-9,
                       pairs=done, step=k + 1)
            case.state(W, k + 1, kw, ig, round(got, 6))
            if case.flip(0.2):
                case.check(case.scalar(m.get()) == got, "reading changes the windowed metric")
    # what the wrapped metrics saw: each pair exactly once, in disjoint consecutive blocks
    seen = [inst.pairs for inst in log if inst.pairs]
    if sum(len(b) for b in seen) == n:       # an implementation may also buffer pairs itself
        case.check(seen == [pairs[i:i + W] for i in range(0, n, W)], "windows do not partition the stream", got=seen)
        case.see("window_traces")
    for inst in log:
        case.check((inst.a, inst.b) == (kw.get("a", 1.0), kw.get("b", 0.0)), "a window's metric lost its arguments",
                   got=(inst.a, inst.b))


def real_metrics(case):
    from pysad import evaluation as ev
    name = c09.NAMES[case.index % 4]
    W = case.int(2, 12)
    nb = case.int(1, 5)
    tail = case.int(0, W - 1)
    n = nb * W + tail
    y, s, kind, _ = c09.stream(case, name, n)
    # every block (and a tail of at least two) contains both classes and a positive prediction
    for i in range(0, n, W):
        j = min(n, i + W)
        if j - i >= 2:
            a, b = case.rng.permutation(np.arange(i, j))[:2]
            y[a], y[b] = 0, 1
            if name in c09.NAMES[:2]:
                s[b] = 1
    ignore = case.flip()
    m = ev.WindowedMetric(getattr(ev, name), W, ignore_nonempty_last=ignore)
    case.describe(metric=name, W=W, n=n, ignore=ignore, scores=kind)
    for k in range(n):
        m.update(int(y[k]), s[k] if name in c09.NAMES[2:] else int(s[k]))
        case.see("update")
        idx = [(i, min(k + 1, i + W)) for i in range(0, k + 1, W)]
        full = [(i, j) for i, j in idx if j - i == W]
        use = idx if (not full or (not ignore)) else full
        vals = [c09.reference(name, y[i:j], s[i:j]) for i, j in use]
        if any(v is None for v in vals):
            continue
        got = case.scalar(m.get())
        case.close(got, float(np.mean(vals)), "windowed %s is not the mean over blocks" % name, rtol=1e-9, y=y[:k + 1], s=s[:k + 1])
        case.state(name, W, k + 1, ignore, kind, round(got, 9))


def many_blocks(case):
    """hundreds of blocks, or blocks of hundreds of pairs, with drifting quality"""
    from pysad import evaluation as ev
    name = c09.NAMES[case.index % 4]
    W = case.pick([2, 5, 20, 300, 1200])
    nb = max(2, int(case.pick([1500, 4000]) / W))
    n = nb * W + case.int(0, W - 1)
    y = np.arange(n) % 2
    y = np.concatenate([case.rng.permutation(y[i:i + W]) for i in range(0, n, W)])
    good = np.linspace(0.3, 0.9, n)
    if name in c09.NAMES[:2]:
        s = np.where(case.rng.rand(n) < good, y, 1 - y)
        for i in range(0, n, W):        # one positive prediction in every block
            s[i + case.int(0, min(W, n - i) - 1)] = 1
    else:
        s = case.rng.randn(n) + 2 * y * (good - 0.5)
    ignore = case.flip()
    m = ev.WindowedMetric(getattr(ev, name), W, ignore_nonempty_last=ignore)
    case.describe(metric=name, W=W, n=n, ignore=ignore)
    for k in range(n):
        m.update(int(y[k]), s[k] if name in c09.NAMES[2:] else int(s[k]))
    case.see("update", n)
    blocks = [(i, min(n, i + W)) for i in range(0, n, W)]
    if ignore:
        blocks = [b for b in blocks if b[1] - b[0] == W]
    vals = [c09.reference(name, y[i:j], s[i:j]) for i, j in blocks]
    if any(v is None for v in vals):
        case.check(True, "")
        return
    case.close(case.scalar(m.get()), float(np.mean(vals)), "windowed %s is not the mean over blocks" % name, rtol=1e-9)
    case.state(name, W, n, ignore)


CHECK = Check(
    "C10", "exploration",
    "A case drives one windowed metric (recording stub with and without arguments, or a real metric with an independent oracle) around "
    "block boundaries, reading at many positions. Distinct non-trivial: distinct (metric, W, position, arguments, tail rule, value).",
    [Family(recorded, 900, 12000), Family(real_metrics, 400, 5000), Family(many_blocks, 24, 240)],
    ["blocks on which the wrapped metric is undefined (zero denominators, single-class AUROC) are not compared"])
