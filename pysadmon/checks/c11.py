"""C11: window-wrapped batch detectors: online trace specification of construct/fit/decision_function."""
import numpy as np

from ..common import Check, Family
from .. import workloads as w


def make_detector(log):
    class Det:
        def __init__(self, **kw):
            self.kw = kw
            self.id = len([e for e in log if e[0] == "new"])
            log.append(("new", self.id, kw))

        def fit(self, X, y=None):
            self.X = np.array(X, dtype=float)
            self.y = None if y is None else np.array(y)
            log.append(("fit", self.id, self.X.copy(), None if y is None else self.y.copy()))
            return self

        def decision_function(self, X):
            X = np.array(X, dtype=float)
            log.append(("score", self.id, X.copy()))
            return np.arange(len(X)) + 1000.0 * self.id + X[:, 0]

    return Det


def spec(seq_X, seq_y, init_X, init_y, W, S, labelled):
    """yields for every fitted prefix the expected (refit?, window X, window y)"""
    hist_X = [] if init_X is None else list(init_X)
    hist_y = None if not labelled else ([] if init_y is None else list(init_y))
    since = 0
    full = init_X is not None
    for k in range(len(seq_X)):
        hist_X.append(seq_X[k])
        if hist_y is not None:
            hist_y.append(seq_y[k])
        since += 1
        if init_X is None and (k == 0 or len(hist_X) < W):
            yield True, np.array(hist_X), None if hist_y is None else np.array(hist_y)
        elif since_refit(k, S, W, init_X):
            yield True, np.array(hist_X[-W:]), None if hist_y is None else np.array(hist_y[-W:])
        else:
            yield False, None, None


def since_refit(k, S, W, init_X):
    """instances are counted from the start of the stream: refit after every S of them"""
    return (k + 1) % S == 0


def _trace(case, W, S, init_n, labelled, stream_labelled, n, build, score_p=0.6):
    r = case.rng
    d = case.int(1, 3)
    X = r.randn(n, d)
    X[:, 0] = np.arange(n) + 1
    if case.flip(0.25):         # long runs of identical instances
        X = np.repeat(X[:max(1, n // case.int(2, 12))], case.int(4, 40), axis=0)[:n]
        n = len(X)
    initX = None if init_n is None else np.column_stack([-np.arange(init_n, 0, -1.0)] + [r.randn(init_n) for _ in range(d - 1)])
    y = r.randint(0, 2, n) if stream_labelled else None
    if y is not None and case.flip(0.2):
        y[:] = y[0]
    inity = r.randint(0, 2, init_n) if (labelled and init_n is not None) else None
    log = []
    m = build(make_detector(log), initX, inity)
    with_labels = stream_labelled and (init_n is None or inity is not None)
    if init_n is not None:
        fits = [e for e in log if e[0] == "fit"]
        case.eq(len(fits), 1, "initial window must be fitted once")
        case.eq(fits[0][2], initX, "initial fit not on the initial window")
        case.check((fits[0][3] is None) == (inity is None), "initial labels lost or invented")
        if inity is not None:
            case.eq(fits[0][3], inity, "initial labels differ")
    current = max([e[1] for e in log], default=None)
    nfit = len([e for e in log if e[0] == "fit"])
    for k, (refit, wx, wy) in enumerate(spec(X, y, initX, inity, W, S, with_labels)):
        before = len(log)
        ret = m.fit_partial(X[k], None if y is None else y[k])
        case.check(ret is m, "fit_partial does not return the model")
        new = log[before:]
        fits = [e for e in new if e[0] == "fit"]
        case.see("instances")
        if refit:
            case.see("refits")
            case.check(len(fits) == 1, "expected exactly one refit at this instance", step=k + 1, got=len(fits))
            f = fits[0]
            case.check(("new", f[1]) in [(e[0], e[1]) for e in new], "refit of an old detector object instead of a fresh one", step=k + 1)
            case.check(f[2].shape == wx.shape and np.array_equal(f[2], wx), "detector fitted on the wrong window",
                       step=k + 1, got=f[2][:, 0] if f[2].ndim == 2 else f[2], want=wx[:, 0])
            if wy is None:
                case.check(f[3] is None, "labels invented", step=k + 1, got=f[3])
            else:
                case.check(f[3] is not None and np.array_equal(f[3], wy), "detector fitted with the wrong labels", step=k + 1, got=f[3], want=wy)
            current = f[1]
            case.state(W, S, init_n, labelled, stream_labelled, k)
        else:
            case.check(len(fits) == 0, "unexpected refit", step=k + 1)
        if case.rng.rand() < score_p:
            before = len(log)
            probe = r.randn(d)
            probe[0] = case.int(-5, 5) / 4.0 if case.flip() else case.rng.randn() / 3
            s = case.scalar(m.score_partial(probe))
            case.close(s, 1000.0 * current + probe[0], "score does not come from the most recently fitted detector", step=k + 1)
            case.check(not [e for e in log[before:] if e[0] != "score"], "scoring refits the detector")
            seen = log[-1][2]
            case.check(seen.shape == (1, d) and np.array_equal(seen[0], probe), "the detector is given another instance to score", step=k + 1,
                       got=seen, want=probe)
            case.see("scores")
    return log


def reference_window(case):
    from pysad.models.integrations import ReferenceWindowModel
    W = case.pick([1, 2, 3, 4, 5, 7, 10])
    S = case.pick([1, 2, 3, max(1, W - 1), W, W + 1, 2 * W, case.int(1, 12)])
    init_n = case.pick([None, None, 1, max(1, W - 1), W, W + 3, 2 * W])
    stream_labelled = case.flip(0.4)
    labelled = stream_labelled and case.flip(0.8)
    n = case.int(1, 60)
    kw = case.pick([{}, {"alpha": 3}, {"alpha": 1, "beta": "x"}])
    case.describe(W=W, S=S, init=init_n, labels=[labelled, stream_labelled], n=n, kwargs=kw)

    def build(det, ix, iy):
        if ix is None:
            return ReferenceWindowModel(det, W, S, **kw)
        if iy is None:
            return ReferenceWindowModel(det, W, S, initial_window_X=ix, **kw)
        return ReferenceWindowModel(det, W, S, initial_window_X=ix, initial_window_y=iy, **kw)
    log = _trace(case, W, S, init_n, labelled, stream_labelled, n, build)
    for e in log:
        if e[0] == "new":
            case.check(e[2] == kw, "detector constructed without the user's arguments", got=e[2], want=kw)


def large_windows(case):
    """windows of hundreds to thousands of instances"""
    from pysad.models.integrations import ReferenceWindowModel
    W = case.pick([130, 257, 300, 600, 1500, 2600])
    S = case.pick([W, W // 3, 2 * W, 50 if W < 400 else W // 2])
    init_n = case.pick([W, W + 3, W // 2, 1]) if W > 300 or case.flip() else None
    stream_labelled = case.flip()
    labelled = stream_labelled and case.flip(0.8)
    n = case.int(W + 1, 3 * W)
    case.describe(W=W, S=S, init=init_n, labels=[labelled, stream_labelled], n=n)

    def build(det, ix, iy):
        if ix is None:
            return ReferenceWindowModel(det, W, S)
        return ReferenceWindowModel(det, W, S, ix, iy)
    _trace(case, W, S, init_n, labelled, stream_labelled, n, build, score_p=0.01)


def large_iforest(case):
    """isolation forests over windows longer than their sub-samples"""
    from pysad.models import IForestASD
    from pyod.models.iforest import IForest
    W = case.int(257, 500)
    n = W + case.int(0, 20)
    kw = dict(n_estimators=3, random_state=case.int(0, 99))
    initX = case.rng.randn(W, 2)
    X = case.rng.randn(n, 2) + case.pick([0, 5])
    X[:W // 2] += case.pick([0, 10, -10])
    m = IForestASD(initial_window_X=initX.copy(), window_size=W, **kw)
    for x in X:
        m.fit_partial(x)
    ref = IForest(**kw)
    ref.fit(X[:W])
    P = np.vstack([X[:2], X[-2:], case.rng.randn(3, 2) * 4])
    case.describe(W=W, n=n, kwargs=kw)
    case.close(np.array([case.scalar(m.score_partial(p)) for p in P]), ref.decision_function(P),
               "score is not that of an isolation forest fitted on the reference window", rtol=1e-9)
    case.see("refits", 2)
    case.state(W, n)


def iforest_asd(case):
    """IForestASD is a reference window of sliding length window_size around PyOD's IForest"""
    import pysad.models.iforest_asd as mod
    from pysad.models import IForestASD
    from pyod.models.iforest import IForest
    W = case.int(3, 8)
    n = case.int(1, 3 * W + 2)
    d = case.int(1, 3)
    init_n = case.pick([None, W, W + 2])
    X = case.rng.randn(n, d)
    initX = None if init_n is None else case.rng.randn(init_n, d)
    probes = case.rng.randn(4, d) * 2
    kw = dict(n_estimators=case.int(2, 5), random_state=case.int(0, 99))
    y = w.labels(case, n) if case.flip(0.3) else None
    case.describe(W=W, n=n, init=init_n, kwargs=kw)
    m = IForestASD(initial_window_X=None if initX is None else initX.copy(), window_size=W, **kw)
    window = initX
    for k, (refit, wx, wy) in enumerate(spec(X, None, initX, None, W, W, False)):
        m.fit_partial(X[k], None if y is None or init_n is None else y[k])
        if refit:
            window = wx
            case.see("refits")
        if refit or case.flip(0.3):
            ref = IForest(**kw)
            ref.fit(window)
            want = ref.decision_function(probes)
            got = [case.scalar(m.score_partial(p)) for p in probes]
            case.close(np.array(got), want, "score is not that of an isolation forest fitted on the reference window", rtol=1e-9, step=k + 1)
            case.state(W, k, init_n, np.round(got, 6))


def one_fit(case):
    from pysad.models.integrations import OneFitModel
    r = case.rng
    d = case.int(1, 3)
    n0 = case.int(1, 20)
    X0 = r.randn(n0, d)
    y0 = r.randint(0, 2, n0) if case.flip() else None
    kw = case.pick([{}, {"alpha": 3}, {"alpha": 1, "beta": "x"}])
    log = []
    m = OneFitModel(make_detector(log), X0, y0, **kw) if case.flip() else OneFitModel(make_detector(log), initial_X=X0, initial_y=y0, **kw)
    case.describe(n0=n0, labels=y0 is not None, kwargs=kw)
    for k in range(case.int(1, 40)):
        x = r.randn(d)
        if case.flip():
            case.check(m.fit_partial(x, case.pick([None, 0, 1])) is m, "fit_partial does not return the model")
        got = case.scalar(m.score_partial(x))
        last = [e for e in log if e[0] == "fit"][-1][1]
        case.close(got, 1000.0 * last + x[0], "score does not come from the fitted detector")
        case.see("scores")
    fits = [e for e in log if e[0] == "fit"]
    case.eq(len(fits), 1, "the detector must be fitted exactly once")
    case.eq(fits[0][2], X0, "fitted on other data")
    case.check((fits[0][3] is None) == (y0 is None) and (y0 is None or np.array_equal(fits[0][3], y0)), "labels lost or changed")
    case.check(all(e[2] == kw for e in log if e[0] == "new"), "detector constructed without the user's arguments")
    case.state(n0, y0 is None, kw, k)


CHECK = Check(
    "C11", "exploration",
    "A case runs a window-wrapped model around a recording detector with uniquely numbered instances and checks every construct, fit "
    "and decision_function event against the trace specification (refit schedule, window contents, labels, arguments, score origin); "
    "the isolation-forest model is compared with seeded PyOD forests fitted on the specified window. Distinct non-trivial: distinct "
    "(window, sliding, initial size, labels, refit position) observations.",
    [Family(reference_window, 1200, 15000), Family(iforest_asd, 60, 600), Family(one_fit, 200, 2000), Family(large_windows, 24, 240),
     Family(large_iforest, 8, 60)],
    ["labels present for all or none of the stream"])
