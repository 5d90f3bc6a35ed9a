"""C40: invalid calls are rejected and leave no trace (twin with rejected calls against a twin without)."""
import numpy as np

from ..common import Check, Family
from .. import drivers, workloads as w


def tame(case, what, call, types=(Exception,), must=True):
    """makes the invalid call; it must raise one of the types"""
    try:
        got = call()
    except types:
        case.see("calls rejected")
        return
    except Exception as e:
        case.fail("an invalid call is not rejected by the documented error", got=repr(e), want=[t.__name__ for t in types], call=what)
    if must:
        case.fail("an invalid call is accepted", call=what, got=got)


def invalid_actions(case, d):
    """[(text, fn(obj), error types, must raise)] for the component behind driver d"""
    r = case.rng
    name, kind = d.name, d.kind
    out = []
    wrong = [np.array([]), np.array([1.0, 2.0]), np.array([3.0, -1.0, 7.0]), np.zeros(9)]

    def calls(fns, bad, types, must=True):
        for fn in fns:
            for x in bad:
                out.append(("%s(%s)" % (fn, np.asarray(x).tolist()), lambda o, fn=fn, x=x: getattr(o, fn)(x), types, must))
    if name in ("SeasonalESD", "SeasonalHybridESD"):
        calls(["fit_partial", "score_partial", "fit_score_partial"], wrong + [np.array([[4.0]]), np.float64(5.0), np.array([[1.0, 2.0]])], (ValueError,))
        calls(["fit", "score", "fit_score"], [r.randn(3, 2), r.randn(1, 3)], (ValueError,))
    elif name == "ModifiedSTLResidualTransformer":
        calls(["fit_partial", "transform_partial", "fit_transform_partial"], wrong + [np.float64(5.0), np.array([[1.0, 2.0]]), np.zeros((1, 1, 1))], (ValueError,))
        calls(["transform_window"], [r.randn(2), r.randn(3, 2), np.array([1.0])], (ValueError,))
        calls(["fit"], [r.randn(3, 2)], (ValueError,))
    elif name in ("MedianAbsoluteDeviation", "StandardAbsoluteDeviation"):
        calls(["fit_partial", "fit_score_partial"], wrong, (AssertionError, ValueError))
        calls(["fit", "fit_score"], [r.randn(3, 2), r.randn(1, 4)], (AssertionError, ValueError))
    elif name == "PerfectModel":
        out.append(("fit_partial(x, None)", lambda o: o.fit_partial(d.X[0], None), (ValueError,), True))
        out.append(("fit_score_partial(x)", lambda o: o.fit_score_partial(d.X[0]), (ValueError,), True))
        out.append(("fit(X)", lambda o: o.fit(d.X[:3]), (ValueError,), True))
        out.append(("fit_score(X)", lambda o: o.fit_score(d.X[:3]), (ValueError,), True))
    if kind == "model":
        for fn in ("fit", "fit_score"):
            for a, b in ((3, 2), (2, 3), (0, 1), (4, 0), (1, 2), (3, 1)):
                out.append(("%s(%d rows, %d labels)" % (fn, a, b),
                            lambda o, fn=fn, a=a, b=b: getattr(o, fn)(d.X[:a], np.ones(b)), (AssertionError, ValueError), True))
    if name == "AverageScoreEnsembler":
        wide = np.arange(len(np.ravel(d.X[0])) + 2.0)
        out.append(("transform_partial(more scores than weights)", lambda o: o.transform_partial(wide), (Exception,), d.cfg.get("weights") is not None))
    if kind == "meter" and name in ("MaxMeter", "MinMeter", "MedianMeter"):
        for v in (1e6, -1e6, 0.123):
            out.append(("remove(%r), never seen" % v, lambda o, v=v: o.remove(v), (ValueError,), True))
    return out


NAMES = [n for n in w.MODEL_NAMES] + ["ModifiedSTLResidualTransformer"] + ["MaxMeter", "MinMeter", "MedianMeter"] + \
    ["SeasonalESD", "SeasonalHybridESD", "ModifiedSTLResidualTransformer", "PerfectModel", "MedianAbsoluteDeviation", "StandardAbsoluteDeviation"] * 3


def twins(case):
    name = NAMES[case.index % len(NAMES)]
    d = drivers.driver(case, name)
    acts = invalid_actions(case, d)
    n = min(d.n, case.pick([3, 8, 20, d.n]))
    plan = []
    for i in range(n):
        plan.append(("bad", acts[case.int(0, len(acts) - 1)])) if case.flip(0.5) else None
        plan.append(("fit_read" if case.flip(0.3) and i + 1 >= d.warm else "fit", i))
        if i + 1 >= d.warm and case.flip(0.6):
            if name == "PerfectModel":
                continue
            plan.append(("bad", acts[case.int(0, len(acts) - 1)])) if case.flip(0.4) else None
            plan.append(("read", case.int(0, len(d.probes) - 1)))
    bads = [p for p in plan if p[0] == "bad"]
    case.describe(component=name, config=d.cfg, n=n, plan=[(p[0], p[1][0] if p[0] == "bad" else p[1]) for p in plan])
    res = []
    for with_bad in (False, True):
        case.reseed("twin")
        o = d.ctor()
        got = []
        for k, (op, a) in enumerate(plan):
            case.reseed(("twin", k))
            if op == "bad":
                if with_bad:
                    tame(case, "%s.%s" % (name, a[0]), lambda: a[1](o), a[2], a[3])
            elif op == "fit":
                d.fit(o, a)
            elif op == "read":
                got.append((k, d.read(o, a)))
            else:
                got.append((k, d.fit_read(o, a)))
        for p in range(min(3, len(d.probes))):
            if name == "PerfectModel":
                break
            case.reseed(("end", p))
            if n >= d.warm:
                got.append(("end", d.read(o, p)))
        res.append(got)
    for (k, a), (_, b) in zip(*res):
        case.eq(b, a, "a rejected call changed later results", step=k, component=name)
    case.see("results compared", len(res[0]))
    if bads:
        case.state(name, len(bads), [b[1][0] for b in bads][:4], n)


def perfect(case):
    """scores of the oracle model come back label by label, whatever was rejected in between"""
    from pysad.models import PerfectModel
    m = PerfectModel()
    want = []
    case.describe(log=[])
    for k in range(case.int(3, 40)):
        op = case.pick(["fit", "fit", "bad", "score", "both", "early"])
        case.desc["log"].append(op)
        x = case.rng.randn(2)
        if op == "fit":
            v = float(case.int(0, 1))
            m.fit_partial(x, v)
            want.append(v)
        elif op == "bad":
            tame(case, "PerfectModel.fit_partial(x, None)", lambda: m.fit_partial(x, None), (ValueError,))
        elif op == "early":
            if not want:
                tame(case, "PerfectModel.score_partial(x) without label", lambda: m.score_partial(x), (Exception,))
        elif op == "score" and want:
            case.eq(m.score_partial(x), want.pop(0), "the oracle model returns another instance's label", step=k)
        elif op == "both":
            v = float(case.int(0, 1))
            want.append(v)
            case.eq(m.fit_score_partial(x, v), want.pop(0), "the oracle model returns another instance's label", step=k)
    case.state(case.desc["log"])


def metrics(case):
    """asking for an undefined value is refused and forgotten"""
    from pysad.evaluation import AUROCMetric
    from sklearn.metrics import roc_auc_score
    m = AUROCMetric()
    r = case.rng
    ys, ps = [], []
    n = case.int(2, 40)
    mixed = case.int(1, n)
    first = case.int(0, 1)
    case.describe(n=n, mixed=mixed)
    for i in range(n):
        if i % 3 == 0 and len(set(ys)) <= 1:
            tame(case, "AUROCMetric.get() with %d classes" % len(set(ys)), m.get, (ValueError,))
        y = first if i < mixed else int(r.randint(0, 2))
        p = float(r.randint(-5, 6))
        m.update(y, p)
        ys.append(y)
        ps.append(p)
        if len(set(ys)) == 2 and case.flip():
            case.close(m.get(), roc_auc_score(ys, ps), "AUROC after refused reads is not that of the whole history", rtol=1e-12, step=i)
        elif len(set(ys)) == 1 and case.flip(0.3):
            tame(case, "AUROCMetric.get() with one class", m.get, (ValueError,))
    case.state(n, mixed, len(set(ys)))


def streamers(case):
    """features and labels of different length are refused before anything is delivered, and the streamer stays usable"""
    import pandas as pd
    from pysad.utils import ArrayStreamer, PandasStreamer
    r = case.rng
    pandas = case.flip()
    shuffle = case.flip()
    s = (PandasStreamer if pandas else ArrayStreamer)(shuffle=shuffle)
    case.describe(pandas=pandas, shuffle=shuffle)
    for _ in range(case.int(1, 5)):
        n, m = case.int(0, 8), case.int(0, 8)
        X, y = r.randn(n, 2), np.arange(m) * 1.0
        if pandas:
            Xa, ya = pd.DataFrame(X), pd.Series(y)
        else:
            Xa, ya = X, y
        if n != m:
            got = []

            def go():
                for item in s.iter(Xa, ya):
                    got.append(item)
            tame(case, "iter(%d rows, %d labels)" % (n, m), go, (AssertionError, ValueError))
            case.eq(len(got), 0, "instances were delivered before the mismatch was refused", n=n, m=m)
        else:
            got = list(s.iter(Xa, ya))
            case.eq(sorted((float(x[0]), float(v)) for x, v in got), sorted((float(X[i, 0]), float(y[i])) for i in range(n)),
                    "a streamer does not deliver everything after a refused call", n=n)
        case.state(pandas, shuffle, n, m)


def constructors(case):
    """configurations outside the documented domain are refused, those inside are accepted"""
    from pysad import models as pm
    from pysad.transform import preprocessing as pp
    r = case.rng
    which = case.pick(["SeasonalESD", "SeasonalHybridESD", "ModifiedSTLResidualTransformer", "SeasonalTrendDecomposer", "StandardAbsoluteDeviation"])
    if which in ("SeasonalESD", "SeasonalHybridESD"):
        p, W = case.int(0, 6), case.int(1, 40)
        k = case.pick([-1, 0, 1, 2, int(W * 0.49), int(W * 0.49) + 1, W])
        alpha = case.pick([0.05, 0.5, 0.999, 1e-6, 0.0, 1.0, -0.1, 1.5, float("nan"), float("inf")])
        ok = k >= 1 and W >= 2 * p and p >= 2 and k <= int(W * 0.49) and 0 < alpha < 1
        args = dict(period=p, window_size=W, max_anomalies=k, alpha=alpha)
        cls = getattr(pm, which)
    elif which == "ModifiedSTLResidualTransformer":
        p, W = case.int(-1, 8), case.pick([None, case.int(0, 20)])
        ok = p >= 2 and (W is None or W >= 2 * p)
        args = dict(period=p, window_size=W)
        cls = pp.ModifiedSTLResidualTransformer
    elif which == "SeasonalTrendDecomposer":
        p, W = case.int(-2, 8), case.pick([None, case.int(-2, 9)])
        ok = p >= 1 and (W is None or W >= 1)
        args = dict(season_length=p, trend_window=W)
        cls = pp.SeasonalTrendDecomposer
    else:
        s = case.pick(["mean", "median", "mode", "Mean", "", None, "max", "medians"])
        ok = s in ("mean", "median")
        args = dict(substracted_statistic=s)
        cls = pm.StandardAbsoluteDeviation
    case.describe(component=which, config=args, valid=ok)
    if ok:
        try:
            cls(**args)
        except Exception as e:
            case.fail("a configuration inside the documented domain is refused", got=repr(e))
        case.check(True, "")
    else:
        tame(case, "%s(%r)" % (which, args), lambda: cls(**args), (ValueError,))
    case.state(which, args)


def offline(case):
    """a residual transformer without window serves whole arrays only"""
    from pysad.transform.preprocessing import ModifiedSTLResidualTransformer
    r = case.rng
    p = case.int(2, 5)
    t, u = ModifiedSTLResidualTransformer(p), ModifiedSTLResidualTransformer(p)
    case.describe(period=p)
    for _ in range(case.int(1, 4)):
        op = case.pick(["fit_partial", "transform_partial", "fit_transform_partial"])
        tame(case, "%s without window_size" % op, lambda: getattr(t, op)(r.randn(1)), (ValueError,))
        X = r.randn(case.int(2 * p, 6 * p))
        case.eq(t.transform_window(X), u.transform_window(X), "a refused call changed later results")
        short = r.randn(case.int(1, 2 * p - 1))
        tame(case, "transform_window(%d values, period %d)" % (len(short), p), lambda: t.transform_window(short), (ValueError,))
        case.state(p, op, len(X), len(short))


CHECK = Check(
    "C40", "exploration",
    "A case drives twins of a component through the same life; one also receives invalid calls at random points (instances of the wrong "
    "length, missing labels, features and labels of different length, values never seen, undefined metrics). Every invalid call must raise "
    "its documented error and every later result must be bit-identical to the twin that never saw it; constructors accept exactly the "
    "documented domain. Distinct non-trivial: distinct (component, rejected calls, length).",
    [Family(twins, 8 * len(NAMES), 80 * len(NAMES)), Family(perfect, 60, 600), Family(metrics, 60, 800), Family(streamers, 60, 800),
     Family(constructors, 500, 5000), Family(offline, 15, 150)],
    ["invalid calls are those the code or its documentation names; arbitrary garbage types are not tried",
     "an update of a windowed AUROC that completes a window of one class is outside the property"])
