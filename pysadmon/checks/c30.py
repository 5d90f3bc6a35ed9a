"""C30: every score is one finite number from the first instance on."""
import numpy as np

from .. import workloads as w
from ..common import Check, Family

HOSTILE = ["const", "zeros", "dups", "lattice", "heavy", "tiny", "big", "offset", "binary", "sparse", "shift", "mixed", "ramp", "twovals", "normal"]
N = {"IForestASD": 14, "Inqmad": 6, "KNNCAD": 130, "SeasonalESD": 26, "SeasonalHybridESD": 26}


def hostile(case, n, d, kind=None):
    kind = kind or case.pick(HOSTILE)
    r = case.rng
    if kind == "zeros":
        return kind, np.zeros((n, d))
    if kind == "big":
        return kind, r.randn(n, d) * 1e6
    if kind == "mixed":
        return kind, r.randn(n, d) * 10.0 ** r.randint(-6, 7, (1, d))
    if kind == "ramp":
        return kind, np.arange(n)[:, None] * r.randn(1, d)
    if kind == "twovals":
        return kind, np.where(r.rand(n, 1) < 0.1, 1.0, 0.0) * np.ones((1, d)) * r.choice([1.0, 1e5])
    return kind, w.matrix(case, n, d, kind)


def finite(case, v, what, **kw):
    a = np.asarray(v)
    case.check(a.size == 1 and a.dtype.kind in "fiub", what + " is not a single real number", value=v, **kw)
    f = float(a.reshape(-1)[0])
    case.check(np.isfinite(f), what + " is not finite", value=f, **kw)
    return f


MODELS = [n for n in w.MODEL_NAMES]


def models(case):
    name = MODELS[case.index % len(MODELS)]
    m = w.model(case, name)
    n = N.get(name, 30)
    if name == "RelativeEntropy":
        kind = case.pick(["const", "uniform", "edges"])
        X = {"const": lambda: np.full((n, 1), case.pick([0.0, 0.3, 1.0])), "uniform": lambda: case.rng.rand(n, 1),
             "edges": lambda: case.rng.choice([0.0, 0.2, 0.5, 1.0], (n, 1))}[kind]()
    else:
        kind, X = hostile(case, n, m.d)
    case.describe(model=name, cfg=m.cfg, kind=kind, d=m.d, X=X)
    obj = m.ctor()
    y = w.labels(case, n) if m.needs_y else [None] * n
    for i in range(n):
        if case.flip():
            case.check(obj.fit_partial(X[i].copy(), y[i]) is obj, "fit_partial does not return the model", step=i)
            if name == "PerfectModel" or case.flip(0.9):
                p = X[i] if not m.pure or case.flip() else X[case.int(0, n - 1)]
                v = finite(case, obj.score_partial(p.copy()), "score", step=i, model=name)
        else:
            v = finite(case, obj.fit_score_partial(X[i].copy(), y[i]), "fit_score_partial", step=i, model=name)
        case.see("scores:" + name)
    case.state(name, kind, m.cfg, round(v, 9))


TRANS = w.TRANSFORMER_NAMES


def transformers(case):
    name = TRANS[case.index % len(TRANS)]
    t = w.transformer(case, name)
    n = 24
    kind, X = hostile(case, n, t.d)
    if name == "InstanceUnitNormScaler":
        X = X + (np.abs(X).sum(1, keepdims=True) == 0)
    if name == "InstanceStandardScaler":
        X = X.copy()
        X[:, 0] += (np.ptp(X, axis=1) <= 1e-6 * np.abs(X).max(1)) * (1 + np.abs(X).max(1))
    case.describe(transformer=name, cfg=t.cfg, kind=kind, X=X)
    obj = t.ctor()
    for i in range(n):
        if case.flip():
            case.check(obj.fit_partial(X[i].copy()) is obj, "fit_partial does not return the transformer")
            out = obj.transform_partial(X[case.int(0, n - 1)].copy())
        else:
            out = obj.fit_transform_partial(X[i].copy())
        a = np.asarray(out)
        case.check(a.dtype.kind in "fiu" and bool(np.all(np.isfinite(a))), "transformed instance is not finite", step=i, out=a, name=name)
        case.see("outputs:" + name)
    case.state(name, kind, t.cfg, np.round(a, 9).tolist())


POSTS = w.POST_NAMES + w.ENS_NAMES


def posts(case):
    name = POSTS[case.index % len(POSTS)]
    s = w.post(case, name)
    n = 30
    X = s.gen(n)
    kind, H = hostile(case, n, 1 if X.ndim == 1 else X.shape[1])
    X = H[:, 0] if X.ndim == 1 else H
    case.describe(post=name, cfg=s.cfg, kind=kind, X=X)
    obj = s.ctor()
    if "ZScore" in name:
        X = np.round(X, 3)
    for i in range(n):
        W = s.cfg.get("window_size", n)
        if "ZScore" in name:
            # defined once the held scores differ (by more than rounding)
            held = np.concatenate([X[max(0, i + 1 - W):i + 1]])
            defined = np.std(held) > 1e-5 * np.abs(X[:i + 1]).max()
        else:
            defined = True
        if case.flip():
            case.check(obj.fit_partial(X[i]) is obj, "fit_partial does not return the postprocessor")
            out = obj.transform_partial(X[i])
        else:
            out = obj.fit_transform_partial(X[i])
        if defined:
            v = finite(case, out, "postprocessed score", step=i, post=name)
            case.see("outputs:" + name)
            case.state(name, kind, s.cfg, round(v, 9))
    case.check(True, "")


CHECK = Check("C30", "exploration",
              "distinct = distinct (component, stream kind, configuration, final output) executions in which every output was judged",
              [Family(models, 21 * 12, 21 * 200), Family(transformers, 8 * 10, 8 * 150), Family(posts, 15 * 8, 15 * 150)],
              ["magnitudes up to 1e6 (histogram- and hash-based models lose their bins beyond that)", "relative entropy within its configured value range",
               "unit-norm scaling of non-zero, standard scaling of non-constant instances, z-scores once the held scores differ"])
