"""C41: bound helpers return exactly the extremes of the data, and detectors built from them cover it."""
import numpy as np

from ..common import Check, Family
from .. import workloads as w


def data(case, n=None):
    r = case.rng
    n = n or case.pick([1, 1, 2, 3, 5, 10, 100, case.int(101, 1500), case.int(1500, 9000)])
    d = case.pick([1, 1, 2, 3, 8, case.int(9, 40)])
    if n <= 1500 and case.flip(0.12):
        d = case.int(41, 300)
    kind = case.pick(["normal", "negative", "positive", "constant", "ints", "huge", "tiny", "sorted", "reversed", "spike", "cols", "inf"])
    X = r.randn(n, d)
    if kind == "negative":
        X = -np.abs(X) - 3
    elif kind == "positive":
        X = np.abs(X) + 3
    elif kind == "constant":
        X = np.full((n, d), float(case.int(-5, 5)))
    elif kind == "ints":
        X = r.randint(-100, 101, (n, d)).astype(case.pick([np.int64, np.int32, np.int8, np.uint8, np.float32]))
    elif kind == "huge":
        X = X * 1e200
    elif kind == "tiny":
        X = X * 1e-200
    elif kind == "sorted":
        X = np.sort(X, axis=0)
    elif kind == "reversed":
        X = np.sort(X, axis=0)[::-1]
    elif kind == "spike":
        X[case.int(0, n - 1), case.int(0, d - 1)] = case.pick([-1e6, 1e6])
    elif kind == "cols":
        X = X * 10.0 ** (np.arange(d) % 40) - 3 * np.arange(d)
    elif kind == "inf":
        X[case.int(0, n - 1), case.int(0, d - 1)] = case.pick([-np.inf, np.inf])
    return X, kind


def extremes(X):
    """by definition: one element of each column, none smaller / larger"""
    lo, hi = [], []
    for j in range(X.shape[1]):
        a = b = X[0, j]
        for v in X[1:, j].tolist():
            if v < a:
                a = v
            if v > b:
                b = v
        lo.append(a)
        hi.append(b)
    return np.array(lo, dtype=np.float64), np.array(hi, dtype=np.float64)


def array(case):
    from pysad.utils import get_minmax_array
    X, kind = data(case)
    X = w.layout(case, X) if case.flip(0.4) else X
    before = np.array(X)
    case.describe(shape=X.shape, kind=kind, dtype=str(X.dtype), X=before)
    got = get_minmax_array(X)
    case.eq(len(got), 2, "the bounds are not a pair")
    lo, hi = extremes(before)
    case.eq(np.asarray(got[0], dtype=np.float64), lo, "the lower bounds are not the smallest value of each feature", kind=kind)
    case.eq(np.asarray(got[1], dtype=np.float64), hi, "the upper bounds are not the largest value of each feature", kind=kind)
    case.eq(np.asarray(X), before, "the bounds helper changed its argument")
    case.see("values judged", X.size)
    case.state(kind, X.shape, str(X.dtype))


def scalar(case):
    from pysad.utils import get_minmax_scalar
    X, kind = data(case)
    shape = case.pick(["2d", "flat", "0d", "3d", "list"])
    if shape == "flat":
        X = X.ravel()
    elif shape == "0d":
        X = X.reshape(-1)[0]
    elif shape == "3d":
        X = X.reshape(X.shape + (1,))
    arg = np.asarray(X).tolist() if shape == "list" else X
    before = np.array(X)
    case.describe(shape=shape, kind=kind, X=before)
    got = get_minmax_scalar(arg)
    case.eq(len(got), 2, "the bounds are not a pair")
    lo, hi = extremes(before.reshape(-1, 1))
    case.eq(case.scalar(got[0]), lo[0], "the lower bound is not the smallest value", kind=kind)
    case.eq(case.scalar(got[1]), hi[0], "the upper bound is not the largest value", kind=kind)
    case.eq(np.asarray(X), before, "the bounds helper changed its argument")
    case.see("values judged", before.size)
    case.state(kind, shape, before.shape)


def detectors(case):
    """a detector configured from the helper equals one configured from the true extremes"""
    from pysad.utils import get_minmax_array, get_minmax_scalar
    from pysad import models as pm
    X, kind = data(case, case.pick([5, 20, 60]))
    if kind in ("inf", "huge", "constant"):
        X = case.rng.randn(*X.shape) * 4
    X = X.astype(np.float64)
    which = case.pick(["hst", "rshash", "entropy"])
    case.describe(shape=X.shape, kind=kind, which=which, X=X)
    lo, hi = extremes(X)
    if which == "entropy":
        X = X[:, :1]
        lo, hi = extremes(X)
        if hi[0] == lo[0]:
            X[0] += 1.0
            lo, hi = extremes(X)
        a, b = get_minmax_scalar(X)
        make = [lambda: pm.RelativeEntropy(a, b, 4, 3), lambda: pm.RelativeEntropy(lo[0], hi[0], 4, 3)]
    else:
        a, b = get_minmax_array(X)
        if which == "hst":
            make = [lambda: pm.HalfSpaceTrees(a, b, 5, 4, 3), lambda: pm.HalfSpaceTrees(lo, hi, 5, 4, 3)]
        else:
            make = [lambda: pm.RSHash(a, b, num_components=4), lambda: pm.RSHash(lo, hi, num_components=4)]
    res = []
    for mk in make:
        case.reseed("d")
        m = mk()
        out = []
        for i, x in enumerate(X):
            case.reseed(("d", i))
            out.append(case.scalar(m.fit_score_partial(x)))
        res.append(np.array(out))
    case.eq(res[0], res[1], "a detector configured by the bounds helper scores differently from one configured by the extremes", which=which)
    case.see("scores compared", len(X))
    case.state(which, kind, X.shape, res[0][-1])


CHECK = Check(
    "C41", "exploration",
    "A case computes the bounds of generated data (1 to 9000 rows, 1 to 300 features, all signs, magnitudes 1e-200 to 1e200, integer and "
    "float types, strided and read-only layouts, scalars, lists, 3-d arrays) with the helpers and compares them exactly with a scan that "
    "keeps the smallest and largest element; detectors configured either way are compared score by score. Distinct non-trivial: distinct "
    "(data kind, shape, type).",
    [Family(array, 250, 2500), Family(scalar, 250, 2500), Family(detectors, 80, 800)],
    ["NaN values are outside the property"])
