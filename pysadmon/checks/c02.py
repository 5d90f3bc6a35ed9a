"""C02: batch calls of transformers and postprocessors = per-instance calls in row order."""
import numpy as np

from ..common import Check, Family
from .. import workloads as w
from .c01 import SIZES


def stub_transformer(case):
    from pysad.core.base_transformer import BaseTransformer
    n = SIZES[case.index % len(SIZES)] if case.index < 2 * len(SIZES) else case.int(0, 300)
    d = case.int(1, 5)
    out_d = case.pick([-1, 1, 2, 3, 6])
    k = d if out_d < 0 else out_d
    scalar = k == 1 and case.flip()
    log = []

    class Stub(BaseTransformer):
        def __init__(self):
            super().__init__(out_d)

        def fit_partial(self, X):
            log.append(("fit", X))
            return self

        def transform_partial(self, X):
            log.append(("transform", X))
            v = len(log) + np.arange(k) / 8.0
            return v[0] if scalar else v

    X = np.arange(n * d, dtype=np.float64).reshape(n, d)
    if case.flip():
        X = X + case.rng.rand(n, d) / 3
    if case.flip(0.5):
        X = X.astype(case.pick([np.int64, np.int32, np.float32]))
    X = w.layout(case, X)
    case.describe(n=n, d=d, output_dims=out_d, scalar=scalar)
    for op in ("fit", "transform", "fit_transform"):
        del log[:]
        s = Stub()
        out = getattr(s, op)(X)
        want = [(o, i) for i in range(n) for o in
                {"fit": ["fit"], "transform": ["transform"], "fit_transform": ["fit", "transform"]}[op]]
        case.see("calls", len(log))
        case.eq(len(log), len(want), "wrong number of per-instance calls in " + op)
        rows = []
        for c, ((o, xi), (wo, i)) in enumerate(zip(log, want)):
            if o != wo or isinstance(xi, tuple) or np.shape(xi) != (d,) or not np.array_equal(xi, X[i]):
                case.fail("call %d of %s is not %s(row %d)" % (c, op, wo, i), call=o, x=xi, row=X[i])
            if o == "transform":
                rows.append(c + 1 + np.arange(k) / 8.0)
        if op == "fit":
            case.check(out is s, "fit does not return the transformer")
        else:
            case.check(isinstance(out, np.ndarray) and out.dtype == np.float64 and out.shape == (n, k),
                       op + " result is not float64 of shape (rows, output width)", got=np.shape(out), want=(n, k))
            case.eq(out, np.array(rows).reshape(n, k), op + ": row i is not the result for row i")
        case.state(n, d, out_d, scalar, op)


def stub_postprocessor(case):
    from pysad.core.base_postprocessor import BasePostprocessor
    n = SIZES[case.index % len(SIZES)] if case.index < 2 * len(SIZES) else case.int(0, 300)
    rk = case.pick(["float", "np", "zerod", "len1", "int"])
    conv = {"float": float, "np": np.float64, "zerod": np.array, "len1": lambda v: np.array([v]), "int": int}[rk]
    unit = 3.0 if rk == "int" else 3.125
    log = []

    class Stub(BasePostprocessor):
        def fit_partial(self, score):
            log.append(("fit", score))
            return self

        def transform_partial(self, score):
            log.append(("transform", score))
            return conv(len(log) * unit)

    width = case.pick([0, 0, 3])
    scores = np.arange(n * max(1, width), dtype=np.float64) / 4
    if case.flip():
        scores = scores + case.rng.rand(len(scores)) / 3
    dtype = case.pick([np.float64, np.float64, np.float32, np.int64, np.int8])
    scores = scores.astype(dtype)
    if width:
        scores = scores.reshape(n, width)
    case.describe(n=n, returns=rk, width=width)
    for op in ("fit", "transform", "fit_transform"):
        del log[:]
        s = Stub()
        out = getattr(s, op)(scores)
        want = [(o, i) for i in range(n) for o in
                {"fit": ["fit"], "transform": ["transform"], "fit_transform": ["fit", "transform"]}[op]]
        case.see("calls", len(log))
        case.eq(len(log), len(want), "wrong number of per-instance calls in " + op)
        vals = []
        for c, ((o, si), (wo, i)) in enumerate(zip(log, want)):
            if o != wo or not np.array_equal(np.asarray(si), scores[i]):
                case.fail("call %d of %s is not %s(score %d)" % (c, op, wo, i), call=o, got=si, want=scores[i])
            if o == "transform":
                vals.append((c + 1) * unit)
        if op == "fit":
            case.check(out is s, "fit does not return the postprocessor")
        else:
            case.check(isinstance(out, np.ndarray) and out.dtype == np.float64 and out.shape == (n,),
                       op + " result is not a float64 vector with one entry per score", got=np.shape(out))
            case.eq(out, np.array(vals, dtype=float), op + ": entry i is not the result for score i")
        case.state(n, rk, width, op)


def _plan(case, n, first_fit):
    plan, i = [], 0
    while i < n:
        k = min(n - i, case.pick([1, 2, 3, 8, 15]))
        op = "fit_transform" if (i == 0 and first_fit) else case.pick(["fit", "transform", "fit_transform"])
        plan.append((op, i, i + k))
        i += k
    return plan


def retype(case, X):
    """the same kind of data with another element type"""
    if case.flip(0.6):
        return np.round(X * 3).astype(case.pick([np.int64, np.int32]))
    return X.astype(np.float32)


def real_transformer(case):
    name = w.TRANSFORMER_NAMES[case.index % len(w.TRANSFORMER_NAMES)]
    t = w.transformer(case, name)
    n = case.int(1, 40)
    X = t.gen(n)
    if case.flip(0.3):
        X = retype(case, X)
    plan = _plan(case, n, False)
    case.describe(transformer=name, cfg=t.cfg, d=t.d, plan=plan)
    case.reseed("twin")
    a = t.ctor()
    outs = [getattr(a, op)(X[i:j]) for op, i, j in plan]
    case.reseed("twin")
    b = t.ctor()
    for (op, i, j), got in zip(plan, outs):
        rows = []
        for k in range(i, j):
            case.see("partial_calls")
            if op == "fit":
                case.check(b.fit_partial(X[k]) is b, "fit_partial does not return the transformer")
            else:
                rows.append(np.asarray(getattr(b, op + "_partial")(X[k]), dtype=float).reshape(-1))
        if op == "fit":
            case.check(got is a, "fit does not return the transformer")
        else:
            case.check(isinstance(got, np.ndarray) and got.dtype == np.float64, op + " result is not a float64 array")
            case.close(got, np.array(rows), "%s.%s differs from per-instance calls" % (name, op), rtol=t.rtol)
            case.state(name, op, np.round(got, 6))


def real_postprocessor(case):
    names = w.POST_NAMES + w.ENS_NAMES
    name = names[case.index % len(names)]
    s = w.post(case, name)
    n = case.int(1, 60)
    X = s.gen(n)
    if case.flip(0.3):
        X = retype(case, X)
    plan = _plan(case, n, True)
    case.describe(postprocessor=name, cfg=s.cfg, plan=plan)
    case.reseed("twin")
    a = s.ctor()
    outs = [getattr(a, op)(X[i:j]) for op, i, j in plan]
    case.reseed("twin")
    b = s.ctor()
    for (op, i, j), got in zip(plan, outs):
        vals = []
        for k in range(i, j):
            case.see("partial_calls")
            if op == "fit":
                case.check(b.fit_partial(X[k]) is b, "fit_partial does not return the postprocessor")
            else:
                vals.append(case.scalar(getattr(b, op + "_partial")(X[k])))
        if op == "fit":
            case.check(got is a, "fit does not return the postprocessor")
        else:
            case.check(isinstance(got, np.ndarray) and got.dtype == np.float64, op + " result is not a float64 array")
            case.close(got, np.array(vals), "%s.%s differs from per-instance calls" % (name, op))
            case.state(name, op, np.round(got, 6))


CHECK = Check(
    "C02", "exploration",
    "A case is one recorded transformer/postprocessor driven by each batch call over a stream of a given length and width, or one "
    "real component whose stream is split at random into batch calls and compared with its per-instance twin. Distinct "
    "non-trivial: distinct traces (length, width, output width, call) and distinct (component, call, result) observations.",
    [Family(stub_transformer, 300, 3000), Family(stub_postprocessor, 300, 3000),
     Family(real_transformer, 400, 6000), Family(real_postprocessor, 450, 6000)],
    ["twins are run from the same state of the two global random generators"])
