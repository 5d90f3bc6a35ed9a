"""C01: batch calls of models = per-instance calls in row order."""
import numpy as np

from ..common import Check, Family
from .. import workloads as w

SIZES = [0, 1, 2, 3, 5, 17, 64, 100, 101, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 2048, 3000, 4097, 4100, 5003]


def make_stub(log, ret):
    from pysad.core.base_model import BaseModel

    class Stub(BaseModel):
        def fit_partial(self, X, y=None):
            log.append(("fit", X, y))
            return self

        def score_partial(self, X):
            log.append(("score", X, None))
            # unique, order-revealing value: number of calls so far
            return ret(len(log) * 0.5 - 100.0, X)

    return Stub()


RETS = {
    "float": lambda v, x: v,
    "int": lambda v, x: int(v),
    "np64": lambda v, x: np.float64(v),
    "np32": lambda v, x: np.float32(v),
    "zerod": lambda v, x: np.array(v),
    "len1": lambda v, x: np.array([v]),
    "one_one": lambda v, x: np.array([[v]]),
    "negative": lambda v, x: -abs(v),
    "inf": lambda v, x: -np.inf if int(v) % 3 == 0 else v,
    "nan": lambda v, x: np.nan if int(v) % 3 == 0 else v,
}


def stub_trace(case):
    n = SIZES[case.index % len(SIZES)] if case.index < 3 * len(SIZES) else case.int(0, 400)
    d = case.pick([1, 2, 5])
    X = np.arange(n * d, dtype=np.float64).reshape(n, d) * 0.25 - 3
    ids = case.pick(["unique", "random", "random", "same", "int", "f32"])
    if ids == "same":
        X = np.zeros((n, d))
    elif ids == "random":
        X = case.rng.randn(n, d)
    elif ids == "int":
        X = np.arange(n * d).reshape(n, d)
    elif ids == "f32":
        X = X.astype(np.float32)
    X = w.layout(case, X)
    ylab = case.pick(["none", "binary", "unique", "float", "zeros", "list"])
    y = {"none": None, "binary": case.rng.randint(0, 2, n), "unique": np.arange(n) * 7 - 3,
         "float": case.rng.rand(n), "zeros": np.zeros(n, dtype=int),
         "list": [int(v) for v in case.rng.randint(0, 3, n)]}[ylab]
    rk = case.pick(list(RETS))
    case.describe(n=n, d=d, labels=ylab, returns=rk, rows=ids)
    for op in ("fit", "score", "fit_score"):
        log = []
        m = make_stub(log, RETS[rk])
        if op == "fit":
            out = m.fit(X, y) if (y is not None or case.flip()) else m.fit(X)
            case.check(out is m, "fit does not return the model", op=op)
            want = [("fit", i) for i in range(n)]
        elif op == "score":
            out = m.score(X)
            want = [("score", i) for i in range(n)]
        else:
            out = m.fit_score(X, y) if (y is not None or case.flip()) else m.fit_score(X)
            want = [(o, i) for i in range(n) for o in ("fit", "score")]
        case.see("calls", len(log))
        case.eq(len(log), len(want), "wrong number of per-instance calls in " + op, op=op)
        pos = {}
        for k, ((o, xi, yi), (wo, i)) in enumerate(zip(log, want)):
            if o != wo or np.shape(xi) != (d,) or not np.array_equal(xi, X[i]):
                case.fail("call %d of %s is not %s(row %d)" % (k, op, wo, i), call=o, x=xi, row=X[i])
            if o == "fit":
                if y is None:
                    if yi is not None:
                        case.fail("label invented for row %d" % i, got=yi)
                elif yi is None or not (yi == y[i]):
                    case.fail("row %d fitted with label %r instead of %r" % (i, yi, y[i]))
            else:
                pos[i] = k + 1
        case.check(True, "")
        if op != "fit":
            case.check(isinstance(out, np.ndarray) and out.dtype == np.float64 and out.shape == (n,),
                       op + " does not return a float64 array with one entry per row",
                       got_type=type(out).__name__, shape=np.shape(out))
            exp = np.array([float(np.asarray(RETS[rk](pos[i] * 0.5 - 100.0, X[i])).reshape(-1)[0]) for i in range(n)])
            case.eq(out, exp, op + ": entry i is not the score of row i")
        case.state(n, d, ylab, rk, ids, op)


def fit_score_partial_is_fit_then_score(case):
    """order and arguments of the one-instance shortcut"""
    log = []
    m = make_stub(log, RETS["float"])
    x = case.rng.randn(case.int(1, 5))
    y = case.pick([None, 0, 1, -1, 0.5])
    case.describe(x=x, y=y)
    r = m.fit_score_partial(x, y)
    case.eq([l[0] for l in log], ["fit", "score"], "fit_score_partial is not fit then score")
    case.check(log[0][1] is x or np.array_equal(log[0][1], x), "another instance fitted")
    case.check(np.array_equal(log[1][1], x), "another instance scored")
    case.check((log[0][2] is None) if y is None else log[0][2] == y, "label lost", got=log[0][2])
    case.eq(r, 2 * 0.5 - 100.0, "another score returned")
    case.state(x.shape, y)


ORDER = [n for n in w.MODEL_NAMES if n != "Inqmad"]
ORDER = ORDER + ORDER + ["Inqmad"]


def mixed_split(case):
    """Real models: an arbitrary split of the stream into batch calls against the per-instance twin."""
    name = ORDER[case.index % len(ORDER)]
    m = w.model(case, name)
    n = {"IForestASD": 24, "KNNCAD": 140, "Inqmad": 14, "RelativeEntropy": 60}.get(name, 40)
    X = m.gen(n)
    y = w.labels(case, n) if (m.needs_y or case.flip(0.4)) else None
    plan, i = [], 0
    while i < n:
        k = min(n - i, case.pick([1, 2, 3, 7, 20]))
        if m.needs_y:
            op = "fit_score"
        elif i < max(m.warm, 1):
            op = "fit"
            k = max(k, min(n - i, m.warm))
        else:
            op = case.pick(["fit", "fit_score", "score", "fit_score"])
        plan.append((op, i, i + k))
        i += k
    esd = name.startswith("Seasonal")
    case.describe(model=name, cfg=m.cfg, d=m.d, plan=plan, labels=y is not None)
    case.reseed("twin")
    a = m.ctor()
    outs_a = []
    for op, i, j in plan:
        yy = None if y is None else y[i:j]
        if op == "fit":
            r = a.fit(X[i:j], yy)
            case.check(r is a, "fit does not return the model")
            outs_a.append(None)
        elif op == "score":
            outs_a.append(a.score(X[i:j]))
        else:
            outs_a.append(a.fit_score(X[i:j], yy))
    case.reseed("twin")
    b = m.ctor()
    for (op, i, j), got in zip(plan, outs_a):
        want = []
        for t in range(i, j):
            yt = None if y is None else y[t]
            if op == "fit":
                b.fit_partial(X[t], yt)
            elif op == "score":
                want.append(case.scalar(b.score_partial(X[t])))
            elif esd or case.flip(0.3):
                want.append(case.scalar(b.fit_score_partial(X[t], yt)))
            else:
                b.fit_partial(X[t], yt)
                want.append(case.scalar(b.score_partial(X[t])))
            case.see("partial_calls")
        if op != "fit":
            case.check(isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == (j - i,),
                       op + " result is not a float64 vector with one entry per row", got=np.shape(got))
            case.close(got, np.array(want), "%s.%s differs from per-instance calls" % (name, op), rtol=m.rtol, rows=[i, j])
            case.state(name, op, np.round(got, 6))


CHECK = Check(
    "C01", "exploration",
    "A case is one recorded model (all calls and labels logged) driven by each batch call over a stream of a given length, label "
    "kind and score return type, or one real model whose stream is split at random into batch calls and compared with its "
    "per-instance twin. Distinct non-trivial: distinct (length, width, label kind, return type, call) traces and distinct "
    "(model, call, score vector) results.",
    [Family(stub_trace, 300, 4000), Family(fit_score_partial_is_fit_then_score, 40, 200), Family(mixed_split, 615, 8200)],
    ["twins of one model are run from the same state of the two global random generators"])
