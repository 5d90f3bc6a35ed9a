"""C36: arrays stay their owner's: callers may overwrite what they passed in, and results never change afterwards."""
import numpy as np

from ..common import Check, Family
from .. import drivers as dr
from .. import workloads as w

ARRAYS = [n for n in w.MODEL_NAMES + w.TRANSFORMER_NAMES + w.ENS_NAMES if n != "PerfectModel"]
FAST = [n for n in ARRAYS if n not in ("Inqmad", "IForestASD")]
RETURNING = [n for n in w.MODEL_NAMES + w.TRANSFORMER_NAMES + w.ENS_NAMES + w.POST_NAMES if n != "PerfectModel"]
LEN = {"IForestASD": 10, "Inqmad": 5, "KNNCAD": 110}


def garbage(case, shape):
    k = case.int(0, 4)
    if k == 0:
        return np.full(shape, np.nan)
    if k == 1:
        return np.full(shape, 1e12)
    if k == 2:
        return np.zeros(shape)
    return case.rng.randn(*shape) * 50


def call(d, obj, op, x, y=None):
    """the library's own return value"""
    if d.kind == "model":
        if op == "fit":
            return obj.fit_partial(x, y)
        return obj.score_partial(x) if op == "read" else obj.fit_score_partial(x, y)
    if op == "fit":
        return obj.fit_partial(x)
    return obj.transform_partial(x) if op == "read" else obj.fit_transform_partial(x)


def plan(case, d):
    ops = []
    for i in range(d.n):
        if i + 1 >= d.warm and case.flip(0.3):
            ops.append(("fit_read", i))
        else:
            ops.append(("fit", i))
        if i + 1 >= d.warm:
            for _ in range(case.int(0, 2)):
                ops.append(("read", case.int(0, len(d.probes) - 1)))
    return ops


def value(v):
    return np.array(np.asarray(v), dtype=np.float64).reshape(-1)


def baseline(case, d, ops):
    case.reseed("run")
    obj, out = d.ctor(), []
    for op, i in ops:
        x = np.array((d.probes if op == "read" else d.X)[i], dtype=np.float64, copy=True)
        v = call(d, obj, op, x, None if d.y is None or op == "read" else d.y[i])
        out.append(None if op == "fit" else value(v))
    return out


def reused_buffer(case):
    """one buffer carries every instance; it holds garbage between the calls"""
    name = ARRAYS[case.index % len(ARRAYS)] if case.index % 4 else FAST[(case.index // 4) % len(FAST)]
    d = dr.driver(case, name, n=LEN.get(name))
    ops = plan(case, d)
    want = baseline(case, d, ops)
    shape = np.shape(d.X[0])
    ring = [np.zeros(shape) for _ in range(case.pick([1, 1, 2, 3]))]       # or a small ring of buffers
    if case.flip(0.3):                                                     # or rows of a matrix
        M = np.zeros((len(ring),) + shape)
        ring = [M[j] for j in range(len(ring))]
    case.describe(component=name, cfg=d.cfg, buffers=len(ring), steps=len(ops))
    case.reseed("run")
    obj = d.ctor()
    for k, (op, i) in enumerate(ops):
        buf = ring[k % len(ring)]
        buf[...] = (d.probes if op == "read" else d.X)[i]
        v = call(d, obj, op, buf, None if d.y is None or op == "read" else d.y[i])
        if op != "fit":
            case.close(value(v), want[k], "overwriting arrays passed earlier changed a later result", rtol=max(d.rtol, 1e-9), atol=1e-9,
                       component=name, step=k, op=op)
            case.see("results judged")
        if case.flip(0.8):
            buf[...] = garbage(case, shape)
            case.see("buffers overwritten")
    case.state(name, len(ring), [np.round(v, 6) for v in want if v is not None][-2:])


def batch_arrays(case):
    """arrays passed to the batch calls are overwritten as soon as the call returns"""
    name = ARRAYS[case.index % len(ARRAYS)] if case.index % 4 else FAST[(case.index // 4) % len(FAST)]
    d = dr.driver(case, name, n=LEN.get(name, 24) if name not in dr.LENGTH else LEN.get(name))
    a, b = sorted(case.rng.randint(1, d.n, 2))
    a = max(a, min(d.warm, d.n - 1))
    b = max(a, b)
    case.describe(component=name, cfg=d.cfg, cuts=[a, b])
    outs = []
    for spoil in (False, True):
        case.reseed("run")
        obj = d.ctor()
        out = []

        def give(A):
            A = np.array(A, copy=True)
            return A

        def after(*arrays):
            if spoil:
                for A in arrays:
                    if A is not None:
                        A[...] = garbage(case, A.shape).astype(A.dtype) if A.dtype.kind == "f" else 1 - A
                case.see("arrays overwritten", len(arrays))
        for lo, hi, combined in ((0, a, False), (a, b, True), (b, d.n, False)):
            if lo == hi:
                continue
            X = give(d.X[lo:hi])
            y = None if d.y is None else give(d.y[lo:hi])
            if d.kind == "model":
                r = obj.fit_score(X, y) if combined else obj.fit(X, y)
            else:
                r = obj.fit_transform(X) if combined else obj.fit(X)
            if combined:
                out.append(np.array(r, dtype=np.float64))
            after(X, y)
            P = give(d.probes)
            r = obj.score(P) if d.kind == "model" else obj.transform(P)
            out.append(np.array(r, dtype=np.float64))
            after(P)
        outs.append(out)
    for p, q in zip(*outs):
        case.close(q, p, "overwriting arrays passed earlier changed a later result", rtol=max(d.rtol, 1e-9), atol=1e-9, component=name)
    case.state(name, int(a), int(b), [np.round(np.sum(o), 6) for o in outs[0]])


CTORS = ["HalfSpaceTrees", "HalfSpaceTrees", "IForestASD", "LocalOutlierProbability", "OneFitModel", "ReferenceWindowModel",
         "ReferenceWindowModel", "RSHash"]


def constructor_arrays(case):
    """arrays passed to constructors are overwritten at some time after construction"""
    from pysad import models as pm
    from pysad.models.integrations import OneFitModel, ReferenceWindowModel
    r = case.rng
    name = CTORS[case.index % len(CTORS)]
    d = case.int(1, 5)
    n = case.int(12, 40)
    X = r.rand(n, d)
    y = r.randint(0, 2, n)
    k = case.int(2, 12)
    args = {"lo": -r.rand(d), "hi": 1 + r.rand(d), "X": r.rand(k, d), "y": r.randint(0, 2, k), "I": r.rand(20, d)}
    W, S, init, mode = case.int(2, 9), case.int(1, 9), case.flip(), case.flip()
    when = case.int(0, 6)
    case.describe(component=name, d=d, n=n, W=W, S=S, when=when)
    res = []
    for spoil in (False, True):
        A = {q: v.copy() for q, v in args.items()}
        case.reseed("run")
        if name == "HalfSpaceTrees":
            m = pm.HalfSpaceTrees(A["lo"], A["hi"], window_size=W, num_trees=3, max_depth=4, initial_window_X=A["X"] if init else None)
        elif name == "IForestASD":
            m = pm.IForestASD(initial_window_X=A["X"], window_size=W + 3, n_estimators=3)
        elif name == "LocalOutlierProbability":
            m = pm.LocalOutlierProbability(A["I"], num_neighbors=4, extent=2)
        elif name == "OneFitModel":
            m = OneFitModel(w.MeanDetector, A["X"], A["y"] if mode else None)
        elif name == "ReferenceWindowModel":
            m = ReferenceWindowModel(w.MeanDetector, W, S, initial_window_X=A["X"], initial_window_y=A["y"] if mode else None)
        else:
            m = pm.RSHash(A["lo"], A["hi"], num_components=4)
        out = []
        for i in range(n):
            if i == when and spoil:
                for v in A.values():
                    v[...] = garbage(case, v.shape) if v.dtype.kind == "f" else 1 - v
                case.see("constructor arrays overwritten", len(A))
            m.fit_partial(X[i].copy(), int(y[i]) if mode else None)
            if i > 2:
                out.append(value(m.score_partial(X[case.index * i % n].copy())))
        res.append(np.concatenate(out))
    case.close(res[1], res[0], "overwriting an array passed to the constructor changed later results", rtol=1e-9, atol=1e-9, component=name)
    case.state(name, when, np.round(res[0][-3:], 6))


def results(case):
    """results keep their values during later calls, and overwriting a result changes nothing"""
    name = RETURNING[case.index % len(RETURNING)] if case.index % 4 else RETURNING[(case.index // 4) % len(RETURNING)]
    d = dr.driver(case, name, n=LEN.get(name))
    ops = plan(case, d)
    want = baseline(case, d, ops) if d.X.ndim == 2 else None
    case.describe(component=name, cfg=d.cfg, steps=len(ops))
    kept = []
    for spoil in (False, True):
        case.reseed("run")
        obj = d.ctor()
        vals, kept = [], []
        for k, (op, i) in enumerate(ops):
            x = (d.probes if op == "read" else d.X)[i]
            if isinstance(x, np.ndarray):
                x = x.copy()
            v = call(d, obj, op, x, None if d.y is None or op == "read" else d.y[i])
            if op == "fit":
                continue
            vals.append(value(v))
            kept.append((v, value(v), k))
            if spoil and isinstance(v, np.ndarray) and v.ndim and v.flags.writeable and v.dtype.kind == "f":
                v[...] = garbage(case, v.shape)
                case.see("results overwritten")
        # batch results too
        B = np.array(d.probes, copy=True)
        case.reseed("batch")
        r1 = obj.score(B) if d.kind == "model" else obj.transform(B)
        c1 = np.array(r1, dtype=np.float64)
        if spoil:
            r1[...] = 0
        case.reseed("batch")
        r2 = obj.score(B) if d.kind == "model" else obj.transform(B)
        if d.pure:
            case.close(np.array(r2, dtype=np.float64), c1, "a repeated batch call differs", rtol=max(d.rtol, 1e-9), atol=1e-9)
        if not spoil:
            obj.fit_partial(d.X[0].copy() if isinstance(d.X[0], np.ndarray) else d.X[0], *([] if d.kind != "model" else [None]))
            case.close(np.asarray(r1, dtype=np.float64), c1, "an array returned earlier changed during later calls", rtol=0, atol=0, component=name)
            for v, c, k in kept:
                case.close(value(v), c, "a result returned earlier changed during later calls", rtol=0, atol=0, component=name, step=k)
                case.see("earlier results compared")
            first = vals
        else:
            for k, (a, b) in enumerate(zip(first, vals)):
                case.close(b, a, "overwriting a result changed a later one", rtol=max(d.rtol, 1e-9), atol=1e-9, component=name, step=k)
    if want is not None:
        for a, b in zip([v for v in want if v is not None], first):
            case.close(b, a, "harness: repetition differs", rtol=max(d.rtol, 1e-9), atol=1e-9)
    case.state(name, len(ops), [np.round(v, 6) for v in first[-2:]])


CHECK = Check(
    "C36", "exploration",
    "Twin runs of one random plan of calls: in one every call gets a fresh array that nobody touches, in the other all instances travel in "
    "one or a few buffers that are overwritten with garbage (NaN, huge, zero, noise) between the calls, batch arrays and constructor "
    "arrays are overwritten after use, or every returned array is overwritten; all results must agree, and results kept since earlier "
    "calls must still hold the values they had. Distinct non-trivial: distinct (component, plan, results).",
    [Family(reused_buffer, 160, 2000), Family(batch_arrays, 120, 1500), Family(constructor_arrays, 90, 1000), Family(results, 140, 1800)],
    ["ensembler weights are parameters, not data", "windows hand out the list of held items itself, which is not judged; the identity scaler returns the instance it was given"])
