"""C28: instance scalers normalise each instance on its own."""
import math
from fractions import Fraction

import numpy as np

from .. import workloads as w
from ..common import Check, Family


def vector(case, d):
    kind = case.pick(["normal", "normal", "lattice", "tiny", "huge", "mixed", "offset", "int", "sparse", "neg", "f32"])
    r = case.rng
    if kind == "normal":
        return r.randn(d)
    if kind == "lattice":
        return r.randint(-3, 4, d).astype(float)
    if kind == "tiny":
        return r.randn(d) * 1e-12
    if kind == "huge":
        return r.randn(d) * 1e12
    if kind == "mixed":
        return r.randn(d) * 10.0 ** r.randint(-6, 7, d)
    if kind == "offset":
        return r.randn(d) + 1e4
    if kind == "int":
        return r.randint(-50, 50, d)
    if kind == "sparse":
        return r.randn(d) * (r.rand(d) < 0.4)
    if kind == "f32":
        return r.randn(d).astype(np.float32)
    return -np.abs(r.randn(d))


def pnorm(x, p):
    a = [abs(float(v)) for v in x]
    m = max(a)
    if p == math.inf:
        return m
    return m * math.fsum((v / m) ** p for v in a) ** (1.0 / p)


def meanstd(x):
    f = [Fraction(float(v)) for v in x]
    mu = sum(f) / len(f)
    var = sum((v - mu) ** 2 for v in f) / len(f)
    return float(mu), math.sqrt(float(var))


def stream(case, which):
    from pysad.transform import preprocessing as pp
    n = case.int(3, 14)
    d = case.pick([1, 2, 3, 7, 20]) if which != "standard" else case.pick([2, 3, 7, 20])
    V = [vector(case, d) for _ in range(n)]
    p = case.pick([None, 1, 2, 3, 1.5, 2.5, 10, math.inf, np.inf]) if which == "unit" else 2
    if case.flip(0.4):          # far out, as long as the powers of the entries can be represented
        q = 1 if p == math.inf else p or 2
        for i in range(n):
            e = case.rng.randint(-120, 141) / q
            u = np.round(case.rng.randn(d), case.pick([1, 9])) * 10.0 ** e
            V[i] = case.pick([u, -np.abs(u), np.abs(u), u])
    if case.flip(0.05):
        d = case.pick([200, 1500])
        V = [vector(case, d) for _ in range(3)]
    n = len(V)
    if which == "unit":
        t = pp.InstanceUnitNormScaler() if p is None else pp.InstanceUnitNormScaler(pow=p)
        p = 2 if p is None else p
        V = [v for v in V if np.any(v != 0)]

        def want(x):
            return np.array([float(a) for a in x]) / pnorm(x, p)
    elif which == "standard":
        p = None
        t = pp.InstanceStandardScaler()
        V = [v for v in V if np.ptp(v) > 1e-6 * np.abs(v).max()]

        def want(x):
            mu, sd = meanstd(x)
            return np.array([(float(a) - mu) / sd for a in x])
    else:
        p = None
        t = pp.IdentityScaler()
        V = [v for v in V if len(v)]

        def want(x):
            return np.array([float(a) for a in x])
    case.describe(scaler=which, p=p, d=d, V=V)

    def judge(x, y, op):
        y = np.asarray(y)
        case.check(y.shape == (d,), "result is not a vector of the instance's width", shape=y.shape)
        f32 = np.asarray(x).dtype == np.float32
        wx = want(x)
        case.close(y, wx, "%s does not normalise the instance" % op, rtol=1e-4 if f32 else 1e-8, atol=(1e-4 if f32 else 1e-8) * float(np.abs(wx).max()), x=x)
        case.see(op)
        if which == "unit" and not f32:
            case.close(pnorm(y, p), 1.0, "result does not have p-norm 1", rtol=1e-9)
        if which == "standard" and not f32:
            mu, sd = meanstd(y)
            case.close([mu, sd], [0.0, 1.0], "result does not have mean 0 and standard deviation 1", rtol=1e-7, atol=1e-7)
        case.state(which, p, d, str(np.asarray(x).dtype), op, float(np.abs(np.asarray(x, dtype=float)).max()))

    for i in range(len(V)):
        op = case.pick(["transform_partial", "fit_transform_partial", "fit_partial", "transform", "fit_transform"])
        if op == "fit_partial":
            t.fit_partial(V[i].copy())
        elif op in ("transform_partial", "fit_transform_partial"):
            judge(V[i], getattr(t, op)(V[i].copy()), op)
        else:
            B = [np.asarray(v, dtype=float) for v in V[:i + 1]]
            Y = getattr(t, op)(np.array(B))
            case.check(len(Y) == len(B), "batch result has another number of rows")
            for b, y in zip(B, Y):
                judge(b, y, op)
    for v in V[:3]:  # whatever came before
        judge(v, t.transform_partial(v.copy()), "transform_partial")
    case.check(True, "")


def unit(case):
    stream(case, "unit")


def standard(case):
    stream(case, "standard")


def identity(case):
    stream(case, "identity")


CHECK = Check("C28", "exploration",
              "distinct = distinct (scaler, p, width, dtype, call, magnitude) observations compared with exact rational / scaled arithmetic",
              [Family(unit, 200, 4000), Family(standard, 200, 4000), Family(identity, 24, 400)],
              ["the p-th powers of the entries are representable (no overflow or underflow inside the norm)"])
