"""C27: projectors apply one fixed linear map."""
import numpy as np

from .. import workloads as w
from ..common import Check, Family


def recover(case, t, d, k, which=None):
    """the projector's matrix (or some of its columns), read off unit vectors"""
    cols = []
    for j in range(d) if which is None else which:
        e = np.zeros(d)
        e[j] = 1.0
        y = np.asarray(t.transform_partial(e))
        case.check(y.shape == (k,), "projection is not a vector of length num_components", shape=y.shape, k=k, d=d)
        cols.append(np.array(y, dtype=float))
    return np.array(cols).T


def make(case, name, k):
    from pysad.transform import projection as pj
    if name == "streamhash":
        dens = case.pick([None, 1 / 3.0, 0.5, 0.1, 1.0, 0.8])
        return (pj.StreamhashProjector(k) if dens is None else pj.StreamhashProjector(k, dens)), dict(density=dens or 1 / 3.0)
    if name == "gaussian":
        return pj.GaussianRandomProjector(k), {}
    dens = case.pick(["auto", 0.5, 0.1, 1.0])
    return (pj.SparseRandomProjector(k) if dens == "auto" else pj.SparseRandomProjector(k, density=dens)), dict(density=dens)


NAMES = ["streamhash", "gaussian", "sparse"]


def one_matrix(case):
    """recover the matrix at a random point of a call history; every output ever seen must be that matrix times its input"""
    name = NAMES[case.index % 3]
    k, d = case.int(1, 9), case.int(1, 12)
    if case.flip(0.05):
        k, d = case.pick([(2, 300), (60, 3), (30, 70), (300, 4), (700, 2)])
    t, cfg = make(case, name, k)
    case.describe(projector=name, k=k, d=d, cfg=cfg)
    n = case.int(4, 40)
    X = w.matrix(case, n, d) * case.pick([1.0, 1e3, 1e-3])
    if case.flip(0.2):
        X = np.round(X).astype(np.int64 if case.flip() else np.float64)
    when = case.int(0, n - 1)
    seen, R = [], None
    for i in range(n):
        if i == when:
            R = recover(case, t, d, k)
        op = case.pick(["transform_partial", "fit_transform_partial", "fit_partial", "transform", "fit_transform", "noise"])
        x = X[i]
        if op == "noise":
            np.random.seed(case.int(0, 10 ** 6))  # someone else uses the global generator
        elif op == "fit_partial":
            case.check(t.fit_partial(x) is t, "fit_partial does not return the projector")
        elif op in ("transform_partial", "fit_transform_partial"):
            y = np.asarray(getattr(t, op)(x))
            case.check(y.shape == (k,), "projection is not a vector of length num_components", shape=y.shape, k=k, op=op)
            seen.append((x, np.array(y, dtype=float), op))
        else:
            lo = case.int(0, n - 1)
            B = X[lo:lo + case.int(1, 5)]
            Y = np.asarray(getattr(t, op)(B))
            case.check(Y.shape == (len(B), k), "batch projection has the wrong shape", shape=Y.shape, k=k, op=op)
            seen += [(b, np.array(y, dtype=float), op) for b, y in zip(B, Y)]
        case.see(op)
    for x, y, op in seen:
        want = R @ x
        sc = float(np.abs(R).max(initial=0) * np.abs(x).sum()) + 1e-300
        case.close(y, want, "output of %s is not the fixed matrix times the instance" % op, rtol=1e-9, atol=1e-10 * sc, x=x, R=R)
    a, b = case.rng.randn(2)
    u, v = X[case.int(0, n - 1)].astype(float), X[case.int(0, n - 1)].astype(float)
    lhs = t.transform_partial(a * u + b * v)
    rhs = a * np.asarray(t.transform_partial(u)) + b * np.asarray(t.transform_partial(v))
    sc = float(np.abs(R).max(initial=0) * (np.abs(a * u).sum() + np.abs(b * v).sum())) + 1e-300
    case.close(lhs, rhs, "the projection is not linear", rtol=1e-9, atol=1e-10 * sc)
    case.state(name, k, d, cfg, when, len(seen))


def streamhash(case):
    """entries are the hashed signs, whatever the seed, instance, component count or width"""
    import mmh3
    from pysad.transform.projection import StreamhashProjector
    k, d = case.int(1, 40), case.int(1, 40)
    if case.flip(0.12):
        k, d = case.pick([(3, 1200), (300, 5), (110, 140), (600, 3), (1100, 2), (2, 5000)])
    dens = float(case.pick([1 / 3.0, 0.5, 0.1, 1.0, 0.8, 0.02]))
    np.random.seed(case.int(0, 1000))
    t = StreamhashProjector(k, dens) if dens != 1 / 3.0 or case.flip() else StreamhashProjector(k)
    case.describe(k=k, d=d, density=dens)
    c = (1.0 / dens) ** 0.5 / k ** 0.5
    want = np.zeros((k, d))
    for a in range(k):
        for j in range(d):
            h = mmh3.hash(str(j), signed=False, seed=a) / (2.0 ** 32 - 1)
            want[a, j] = -c if h <= dens / 2 else c if h <= dens else 0.0
    for rep in range(2):
        x = w.matrix(case, 1, d)[0]
        case.close(t.transform_partial(x), want @ x, "projection is not the streamhash one", rtol=1e-9,
                   atol=1e-9 * c * (np.abs(x).sum() + 1e-300))
        if rep == 0:
            which = np.sort(case.rng.permutation(d)[:max(20, int(1e6 / (k * d)))])
            case.close(recover(case, t, d, k, which), want[:, which], "entries are not -c, 0, c by the hash of the feature position", rtol=1e-9)
    case.see("entries", k * d)
    # the same instance padded with zeros is projected to the same point
    x = case.rng.randn(d)
    case.close(t.transform_partial(np.concatenate([x, np.zeros(5)])), want @ x, "appended zero features change the projection", rtol=1e-9, atol=1e-9)
    case.state(k, d, dens)


def frequencies(case):
    """pooled entry statistics"""
    name = NAMES[case.index % 3]
    k, d = case.int(30, 60), case.int(80, 160)
    case.reseed("draw")
    t, cfg = make(case, name, k)
    R = recover(case, t, d, k)
    N = R.size
    case.describe(projector=name, k=k, d=d, cfg=cfg)
    if name == "gaussian":
        z = R.ravel() * np.sqrt(k)
        case.check(abs(z.mean()) < 6.5 / np.sqrt(N), "entries are not centred", mean=z.mean())
        case.check(abs(np.mean(z * z) - 1) < 6.5 * np.sqrt(2.0 / N), "entries do not have variance 1/num_components", var=np.mean(z * z))
        case.check(abs(np.mean(z ** 4) - 3) < 6.5 * np.sqrt(96.0 / N), "entries are not normal (kurtosis)", m4=np.mean(z ** 4))
        case.check(abs(np.mean(np.abs(z) < 1) - 0.6826894921) < 6.5 * 0.4655 / np.sqrt(N), "entries are not normal (mass within 1 sd)")
        for axis in (0, 1):
            s = z.reshape(k, d).sum(axis=axis) / np.sqrt(R.shape[axis])
            case.check(abs(np.mean(s * s) - 1) < 6.5 * np.sqrt(2.0 / len(s)), "entries of a %s are correlated" % ("column", "row")[axis])
    else:
        dens = 1 / np.sqrt(d) if cfg["density"] == "auto" else cfg["density"]
        c = np.sqrt(1 / dens) / np.sqrt(k)
        a = np.abs(R)
        case.check(bool(np.all((a < 1e-12) | (np.abs(a - c) < 1e-9 * c))), "entries are not -c, 0 or c", c=c, values=np.unique(np.round(R, 9))[:10])
        for what, got, p in (("negative", np.mean(R < -c / 2), dens / 2), ("positive", np.mean(R > c / 2), dens / 2), ("zero", np.mean(a < c / 2), 1 - dens)):
            case.check(abs(got - p) <= 6.5 * np.sqrt(p * (1 - p) / N) + 1e-12, "frequency of %s entries is off" % what, got=got, want=p)
    if name != "streamhash":
        t2, _ = make(case, "gaussian", k) if name == "gaussian" else (type(t)(k), None)
        R2 = recover(case, t2, d, k)
        case.check(not np.allclose(R, R2), "two projectors drawn one after the other have the same matrix")
    case.see("entries", N)
    case.state(name, k, d, cfg)


CHECK = Check("C27", "exploration",
              "distinct = distinct (projector, configuration, recovery point, number of outputs) histories explained by one matrix, plus distinct "
              "matrices whose entries were judged",
              [Family(one_matrix, 150, 6000), Family(streamhash, 60, 2000), Family(frequencies, 18, 240)],
              ["frequencies are judged at 6.5 standard errors on a seeded, hence deterministic, draw"])
