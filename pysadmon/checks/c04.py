"""C04: meters against the batch definition over the multiset of held values."""
import numpy as np

from ..common import Check, Family

NAMES = ["SumMeter", "CountMeter", "AverageMeter", "MaxMeter", "MinMeter", "MedianMeter", "SumSquaresMeter", "VarianceMeter"]


def reference(name, held):
    """definition on the held multiset; None where undefined (no values held)"""
    v = np.array(sorted(float(x) for x in held), dtype=np.longdouble)
    n = len(v)
    if name == "CountMeter":
        return float(n)
    if name == "SumMeter":
        return float(v.sum())
    if name == "SumSquaresMeter":
        return float((v * v).sum())
    if n == 0:
        return None
    if name == "AverageMeter":
        return float(v.sum() / n)
    if name == "MaxMeter":
        return float(v[-1])
    if name == "MinMeter":
        return float(v[0])
    if name == "MedianMeter":
        return float(v[n // 2]) if n % 2 else float((v[n // 2] + v[n // 2 - 1]) / 2)
    if name == "VarianceMeter":
        m = v.sum() / n
        return float(((v - m) ** 2).sum() / n)
    raise ValueError(name)


def tolerance(name, n, s1, s2, ops):
    """bound on the rounding of incremental accumulation: s1 = sum |v|, s2 = sum v^2 over all operations"""
    u = 4e-16 * (ops + 8)
    if name in ("CountMeter", "MaxMeter", "MinMeter"):
        return 0.0
    if name == "SumMeter":
        return u * s1
    if name == "AverageMeter":
        return u * s1 / max(n, 1)
    if name == "SumSquaresMeter":
        return u * s2
    if name == "MedianMeter":
        return 4e-16 * s1
    if name == "VarianceMeter":
        return u * (s2 / n + 2 * (s1 / n) * (s1 / n))
    raise ValueError(name)


def make(name, absolute):
    from pysad import statistics as st
    cls = getattr(st, name)
    return st.AbsStatistic(statistic_cls=cls) if absolute else cls()


def value(case, kind, pool):
    r = case.rng
    if kind == "int":
        v = int(r.randint(-20, 21))
    elif kind == "npint":
        v = np.int64(r.randint(-3, 4))
    elif kind == "ties":
        v = float(r.randint(0, 3))
    elif kind == "dyadic":
        v = float(r.randint(-4096, 4097)) / 64
    elif kind == "const":
        v = pool[0]
    elif kind == "float":
        v = float(r.randn())
    elif kind == "np":
        v = np.float64(r.randn() * 10)
    elif kind == "neg":
        v = -float(r.rand()) - 1
    elif kind == "offset":
        v = 1e6 + float(r.randn())
    elif kind == "tiny":
        v = float(r.randn() * 1e-7)
    elif kind == "huge":
        v = float(r.randn() * 1e8)
    elif kind == "zeros":
        v = float(r.choice([0.0, 0.0, -0.0, 1.5, -2.25]))
    elif kind == "mixed":
        v = float(r.randn() * 10.0 ** r.randint(-4, 5))
    else:
        raise ValueError(kind)
    return v


KINDS = ["int", "npint", "ties", "dyadic", "const", "float", "np", "neg", "offset", "mixed", "tiny", "huge", "zeros"]


def drive(case, name, absolute, n_ops, every=1):
    kind = case.pick(KINDS)
    pool = [case.pick([0.1, 0.3, 1 / 3.0, 0.7, -2.7, 1e5 + 0.1, 3])]
    removal = case.pick(["any", "fifo", "lifo", "drain", "max", "min", "never"])
    p_rm = {"never": 0.0, "drain": 0.5}.get(removal, float(case.pick([0.1, 0.3, 0.5, 0.6])))
    m = make(name, absolute)
    held, s1, s2 = [], 0.0, 0.0
    case.describe(meter=name, absolute=absolute, values=kind, removal=removal, p_remove=p_rm, ops=n_ops)
    draining = False
    for k in range(n_ops):
        if removal == "drain" and k % 25 == 12:
            draining = True
        rm = held and (draining or case.rng.rand() < p_rm)
        if rm:
            if removal == "fifo":
                i = 0
            elif removal == "lifo":
                i = len(held) - 1
            elif removal == "max":
                i = int(np.argmax(held))
            elif removal == "min":
                i = int(np.argmin(held))
            else:
                i = case.int(0, len(held) - 1)
            v = held.pop(i)
            r = m.remove(v)
            case.see("remove")
            if not held:
                draining = False
                case.see("emptied")
        else:
            v = value(case, kind, pool)
            held.append(v)
            r = m.update(v)
            case.see("update")
        if r is not m:
            case.fail("update/remove does not return the meter")
        s1 += abs(float(v))
        s2 += float(v) ** 2
        if k % every:
            continue
        want = reference(name, held)
        if want is None:
            continue
        if absolute:
            want = abs(want)
        got = case.scalar(m.get())
        tol = tolerance(name, len(held), s1, s2, k)
        case.check(abs(got - want) <= tol, "%s is not the statistic of the held values" % name,
                   got=got, want=want, tol=tol, held=held, step=k)
        if name == "VarianceMeter":
            case.check(got >= 0, "negative variance", got=got, held=held)
        if case.rng.rand() < 0.2:
            again = case.scalar(m.get())
            case.check(again == got, "get() changes the value", first=got, second=again)
        if len(held) > 1:
            case.state(name, absolute, kind, removal, len(held), round(got, 6))


def histories(case):
    drive(case, NAMES[case.index % 8], case.flip(0.25), case.int(1, 120))


def long_histories(case):
    drive(case, NAMES[case.index % 8], case.flip(0.25), 3000 if case.tier == "thorough" else 1200, every=case.pick([1, 7, 50]))


def window_like(case):
    """fill, then remove in arrival order: the pattern of running statistics"""
    name = NAMES[case.index % 8]
    W = case.int(1, 6)
    m = make(name, False)
    held, s1, s2 = [], 0.0, 0.0
    kind = case.pick(KINDS)
    pool = [case.pick([0.1, 1 / 3.0, 5])]
    case.describe(meter=name, window=W, values=kind)
    for k in range(case.int(1, 60)):
        v = value(case, kind, pool)
        m.update(v)
        held.append(v)
        s1, s2 = s1 + abs(float(v)), s2 + float(v) ** 2
        if len(held) > W:
            m.remove(held.pop(0))
        want, got = reference(name, held), case.scalar(m.get())
        case.check(abs(got - want) <= tolerance(name, len(held), 2 * s1, 2 * s2, 2 * k),
                   "%s is not the statistic of the held values" % name, got=got, want=want, held=held)
        case.check(name != "VarianceMeter" or got >= 0, "negative variance", got=got)
    case.state(name, W, kind, round(got, 6))


def drifting(case, n):
    """values whose scale and level change for good during the stream (exact in floating point)"""
    r = case.rng
    cut = sorted(r.randint(0, n + 1, 2))
    v = np.concatenate([r.randint(0, 400, cut[0]) + 600, -r.randint(0, 50, cut[1] - cut[0]) - 200, r.randint(-8, 9, n - cut[1])]) / 4.0
    return v if case.flip() else v[::-1].copy()


def many(case):
    """thousands of held values"""
    name = NAMES[case.index % 8]
    n = case.pick([1100, 2500, 5000, 9000])
    v = drifting(case, n)
    m = make(name, False)
    W = case.pick([None, None, n // 2, 700])
    reads = set(case.rng.randint(0, n, 6).tolist()) | {n - 1}
    case.describe(meter=name, n=n, window=W)
    s1, s2 = float(np.abs(v).sum()) * 2, float((v * v).sum()) * 2
    for k in range(n):
        m.update(float(v[k]))
        if W and k >= W:
            m.remove(float(v[k - W]))
        if k in reads:
            held = v[max(0, k + 1 - W):k + 1] if W else v[:k + 1]
            got = case.scalar(m.get())
            case.check(abs(got - reference(name, held)) <= tolerance(name, len(held), s1, s2, 2 * k), "%s is not the statistic of the held values" % name,
                       got=got, want=reference(name, held), step=k, held=len(held))
            case.state(name, n, W, k, round(got, 6))
    case.see("update", n)


CHECK = Check(
    "C04", "exploration",
    "A case drives one meter through a random update/remove history (value kind x removal discipline) and compares get() with the "
    "definition over the shadow multiset after every operation (extended precision; tolerance from the rounding bound of "
    "incremental accumulation, zero for integer-exact statistics). Distinct non-trivial: distinct (meter, value kind, removal, "
    "held count >= 2, value) observations.",
    [Family(histories, 1600, 30000), Family(long_histories, 48, 800), Family(window_like, 400, 8000), Family(many, 32, 240)],
    ["values are finite reals; float32 accumulation is out of scope"])
