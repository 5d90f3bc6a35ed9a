"""C05: windows and running statistics reflect exactly the last window_size values."""
import numpy as np

from ..common import Check, Family
from . import c04


def windows(case):
    from pysad.utils.window import Window, UnlimitedWindow
    unlimited = case.flip(0.15)
    W = case.pick([1, 2, 3, 5, 10, 33, 100, 1000])
    n = case.pick([0, 1, W - 1, W, W + 1, 2 * W, 3 * W + 1, case.int(0, 150)])
    kind = case.pick(["unique", "dups", "none", "array", "falsy"])
    win = UnlimitedWindow() if unlimited else Window(W)
    case.describe(unlimited=unlimited, W=W, n=n, items=kind)
    hist = []
    for k in range(n + 1):
        if k:
            it = {"unique": k, "dups": k % 2, "none": None if k % 3 == 0 else k, "array": np.array([k, k % 2]),
                  "falsy": [0, "", False, 0.0][k % 4]}[kind]
            win.update(it)
            hist.append(it)
            case.see("update")
        if case.flip(0.6) or k == n:
            want = hist if unlimited else hist[-W:]
            got = win.get()
            case.check(isinstance(got, list) and len(got) == len(want) and all(g is e or g == e for g, e in zip(got, want)),
                       "window does not hold the last items in order", got=got, want=want, step=k)
            if case.flip(0.3):
                again = win.get()
                case.check(len(again) == len(want), "reading the window changes it")
    case.state(unlimited, W, n, kind)


class PowerSum:
    """statistic with constructor arguments, used to observe how the running statistic builds it"""

    def __init__(self, power=1, offset=0.0):
        self.power, self.offset, self.v = power, offset, []

    def update(self, num):
        self.v.append(num)
        return self

    def remove(self, num):
        self.v.remove(num)
        return self

    def get(self):
        return sum(x ** self.power for x in self.v) + self.offset


def running_statistics(case):
    from pysad import statistics as st
    names = c04.NAMES + ["abs", "kwargs"]
    name = names[case.index % len(names)]
    W = case.pick([1, 2, 3, 4, 7, 10, 25, 60, 200])
    n = case.pick([1, W - 1 or 1, W, W + 1, 2 * W + 1, case.int(1, 120), case.int(100, 400)])
    kind = case.pick(c04.KINDS)
    pool = [case.pick([0.1, 1 / 3.0, 0.7, 5])]
    kw = {}
    if name == "abs":
        base = case.pick(c04.NAMES)
        cls, kw, reff = st.AbsStatistic, {"statistic_cls": getattr(st, base)}, lambda h: abs(c04.reference(base, h))
        # RunningStatistic(statistic_cls, ...) and AbsStatistic(statistic_cls, ...) share the name: wrap it
        inner = kw["statistic_cls"]

        def cls(inner=inner):
            return st.AbsStatistic(inner)
        kw = {}
    elif name == "kwargs":
        kw = dict(power=case.int(1, 3), offset=float(case.int(0, 5)))
        base = None
        cls, reff = PowerSum, lambda h: sum(float(x) ** kw["power"] for x in h) + kw["offset"]
    else:
        base = name
        cls, reff = getattr(st, name), lambda h: c04.reference(name, h)
    rs = st.RunningStatistic(cls, W, **kw)
    read_p = float(case.pick([0.0, 0.3, 1.0]))
    case.describe(statistic=name, base=base, W=W, n=n, values=kind, kwargs=kw, read_p=read_p)
    hist, s1, s2 = [], 0.0, 0.0
    for k in range(n):
        v = c04.value(case, kind, pool)
        r = rs.update(v)
        hist.append(v)
        case.see("update")
        if r is not rs:
            case.fail("update does not return the statistic")
        s1, s2 = s1 + 2 * abs(float(v)), s2 + 2 * float(v) ** 2
        if k == n - 1 or case.rng.rand() < read_p:
            want, got = reff(hist[-W:]), case.scalar(rs.get())
            m = min(W, len(hist))
            if base is None:
                tol = 1e-9 * (1 + sum(abs(float(x)) ** kw["power"] for x in hist[-W:]))
            else:
                tol = c04.tolerance(base, m, s1, s2, 2 * k)
            case.check(abs(got - want) <= tol, "running statistic is not the statistic of the last W values",
                       got=got, want=want, tol=tol, window=hist[-W:], step=k)
            if len(hist) > W:
                case.see("beyond_window")
                case.state(name, W, kind, k, round(got, 6))
            if case.rng.rand() < 0.1:
                case.check(case.scalar(rs.get()) == got, "reading changes the running statistic")


def long_streams(case):
    """windows of hundreds to thousands of values over drifting streams"""
    from pysad import statistics as st
    from pysad.utils.window import Window, UnlimitedWindow
    W = case.pick([90, 257, 600, 1500, 5000])
    n = W + case.int(1, 2 * W)
    v = c04.drifting(case, n)
    reads = set(case.rng.randint(0, n, 6).tolist()) | {n - 1}
    win = UnlimitedWindow() if case.flip(0.3) else Window(W)
    unl = isinstance(win, UnlimitedWindow)
    base = c04.NAMES[case.index % 8]
    rs = st.RunningStatistic(getattr(st, base), W)
    case.describe(W=W, n=n, statistic=base, unlimited=unl)
    s1, s2 = float(np.abs(v).sum()) * 2, float((v * v).sum()) * 2
    for k in range(n):
        win.update(float(v[k]))
        rs.update(float(v[k]))
        if k in reads:
            held = v[max(0, k + 1 - W):k + 1]
            case.eq(np.array(win.get()), v[:k + 1] if unl else held, "window does not hold the last items in order", step=k)
            got = case.scalar(rs.get())
            case.check(abs(got - c04.reference(base, held)) <= c04.tolerance(base, len(held), s1, s2, 2 * k),
                       "running statistic is not the statistic of the last W values", got=got, step=k)
            case.state(base, W, n, k, round(got, 6))
    case.see("update", n)


CHECK = Check(
    "C05", "exploration",
    "A case feeds one window or running statistic with a random sequence around its window boundary and compares every read with "
    "the last min(W, n) items of the recorded history. Distinct non-trivial: distinct (kind, W, n) windows and distinct "
    "(statistic, W, values, position beyond the window, value) observations.",
    [Family(windows, 600, 6000), Family(running_statistics, 1500, 20000), Family(long_streams, 32, 240)])
