"""C42: separate objects may be used from concurrent threads (seeded line-level scheduler)."""
import copy
import os
import random
import sys
import threading

import numpy as np

from ..common import REPO, Check, Family
from .. import drivers

ROOT = os.path.join(os.path.realpath(REPO), "pysad") + os.sep


class Baton:
    """Only the holder runs.  At every line of pysad a seeded coin decides whether the baton moves on.

    Each thread sees its own process-wide random generators: their state is kept and put back around a
    switch, so that components that draw random numbers can be compared with their lonely runs as well.

    A thread that does not get the baton back in time (the holder waits for a lock, say) runs freely:
    the results must not depend on the schedule, so this can never raise a false alarm."""

    patience = 8.0

    def __init__(self, n, seed, p):
        self.rng = random.Random(seed)
        self.ev = [threading.Event() for _ in range(n)]
        self.alive = set(range(n))
        self.p, self.switches, self.trace, self.free = p, 0, [], False
        self.lines = 0
        self.lock = threading.Lock()

    def hand(self, me):
        others = sorted(self.alive - {me})
        if not others:
            return None
        return others[self.rng.randrange(len(others))]

    def wait(self, me, draws=None):
        draws = draws or (np.random.get_state(), random.getstate())
        if not self.ev[me].wait(Baton.patience):
            self.free = True
            Baton.patience = 0.3
            for e in self.ev:
                e.set()
        self.ev[me].clear()
        np.random.set_state(draws[0])
        random.setstate(draws[1])

    def point(self, me, where):
        if self.free:
            return
        with self.lock:
            self.lines += 1
            to = self.hand(me) if self.rng.random() < self.p else None
            if to is not None:
                self.switches += 1
                if len(self.trace) < 4000:
                    self.trace.append((me, to, where))
        if to is not None:
            draws = (np.random.get_state(), random.getstate())
            self.ev[to].set()
            self.wait(me, draws)

    def done(self, me):
        with self.lock:
            self.alive.discard(me)
            to = self.hand(me)
        if to is not None:
            self.ev[to].set()


def concurrently(jobs, seed, p, draws):
    """runs the jobs in threads under a baton; returns (results or exceptions, baton)"""
    b = Baton(len(jobs), seed, p)
    out = [None] * len(jobs)

    def body(me):
        files = {}

        def local(frame, event, arg):
            if event == "line":
                b.point(me, (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            return local

        def tracer(frame, event, arg):
            f = frame.f_code.co_filename
            ours = files.get(f)
            if ours is None:
                ours = files[f] = os.path.realpath(f).startswith(ROOT)
            return local if ours else None
        b.wait(me, draws[me])
        sys.settrace(tracer)
        try:
            out[me] = ("ok", jobs[me]())
        except BaseException as e:  # noqa
            out[me] = ("error", repr(e))
        finally:
            sys.settrace(None)
            b.done(me)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    for t in ts:
        t.start()
    b.ev[0].set()
    for t in ts:
        t.join()
    return out, b


def life(d, obj, plan):
    out = []
    for op, a in plan:
        if op == "fit":
            d.fit(obj, a)
        elif op == "read":
            out.append(d.read(obj, a))
        elif op == "batch":
            v = d.batch_read(obj, a)
            out.append(np.array(v, dtype=np.float64).reshape(-1) if v is not None else np.zeros(0))
        else:
            out.append(d.fit_read(obj, a))
    return out


SLOW = ("Inqmad", "IForestASD")
WINDOWED = ("SeasonalESD", "SeasonalHybridESD", "ModifiedSTLResidualTransformer", "SeasonalTrendDecomposer", "RelativeEntropy")
NAMES = [n for n in drivers.ALL if n not in SLOW + ("RandomModel",)]


def one(case, name, tag):
    n = 70 if name == "KNNCAD" else case.int(26, 32) if name in WINDOWED else case.int(3, 14)
    d = drivers.driver(case, name, n if name != "WindowedMetric" else max(n, 4))
    plan = []
    for i in range(d.n):
        both = case.flip(0.4) and i + 1 >= d.warm
        plan.append(("fit_read" if both else "fit", i))
        if i + 1 >= d.warm and case.flip(0.6) and name != "PerfectModel":
            plan.append(("read", case.int(0, len(d.probes) - 1)))
    if name != "PerfectModel" and d.n >= d.warm:
        plan.append(("batch", [case.int(0, len(d.probes) - 1) for _ in range(3)]))
    return d, plan


def alone(case, d, plan, tag):
    """(results, whether the process-wide generators were used)"""
    case.reseed(tag)
    o = d.ctor()
    case.reseed(("life", tag))
    before = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate())
    res = life(d, o, plan)
    after = (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate())
    return res, before != after


def judge(case, names, p, ds=None):
    ds = ds or [one(case, n, i) for i, n in enumerate(names)]
    want, drew, keep = [], [], range(len(ds))
    for i, (d, plan) in enumerate(ds):
        res, random_ = alone(case, d, plan, i)
        want.append(res)
        drew.append(random_)
    case.describe(components=names, configs=[d.cfg for d, _ in ds], switch_probability=p)
    objs, draws = [], []
    for i in keep:
        case.reseed(i)
        objs.append(ds[i][0].ctor())
        case.reseed(("life", i))
        draws.append((np.random.get_state(), random.getstate()))
    jobs = [lambda d=ds[i][0], o=o, plan=ds[i][1]: life(d, o, plan) for i, o in zip(keep, objs)]
    out, b = concurrently(jobs, case.int(0, 2 ** 31 - 2), p, draws)
    for i, (kind, got), res in zip(keep, out, want):
        if b.free and drew[i]:
            continue
        case.check(kind == "ok", "a component fails when another one is used in a concurrent thread", component=names[i], got=got, switches=b.switches)
        case.eq(len(got), len(res), "a component returns fewer results in a concurrent thread", component=names[i])
        for k, (g, a) in enumerate(zip(got, res)):
            case.eq(g, a, "results depend on what another thread does with another object", component=names[i], step=k, switches=b.switches,
                    others=[names[j] for j in keep if j != i])
    case.see("thread switches inside pysad", b.switches)
    case.see("lines scheduled", b.lines)
    case.see("free-running fallbacks", int(b.free))
    case.see("results compared", sum(len(r) for r in want))
    if b.switches:
        case.state(b.trace[:400])


def same_kind(case):
    """two or three objects of one class, differently configured"""
    name = NAMES[case.index % len(NAMES)]
    judge(case, [name] * case.pick([2, 2, 3]), case.pick([0.02, 0.1, 0.3, 0.5]))


def equal_shapes(case):
    """objects of one class and configuration, over different data of the same form"""
    names = [n for n in NAMES if n not in drivers.METER_NAMES and "Metric" not in n]
    name = names[case.index % len(names)]
    d, plan = one(case, name, 0)
    ds = [(d, plan)]
    for k in range(case.pick([1, 1, 2])):
        e = copy.copy(d)
        perm = case.rng.permutation(d.n)
        e.X = np.asarray(d.X)[perm]
        if d.y is not None:
            e.y = np.asarray(d.y)[perm]
        e.probes = d.probes[::-1].copy()
        ds.append((e, plan if case.flip() else plan[:max(1, len(plan) * 2 // 3)]))
    judge(case, [name] * len(ds), case.pick([0.02, 0.1, 0.3, 0.5]), ds)


def seasonal(case):
    """the seasonal models share their machinery"""
    judge(case, [case.pick(["SeasonalESD", "SeasonalHybridESD", "SeasonalESD", "SeasonalHybridESD", "ModifiedSTLResidualTransformer"])
                 for _ in range(case.pick([2, 2, 3]))], case.pick([0.02, 0.1, 0.3]))


def mixed(case):
    """objects of different classes, which share meters, windows and transformers inside"""
    k = case.pick([2, 3, 4])
    judge(case, [case.pick(NAMES) for _ in range(k)], case.pick([0.05, 0.2, 0.5]))


def streams(case):
    """streamers and batch calls over separate arrays"""
    from pysad.utils import ArrayStreamer, PandasStreamer
    import pandas as pd
    r = case.rng
    jobs, want = [], []
    shared = ArrayStreamer(shuffle=False) if case.flip() else None
    for t in range(case.pick([2, 3])):
        n = case.int(1, 25)
        X, y = r.randn(n, case.int(1, 3)), r.randint(0, 2, n)
        pandas = shared is None and case.flip(0.3)
        s = shared or (PandasStreamer if pandas else ArrayStreamer)(shuffle=False)
        a, b_ = (pd.DataFrame(X), pd.Series(y)) if pandas else (X, y)
        lab = case.flip(0.7)
        jobs.append(lambda s=s, a=a, b_=b_, lab=lab: [(np.array(i[0]), int(i[1])) if lab else (np.array(i), -1)
                                                       for i in (s.iter(a, b_) if lab else s.iter(a))])
        want.append([(X[i], int(y[i]) if lab else -1) for i in range(n)])
    case.describe(threads=len(jobs), lengths=[len(v) for v in want])
    out, b = concurrently(jobs, case.int(0, 2 ** 31 - 2), case.pick([0.1, 0.3, 0.6]), [(np.random.get_state(), random.getstate())] * len(jobs))
    for (kind, got), res in zip(out, want):
        case.check(kind == "ok", "a streamer fails when another stream is read concurrently", got=got)
        case.eq(len(got), len(res), "a stream read concurrently has another length")
        for (x, v), (x2, v2) in zip(got, res):
            case.eq(x, x2, "a stream read concurrently delivers another instance")
            case.eq(v, v2, "a stream read concurrently delivers another label")
    case.see("thread switches inside pysad", b.switches)
    if b.switches:
        case.state(b.trace[:400])


CHECK = Check(
    "C42", "exploration",
    "A case runs the lives of two to four separately constructed components in threads of one process. A seeded scheduler sits on every "
    "executed line of pysad and decides whether another thread continues (probability 0.02 to 0.6), so that calls are interleaved inside "
    "their bodies. Every result must be bit-identical to the same life run alone. Random numbers: each thread gets the "
    "state of the process-wide generators it would have alone. Distinct non-trivial: distinct switch sequences.",
    [Family(same_kind, 4 * len(NAMES), 40 * len(NAMES)), Family(equal_shapes, 90, 1200), Family(mixed, 150, 1500), Family(seasonal, 24, 200), Family(streams, 60, 800)],
    ["threads share the process-wide random generators, so which numbers a random component draws does depend on the schedule; the scheduler "
     "gives each thread its own state of them",
     "one object used by several threads at once is outside the property"])
