"""C12: reads (score / transform / get) never change what is learned."""
import time

import numpy as np

from ..common import Check, Family
from .. import drivers as dr
from .. import workloads as w

IMPURE = {"KNNCAD", "PerfectModel", "RandomModel"}
NAMES = [n for n in dr.ALL if n not in IMPURE and n != "Inqmad"]
NAMES = NAMES + NAMES + ["Inqmad"]


def _same(case, a, b, d, msg, **kw):
    case.close(a, b, msg, rtol=max(d.rtol, 1e-9), atol=1e-9, component=d.name, **kw)


def twins(case):
    name = NAMES[case.index % len(NAMES)]
    d = dr.driver(case, name)
    density = float(case.pick([0.3, 0.7, 1.0]))
    case.describe(component=name, cfg=d.cfg, n=d.n, density=density)
    ops = []          # what the reading twin does after fit i
    for i in range(d.n):
        reads = []
        if i + 1 >= d.warm and case.rng.rand() < density:
            for _ in range(case.pick([1, 1, 2, 4])):
                reads.append(("batch", [case.int(0, len(d.probes) - 1) for _ in range(3)]) if case.flip(0.15) and d.kind in ("model", "transformer", "post")
                             else ("one", case.int(0, len(d.probes) - 1)))
        ops.append(reads)
    burst = case.int(d.warm - 1, d.n - 1) if case.flip(0.4) else None     # hundreds of reads in a row
    checkpoints = set(case.rng.choice(np.arange(d.warm - 1, d.n), size=min(3, d.n - d.warm + 1), replace=False).tolist()) | {d.n - 1}
    # twin B reads a lot, twin A only at one randomly chosen checkpoint at the end of its life
    # (a random projector draws its fixed matrix when it first sees an instance, fitted or not: both twins see one first)
    lazy = d.name in ("GaussianRandomProjector", "SparseRandomProjector")

    def build():
        case.reseed("ctor")
        o = d.ctor()
        if lazy:
            case.reseed("draw")
            d.read(o, 0)
        return o

    b = build()
    snap_b = {}
    for i in range(d.n):
        case.reseed(("fit", i))
        d.fit(b, i)
        for k, (how, p) in enumerate(ops[i]):
            case.reseed(("read", i, k))
            if how == "one":
                v1 = d.read(b, p)
                case.see("reads")
                if case.flip(0.3):
                    case.reseed(("read", i, k))
                    _same(case, d.read(b, p), v1, d, "repeating a read gives another value", step=i)
            else:
                d.batch_read(b, p)
                case.see("reads", 3)
        if i == burst:
            t0 = time.perf_counter()
            for k in range(case.pick([150, 400, 1200])):
                case.reseed(("read", i, k))
                d.read(b, case.int(0, len(d.probes) - 1))
                case.see("reads")
                if k >= 20 and time.perf_counter() - t0 > 0.4:
                    break
        if i in checkpoints:
            snap_b[i] = []
            for p in range(len(d.probes)):
                case.reseed(("final", p))
                snap_b[i].append(d.read(b, p))
    for c in sorted(checkpoints):
        a = build()
        for i in range(c + 1):
            case.reseed(("fit", i))
            d.fit(a, i)
        for p in range(len(d.probes)):
            case.reseed(("final", p))
            v = d.read(a, p)
            _same(case, snap_b[c][p], v, d, "reads in between changed the outcome", step=c, probe=p)
            case.state(name, c, np.round(v, 6))
            if p == 0 and d.kind not in ("model", "transformer", "post"):
                break


def knncad_training(case):
    """KNN-CAD's alarm hold-off is its only scoring state: with reads, everything learned stays the same"""
    from pysad.models import KNNCAD
    P = case.int(48, 55)
    x = w.series(case, P * 2 + case.int(0, 40), kinds=["walk", "season", "spikes", "normal"])
    a, b = KNNCAD(P), KNNCAD(P)
    outs_a, outs_b = [], []
    case.describe(P=P, n=len(x))
    for i, v in enumerate(x):
        a.fit_partial(np.array([v]))
        b.fit_partial(np.array([v]))
        if i > P and i + P < len(x) and case.flip(0.5):
            b.score_partial(np.array([case.rng.randn() * 100]))
            case.see("reads")
    # drain the hold-off of both (it lasts P/5 scores), then both must agree
    for _ in range(2 * P):
        outs_a.append(case.scalar(a.score_partial(np.array([0.0]))))
        outs_b.append(case.scalar(b.score_partial(np.array([0.0]))))
    va, vb = [v for v in outs_a if v != 0.5], [v for v in outs_b if v != 0.5]
    # (0.5 itself can be the score, then nothing else shows up)
    case.check(set(va) == set(vb) and len(set(va)) <= 1, "scoring changed what KNN-CAD learned", a=sorted(set(va)), b=sorted(set(vb)))
    case.state(P, va[:1])


def scores_of_unfitted(case):
    """scoring a far outlier again and again must not make it look normal"""
    name = case.pick(["ExactStorm", "HalfSpaceTrees", "LODA", "RobustRandomCutForest", "xStream", "KitNet", "MedianAbsoluteDeviation",
                      "StandardAbsoluteDeviation", "LocalOutlierProbability", "ReferenceWindowModel", "OneFitModel"])
    d = dr.driver(case, name)
    case.reseed("ctor")
    a = d.ctor()
    for i in range(d.n):
        d.fit(a, i)
    p = len(d.probes) - 1
    case.describe(component=name, cfg=d.cfg)
    case.reseed("r")
    first = d.read(a, p)
    many = 40 if case.flip(0.5) else case.pick([300, 1000])
    t0 = time.perf_counter()
    for k in range(many):
        d.read(a, case.int(0, p))
        case.see("reads")
        if k >= 40 and time.perf_counter() - t0 > 0.6:
            break
    case.reseed("r")
    _same(case, d.read(a, p), first, d, "score drifts under repeated scoring")
    case.state(name, np.round(first, 6))


CHECK = Check(
    "C12", "exploration",
    "A case runs two twins of one component on the same stream, one with many extra score/transform/get calls (any probes, single and "
    "batch), and compares all probe outputs at several checkpoints; both global random generators are reset before every call so that "
    "only learned state can differ. Distinct non-trivial: distinct (component, checkpoint, output) comparisons.",
    [Family(twins, 530, 8000), Family(knncad_training, 16, 160), Family(scores_of_unfitted, 120, 1500)],
    ["random draws made while scoring are compensated by resetting the global generators before each call"])
