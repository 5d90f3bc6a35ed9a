"""C03: streamers deliver every instance exactly once, paired, in order (or as a seeded permutation)."""
import itertools
import os
import random
import shutil
import tempfile

import numpy as np

from ..common import Check, Family
from .. import workloads as w

SIZES = [0, 1, 2, 3, 4, 10, 99, 100, 128, 1000, 2500]


def _data(case, n, d):
    """rows with a unique id in column 0 (or deliberately duplicated rows)"""
    X = case.rng.randn(n, d)
    X[:, 0] = np.arange(n)
    kind = case.pick(["unique", "dups", "int", "f32", "object"])
    if kind == "dups":
        X = np.floor(X / 3)
    elif kind == "int":
        X = np.round(X * 8).astype(np.int64)
    elif kind == "f32":
        X = X.astype(np.float32)
    elif kind == "object":
        X = np.array([["r%d" % i] + ["v"] * (d - 1) for i in range(n)], dtype=object).reshape(n, d)
    return X, kind


def _rowkey(x, y=None):
    return (tuple(np.asarray(x).tolist()), None if y is None else tuple(np.atleast_1d(np.asarray(y)).tolist()))


def _compare(case, items, X, y, shuffle, what):
    n = len(X)
    case.see("items", len(items))
    case.eq(len(items), n, what + ": number of delivered instances")
    got = []
    for it in items:
        if y is None:
            got.append(_rowkey(it))
        else:
            if not (isinstance(it, tuple) and len(it) == 2):
                case.fail(what + ": item is not an (instance, label) pair", got=it)
            got.append(_rowkey(it[0], it[1]))
    want = [_rowkey(X[i], None if y is None else y[i]) for i in range(n)]
    if not shuffle:
        case.check(got == want, what + ": order or pairing differs from the input")
    else:
        case.check(sorted(got, key=repr) == sorted(want, key=repr), what + ": not a permutation of the input pairs")


def array_streamer(case):
    from pysad.utils import ArrayStreamer
    n = SIZES[case.index % len(SIZES)] if case.index < 44 else case.int(0, 200)
    d = case.int(1, 4)
    X, kind = _data(case, n, d)
    lab = case.pick(["none", "array", "list", "float", "col"])
    y = {"none": None, "array": np.arange(n) * 3, "list": list(range(n)), "float": case.rng.rand(n),
         "col": np.arange(2 * n).reshape(n, 2)}[lab]
    X = w.layout(case, X)
    shuffle = case.flip()
    xs, ys = X.copy(), None if y is None else np.array(y)
    st = ArrayStreamer(shuffle=shuffle)
    case.describe(n=n, d=d, rows=kind, labels=lab, shuffle=shuffle)
    for rep in range(case.int(1, 3)):
        items = list(st.iter(X) if y is None else st.iter(X, y))
        _compare(case, items, xs, ys, shuffle, "ArrayStreamer")
    case.check(np.array_equal(X, xs), "the iterated array was modified")
    case.check(y is None or np.array_equal(np.array(y), ys), "the label array was modified")
    case.state(n, d, kind, lab, shuffle)


def list_input(case):
    from pysad.utils import ArrayStreamer
    n = case.int(0, 30)
    X = [[i, case.int(0, 3)] for i in range(n)]
    y = [case.int(0, 1) for _ in range(n)] if case.flip() else None
    case.describe(n=n, labels=y)
    items = list(ArrayStreamer(shuffle=False).iter(X, y))
    _compare(case, items, X, y, False, "ArrayStreamer(list)")
    case.state(n, y is None)


def pandas_streamer(case):
    import pandas as pd
    from pysad.utils import PandasStreamer
    n = SIZES[case.index % 9] if case.index < 36 else case.int(0, 120)
    d = case.int(1, 4)
    X = case.rng.randn(n, d)
    X[:, 0] = np.arange(n)
    idx = case.pick(["range", "shuffled", "strings", "dup", "offset"])
    index = {"range": np.arange(n), "shuffled": case.rng.permutation(n), "strings": ["k%d" % (n - i) for i in range(n)],
             "dup": np.zeros(n, dtype=int), "offset": np.arange(n) + 1000}[idx]
    cols = ["c%d" % i for i in case.rng.permutation(d)]
    df = pd.DataFrame(X, columns=cols, index=index)
    lab = case.pick(["none", "series", "frame", "other_index"])
    yv = np.arange(n) * 5
    y = None
    if lab == "series":
        y = pd.Series(yv, index=index)
    elif lab == "other_index":
        y = pd.Series(yv, index=np.arange(n)[::-1])
    elif lab == "frame":
        y = pd.DataFrame({"y": yv}, index=index)
    before = df.copy(deep=True)
    shuffle = case.flip()
    case.describe(n=n, d=d, index=idx, labels=lab, shuffle=shuffle)
    st = PandasStreamer(shuffle=shuffle)
    for rep in range(2):
        items = list(st.iter(df) if y is None else st.iter(df, y))
        _compare(case, items, X, None if y is None else (yv if lab != "frame" else yv.reshape(-1, 1)), shuffle, "PandasStreamer")
    case.check(df.equals(before) and list(df.index) == list(before.index), "the iterated frame was modified")
    case.state(n, d, idx, lab, shuffle)


def frames(case):
    """columns of every kind: large integers, text, booleans, dates, categories, mixtures, missing values"""
    import pandas as pd
    from pysad.utils import PandasStreamer
    r = case.rng
    n = case.int(0, 25)
    big = [int(v) for v in r.randint(2**53, 2**62, n)]
    kinds = {"bigint": lambda: np.array(big, dtype=np.int64), "text": lambda: ["s%d" % v for v in r.randint(0, 9, n)],
             "digits": lambda: ["%d" % v for v in r.randint(0, 9, n)], "bool": lambda: r.rand(n) < 0.5,
             "small": lambda: r.randint(-9, 9, n).astype(np.int8), "uint": lambda: np.array(big, dtype=np.uint64),
             "f32": lambda: r.randn(n).astype(np.float32), "f64": lambda: r.randn(n), "obj": lambda: [(int(v), "x") for v in r.randint(0, 9, n)],
             "date": lambda: pd.Timestamp("2020-01-01") + pd.to_timedelta(r.randint(0, 10**6, n), unit="s"),
             "cat": lambda: pd.Categorical(["ab"[v] for v in r.randint(0, 2, n)])}
    names = [case.pick(sorted(kinds)) for _ in range(case.int(1, 3))]
    if case.flip(0.4):
        names = [names[0]] * len(names)
    df = pd.DataFrame({"c%d_%s" % (i, k): kinds[k]() for i, k in enumerate(names)}, index=r.permutation(n))
    lab = case.pick(["none", "int", "text", "bigint", "bool", "two"])
    y = {"none": lambda: None, "int": lambda: pd.Series(np.arange(n)), "text": lambda: pd.Series(["l%d" % i for i in range(n)], dtype=object),
         "bigint": lambda: pd.Series(np.array(big, dtype=np.int64)), "bool": lambda: pd.Series(r.rand(n) < 0.5),
         "two": lambda: pd.DataFrame({"a": np.arange(n), "b": r.rand(n)})}[lab]()
    shuffle = case.flip()
    case.describe(n=n, columns=names, labels=lab, shuffle=shuffle)
    before, ybefore = df.copy(deep=True), None if y is None else y.copy(deep=True)
    items = list(PandasStreamer(shuffle=shuffle).iter(df) if y is None else PandasStreamer(shuffle=shuffle).iter(df, y))
    _compare(case, items, before.to_numpy(), None if y is None else ybefore.to_numpy(), shuffle, "PandasStreamer")
    case.check(df.equals(before) and (y is None or y.equals(ybefore)), "the iterated frame was modified")
    case.state(n, names, lab, shuffle)


def mismatch(case):
    import pandas as pd
    from pysad.utils import ArrayStreamer, PandasStreamer
    n = case.int(0, 12)
    m = case.pick([k for k in [0, 1, n - 1, n + 1, n + 5, 2 * n] if k >= 0 and k != n])
    shuffle = case.flip()
    which = case.pick(["array", "pandas"])
    case.describe(n=n, m=m, shuffle=shuffle, streamer=which)
    X, y = case.rng.randn(n, 2), np.zeros(m)
    if which == "array":
        mk = lambda: list(ArrayStreamer(shuffle=shuffle).iter(X, y))
    else:
        mk = lambda: list(PandasStreamer(shuffle=shuffle).iter(pd.DataFrame(X), pd.Series(y)))
    raised, items = False, None
    try:
        items = mk()
    except Exception:
        raised = True
    case.check(raised, "features and labels of different lengths were accepted", delivered=items)
    case.state(n, m, shuffle, which)


def interleaved(case):
    """several live iterators over the same and different data do not disturb each other"""
    from pysad.utils import ArrayStreamer
    streams = []
    shared = ArrayStreamer(shuffle=case.flip())
    for k in range(3):
        n = case.int(0, 40)
        X = np.column_stack([np.arange(n), np.full(n, k)]).astype(float).reshape(n, 2)
        st = shared if case.flip() else ArrayStreamer(shuffle=case.flip())
        streams.append((X, st, st.iter(X, np.arange(n) + 100 * k), []))
    live = list(streams)
    while live:
        s = case.pick(range(len(live)))
        try:
            live[s][3].append(next(live[s][2]))
        except StopIteration:
            live.pop(s)
    case.describe(sizes=[len(s[0]) for s in streams])
    for k, (X, st, it, items) in enumerate(streams):
        _compare(case, items, X, np.arange(len(X)) + 100 * k, st.shuffle, "interleaved iterator %d" % k)
    case.state([len(s[0]) for s in streams], [s[1].shuffle for s in streams])


def seed_decides_order(case):
    """the order is fixed by the random state at request time, whatever is drawn while iterating"""
    import pandas as pd
    from pysad.utils import ArrayStreamer, PandasStreamer, fix_seed
    n = case.int(2, 60)
    X = np.arange(n, dtype=float).reshape(-1, 1)
    seed = case.int(0, 10 ** 6)
    runs = []
    for noisy in (False, True):
        case.reseed(("noise", noisy))
        fix_seed(seed)
        it = ArrayStreamer(shuffle=True).iter(X, X[:, 0])
        if noisy:
            np.random.rand(case.int(1, 5))
        order = []
        for x, y in it:
            order.append(float(y))
            if noisy and case.flip():
                np.random.rand(3)
                random.random()
        runs.append(order)
    case.describe(n=n, seed=seed)
    case.eq(runs[1], runs[0], "shuffled order depends on random numbers drawn after the iterator was requested")
    ps = []
    for noisy in (False, True):
        fix_seed(seed)
        it = PandasStreamer(shuffle=True).iter(pd.DataFrame(X), pd.Series(X[:, 0]))
        if noisy:
            np.random.rand(case.int(1, 5))
        ps.append([])
        for x, y in it:
            ps[-1].append(float(y))
            if noisy:
                np.random.rand(2)
    p1, p2 = ps
    case.eq(p1, p2, "PandasStreamer: same seed, different order")
    case.state(n, runs[0])


def data_iterator(case):
    from pysad.utils import Data
    tmp = tempfile.mkdtemp(prefix="pysadmon_")
    try:
        n, d = case.int(2, 40), case.int(1, 4)
        A = np.round(case.rng.randn(n, d + 1), 3)
        A[:, 0] = np.arange(n)
        A[:, -1] = case.rng.randint(0, 2, n)
        np.savetxt(os.path.join(tmp, "toy.txt"), A, delimiter=",", fmt="%.6f")
        seed = case.int(0, 10 ** 6)
        orders = []
        for noisy in (0, 1, 2):
            case.reseed(("pre", noisy))
            np.random.rand(noisy * 5)
            it = Data(tmp).get_iterator("toy.txt", shuffle=True, seed=seed)
            if noisy:
                np.random.rand(11)
            items = []
            for x, y in it:
                items.append((x, y))
                if noisy:
                    np.random.rand(2)
            _compare(case, items, A[:, :-1], A[:, -1], True, "Data.get_iterator")
            orders.append([float(x[0]) for x, _ in items])
        case.describe(n=n, d=d, seed=seed)
        case.eq(orders[1], orders[0], "Data.get_iterator: same seed, different order (draws in between)")
        case.eq(orders[2], orders[0], "Data.get_iterator: same seed, different order (draws before and in between)")
        items = list(Data(tmp).get_iterator("toy.txt", shuffle=False))
        _compare(case, items, A[:, :-1], A[:, -1], False, "Data.get_iterator")
        case.state(n, d, orders[0])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def shuffles_reach_all_orders(case):
    """with shuffling, all n! orders of 3 rows occur over 250 seeds (missing one has probability < 1e-18)"""
    from pysad.utils import ArrayStreamer, fix_seed
    n = 3
    X = np.arange(n, dtype=float).reshape(-1, 1)
    seen, non_identity = set(), 0
    for s in range(250):
        fix_seed(case.int(0, 10 ** 8))
        o = tuple(int(x[0]) for x in ArrayStreamer(shuffle=True).iter(X))
        seen.add(o)
    case.describe(orders=sorted(seen))
    case.eq(sorted(seen), sorted(itertools.permutations(range(n))), "shuffling does not reach every order")
    big = np.arange(500, dtype=float).reshape(-1, 1)
    o = [int(x[0]) for x in ArrayStreamer(shuffle=True).iter(big)]
    fixed = sum(i == v for i, v in enumerate(o))
    case.check(fixed < 30, "shuffle leaves most rows in place", fixed=fixed)
    case.state(len(seen), o[:20])


def large(case):
    """long inputs: every row once, in order or permuted, with its own label"""
    import pandas as pd
    from pysad.utils import ArrayStreamer, PandasStreamer
    n = case.pick([33000, 66000, 70001, 140000]) + case.int(0, 5)
    kind = "pandas" if case.index % 4 == 3 else "array"
    if kind == "pandas":
        n = min(n, 66005)
    shuffle = case.flip()
    X = np.arange(n, dtype=float).reshape(-1, 1)
    y = np.arange(n) * 2 + 1 if case.flip(0.7) else None
    case.describe(n=n, kind=kind, shuffle=shuffle, labels=y is not None)
    if kind == "array":
        it = ArrayStreamer(shuffle=shuffle).iter(X, y) if y is not None else ArrayStreamer(shuffle=shuffle).iter(X)
    else:
        it = PandasStreamer(shuffle=shuffle).iter(pd.DataFrame(X), pd.Series(y)) if y is not None else PandasStreamer(shuffle=shuffle).iter(pd.DataFrame(X))
    got = [(float(np.asarray(i[0])[0]), int(i[1])) if y is not None else (float(np.asarray(i)[0]), None) for i in it]
    case.see("items", len(got))
    case.eq(len(got), n, "number of delivered instances")
    rows = np.array([g[0] for g in got])
    if y is not None:
        case.eq(np.array([g[1] for g in got]), rows * 2 + 1, "instances are paired with other instances' labels")
    if shuffle:
        case.check(np.array_equal(np.sort(rows), X[:, 0]), "not a permutation of the input")
        case.check(float(np.abs(rows[:-1] - rows[1:]).mean()) > n / 6.0, "hardly shuffled")
        case.check(bool(np.ptp(rows[:1000]) > 0.8 * n), "the first rows delivered all come from one part of the input")
    else:
        case.check(np.array_equal(rows, X[:, 0]), "order differs from the input")
    case.state(n, kind, shuffle, y is not None)


CHECK = Check(
    "C03", "exploration",
    "A case iterates one generated array or data frame (row ids unique or deliberately duplicated, all label layouts, lengths 0 to "
    "thousands) and compares the recorded delivery log with the input multiset and order. Distinct non-trivial: distinct "
    "(length, width, row kind, label kind, shuffle) configurations and distinct observed orders.",
    [Family(array_streamer, 400, 4000), Family(list_input, 40, 400), Family(pandas_streamer, 250, 2500), Family(frames, 150, 1500), Family(mismatch, 120, 800),
     Family(interleaved, 100, 1000), Family(seed_decides_order, 100, 1500), Family(data_iterator, 60, 600),
     Family(shuffles_reach_all_orders, 4, 40), Family(large, 8, 60)])
