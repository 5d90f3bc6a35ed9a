"""C32: dataset loading returns the file's rows unchanged."""
import os
import shutil
import tempfile

import numpy as np

from ..common import Check, Family


def table(case):
    n, d = case.pick([1, 2, 3, 17, 60]), case.pick([1, 2, 5, 30])
    kind = case.pick(["float", "int", "big", "tiny", "dup", "missing"])
    r = case.rng
    def missing():
        Z = r.randn(n, d)
        hit = r.rand(n, d) < 0.2
        Z[hit] = r.choice([np.nan, np.nan, np.inf, -np.inf], int(hit.sum()))
        Z[r.randint(n), r.randint(d)] = np.nan
        return Z
    X = {"missing": missing, "float": lambda: r.randn(n, d), "int": lambda: r.randint(-9, 10, (n, d)).astype(float), "big": lambda: r.randn(n, d) * 1e12,
         "tiny": lambda: r.randn(n, d) * 1e-12, "dup": lambda: np.tile(r.randn(1, d), (n, 1))}[kind]()
    y = r.randint(0, 2, n).astype(float)
    if case.flip(0.2):
        y = r.choice([-1.0, 0.0, 1.0, 2.5], n)
    return X, y


def pair(a, b):
    """comparable, missing values included"""
    return tuple(repr(float(v)) for v in a), repr(float(b))


def snapshot(path):
    st = os.stat(path)
    return open(path, "rb").read(), st.st_mtime_ns, sorted(os.listdir(os.path.dirname(path)))


def load(case):
    from scipy.io import savemat
    from pysad.utils import Data
    X, y = table(case)
    n = len(X)
    mat = case.flip()
    base = tempfile.mkdtemp(prefix="pysadmon_c32_")
    cwd = os.getcwd()
    try:
        sub = case.pick(["", "", "deep", "v1.mat.d"]) if not mat else case.pick(["", "deep"])
        os.makedirs(os.path.join(base, sub), exist_ok=True)
        stem = case.pick(["data", "a_sampled", "x.matrix", "my.mat", "with space", "UPPER"])
        name = stem + (".mat" if mat else case.pick([".txt", ".csv"]))
        path = os.path.join(base, sub, name)
        if mat:
            lay = case.pick(["column", "row"])
            yy = y.reshape(-1, 1) if lay == "column" else y.reshape(1, -1)
            XX = X if not case.flip(0.3) else X.astype(np.float32 if np.abs(X).max() < 1e6 else np.float64)
            X = np.asarray(XX, dtype=float)
            extra = {"extra": np.arange(3)} if case.flip() else {}
            savemat(path, dict(X=XX, y=yy, **extra), do_compression=case.flip())
        else:
            lay = "text"
            with open(path, "w") as f:
                for row, lab in zip(X, y):
                    f.write(",".join(repr(float(v)) for v in row) + case.pick([",", ", "]) + repr(float(lab)) + "\n")
        before = snapshot(path)
        arg_base = base
        if case.flip(0.3):
            os.chdir(os.path.dirname(base))
            arg_base = os.path.basename(base)
        arg = os.path.join(sub, name)
        if not sub and case.flip(0.3):
            case.see("default base path")
            os.rename(base, base + ".parent")
            os.mkdir(base)
            os.rename(base + ".parent", os.path.join(base, "data"))
            os.chdir(base)
            path = os.path.join(base, "data", name)
            before = snapshot(path)
            data = Data()
        else:
            data = Data(arg_base)
        case.describe(shape=X.shape, mat=mat, name=name, sub=sub, layout=lay)
        for rep in range(2):
            gx, gy = data.get_data(arg)
            gx, gy = np.asarray(gx), np.asarray(gy)
            case.check(gx.shape == X.shape, "features have the wrong shape", got=gx.shape, want=X.shape)
            case.check(gy.shape == (n,), "labels are not one flat vector", got=gy.shape)
            case.eq(gx.astype(float), X, "features are not those of the file, in file order")
            case.eq(gy.astype(float), y, "labels are not those of the file, in file order")
            case.see("loads")
        # iterators
        rows = [pair(a, b) for a, b in zip(X, y)]

        def take(**kw):
            out = [pair(a, b) for a, b in data.get_iterator(arg, **kw)]
            case.see("iterators")
            return out

        case.check(take(shuffle=False) == rows, "the unshuffled iterator is not the file in order")
        seed = case.int(0, 10 ** 6)
        case.check(take(shuffle=False, seed=seed) == rows, "a seed shuffles an unshuffled iterator")
        a = take(shuffle=True, seed=seed)
        case.check(sorted(a) == sorted(rows), "the shuffled iterator is not a permutation of the file's pairs")
        b = take(seed=seed) if case.flip() else take(shuffle=True, seed=seed)
        case.check(a == b, "the same seed gives another order")
        # drawn when the iterator is made, not when it is consumed
        it = data.get_iterator(arg, seed=seed)
        np.random.seed(case.int(0, 99))
        np.random.rand(7)
        case.check([pair(p, q) for p, q in it] == a, "the order depends on what happened after the iterator was made")
        if n >= 17 and len(set(rows)) > 10:
            orders = {tuple(take(seed=s)) for s in range(4)}
            case.check(len(orders) > 1, "different seeds give one order")
            case.check(a != rows, "shuffling leaves the file order")
        after = snapshot(path)
        case.check(before == after, "loading changed the file or its directory")
        case.state(X.shape, mat, name, sub, lay)
    finally:
        os.chdir(cwd)
        shutil.rmtree(base, ignore_errors=True)


def write(path, X, y, case):
    from scipy.io import savemat
    if path.endswith(".mat"):
        savemat(path, dict(X=X, y=y.reshape(-1, 1) if case.flip() else y.reshape(1, -1)))
        return
    with open(path, "w") as f:
        for row, lab in zip(X, y):
            f.write(",".join(repr(float(v)) for v in row) + "," + repr(float(lab)) + "\n")


def sessions(case):
    """one or several Data objects over the same and other directories, files rewritten and results modified by the caller in between"""
    from pysad.utils import Data
    base = tempfile.mkdtemp(prefix="pysadmon_c32_")
    try:
        dirs = [os.path.join(base, "d%d" % i) for i in range(case.int(1, 3))]
        names = ["a.txt", "b.csv", "a.mat", "b.mat"][:case.int(1, 4)]
        truth = {}

        def put(path):
            X, y = table(case)
            write(path, X, y, case)
            truth[path] = (X, y)
        for d in dirs:
            os.mkdir(d)
            for nm in names:
                put(os.path.join(d, nm))
        objs = [(d, Data(d)) for d in dirs for _ in range(case.int(1, 2))]
        log = []
        case.describe(dirs=len(dirs), names=names, objects=len(objs), log=log)
        for _ in range(case.int(4, 14)):
            d, o = case.pick(objs)
            nm = case.pick(names)
            path = os.path.join(d, nm)
            op = case.pick(["load", "load", "iterate", "spoil", "rewrite", "pending"])
            log.append((objs.index((d, o)), nm, op))
            if op == "rewrite":
                put(path)
                continue
            X, y = truth[path]
            rows = [pair(a, b) for a, b in zip(X, y)]
            if op in ("load", "spoil"):
                gx, gy = o.get_data(nm)
                case.check(np.shape(gx) == X.shape and np.shape(gy) == y.shape, "shapes differ from the file's", got=(np.shape(gx), np.shape(gy)))
                case.eq(np.asarray(gx, dtype=float), X, "features are not those the file holds now")
                case.eq(np.asarray(gy, dtype=float), y, "labels are not those the file holds now")
                if op == "spoil":
                    gx *= 0
                    gy -= 7
            elif op == "iterate":
                sh = case.flip()
                got = [pair(a, b) for a, b in o.get_iterator(nm, shuffle=sh)]
                case.check((sorted(got) == sorted(rows)) if sh else got == rows, "an iterator does not deliver the file's rows", shuffle=sh)
            else:       # another file is loaded while the iterator is half consumed
                it = o.get_iterator(nm, shuffle=False)
                k = case.int(0, len(rows) - 1)
                got = [next(it) for _ in range(k)]
                o.get_data(case.pick(names))
                got = [pair(a, b) for a, b in got + list(it)]
                case.check(got == rows, "a half-consumed iterator is disturbed by loading another file")
            case.see(op)
        case.state(len(dirs), names, log)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def large(case):
    """files of many thousands of rows"""
    from scipy.io import savemat
    from pysad.utils import Data
    n, d = case.pick([5003, 9001, 20011, 70001]), case.int(1, 3)
    X = case.rng.randint(-999, 1000, (n, d)).astype(float)
    X[:, 0] = np.arange(n)
    y = case.rng.randint(0, 2, n).astype(float)
    mat = case.flip(0.3)
    case.describe(n=n, d=d, mat=mat)
    base = tempfile.mkdtemp(prefix="pysadmon_c32_")
    try:
        name = "big.mat" if mat else "big.txt"
        if mat:
            savemat(os.path.join(base, name), dict(X=X, y=y.reshape(-1, 1)))
        else:
            np.savetxt(os.path.join(base, name), np.column_stack([X, y]), fmt="%d", delimiter=",")
        gx, gy = Data(base).get_data(name)
        case.eq(np.shape(gx), X.shape, "features have the wrong shape")
        case.eq(np.asarray(gx, dtype=float), X, "features are not those of the file, in file order")
        case.eq(np.asarray(gy, dtype=float), y, "labels are not those of the file, in file order")
        got = [(a[0], b) for a, b in Data(base).get_iterator(name, shuffle=True, seed=3)]
        case.eq(len(got), n, "the iterator does not deliver every row")
        case.check(sorted(got) == list(zip(X[:, 0].tolist(), y.tolist())), "the shuffled iterator is not a permutation of the file's pairs")
        case.see("loads")
        case.see("rows", n)
        case.state(n, d, mat)
    finally:
        shutil.rmtree(base, ignore_errors=True)


CHECK = Check("C32", "exploration",
              "distinct = distinct (shape, format, file name, sub-directory, label layout) files written, loaded and iterated",
              [Family(load, 160, 5000), Family(sessions, 80, 2000), Family(large, 6, 40)],
              ["files are written to and removed from a scratch directory under the system's temporary folder"])
