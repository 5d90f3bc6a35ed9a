"""Monitor framework: cases, monitors, verdicts, evidence, replay files, known findings.

A check is a list of *families*.  A family is a function ``fn(case)`` that builds
real pysad objects, drives a (random but seeded) workload through the public API
and lets monitors observe every call.  Each case is identified by
(property, seed, family, index) and is replayable from exactly these four values.

Verdicts are three-valued:
  held          exit 0
  violated      exit 1, "VIOLATION property=<id> replay=<path>"
  inconclusive  exit 2 (harness error, watchdog, or a monitor that observed nothing)
"""
import collections
import contextlib
import hashlib
import io
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PYSADMON_REPO", "/repo")

import numpy as np  # noqa: E402


def import_pysad():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import pysad
    where = os.path.realpath(pysad.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("pysad imported from %s, not from %s" % (where, REPO))
    import pysad.core, pysad.evaluation, pysad.models, pysad.statistics  # noqa
    import pysad.models.integrations, pysad.transform.ensemble  # noqa
    import pysad.transform.postprocessing, pysad.transform.preprocessing  # noqa
    import pysad.transform.probability_calibration, pysad.transform.projection  # noqa
    import pysad.utils  # noqa
    return pysad


class Refuted(Exception):
    """Raised by a monitor when the observed execution refutes the property."""

    def __init__(self, key, msg, witness):
        super().__init__(msg)
        self.key, self.msg, self.witness = key, msg, witness


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The generated case is outside the property's quantifier."""


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    if isinstance(o, float):
        return o if np.isfinite(o) else repr(o)
    if isinstance(o, np.generic):
        return jsonable(o.item(), depth)
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {"ndarray": list(o.shape), "dtype": str(o.dtype), "head": jsonable(o.ravel()[:20].tolist(), depth + 1)}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple, set, frozenset, collections.deque)):
        return [jsonable(v, depth + 1) for v in list(o)[:300]]
    return repr(o)[:300]


def seed_of(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:4], "little")


class Case:
    def __init__(self, prop, seed, family, index, tier):
        self.prop, self.seed, self.family, self.index, self.tier = prop, seed, family, index, tier
        self.rng = np.random.RandomState(seed_of(prop, seed, family, index))
        self.events = collections.Counter()
        self.states = set()
        self.desc = {}
        self.known = []
        self.sample = None

    # ----- workload helpers
    def pick(self, seq):
        seq = list(seq)
        return seq[self.rng.randint(len(seq))]

    def flip(self, p=0.5):
        return bool(self.rng.rand() < p)

    def int(self, lo, hi):
        """uniform integer in [lo, hi]"""
        return int(self.rng.randint(lo, hi + 1))

    def reseed(self, tag=0):
        """(Re)sets pysad's random sources: the two process-wide generators."""
        s = seed_of(self.prop, self.seed, self.family, self.index, "rng", tag)
        np.random.seed(s)
        random.seed(s)

    def describe(self, **kw):
        self.desc.update(kw)

    # ----- monitor helpers
    def see(self, event, n=1):
        self.events[event] += n

    def state(self, *parts):
        """Marks a distinct non-trivial situation that a monitor observed."""
        h = hashlib.blake2b(repr(jsonable(parts)).encode(), digest_size=8).digest()
        self.states.add(h)

    def fail(self, msg, key=None, **witness):
        key = key or self.family
        w = dict(self.desc)
        w.update(witness)
        raise Refuted(key, msg, w)

    def check(self, cond, msg, key=None, **witness):
        self.events["monitor:" + self.family] += 1
        if not cond:
            self.fail(msg, key, **witness)

    def eq(self, got, want, msg, key=None, **witness):
        """exact agreement of scalars / arrays / lists (NaN equals NaN)"""
        self.events["monitor:" + self.family] += 1
        ok = False
        try:
            g, w = np.asarray(got), np.asarray(want)
            if g.shape == w.shape:
                if g.dtype.kind in "fc" or w.dtype.kind in "fc":
                    ok = bool(np.all((g == w) | (np.isnan(g) & np.isnan(w))))
                else:
                    ok = bool(np.all(g == w))
        except Exception:
            ok = False
        if not ok:
            self.fail(msg, key, got=got, want=want, **witness)

    def close(self, got, want, msg, key=None, rtol=1e-9, atol=1e-12, **witness):
        self.events["monitor:" + self.family] += 1
        g = num(got)
        w = num(want)
        ok = g is not None and w is not None and g.shape == w.shape
        if ok:
            with np.errstate(all="ignore"):
                tol = atol + rtol * np.abs(w)
                ok = bool(np.all((np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w))))
        if not ok:
            self.fail(msg, key, got=got, want=want, **witness)

    def scalar(self, v, msg="result is not a single real number", key=None):
        """The one real number in v (float, numpy scalar, 0-d or length-1 array)."""
        self.events["monitor:" + self.family] += 1
        a = num(v)
        if a is None or a.size != 1:
            self.fail(msg, key, got=v)
        return float(a.reshape(-1)[0])


def num(v):
    try:
        a = np.asarray(v)
        if a.dtype == object:
            a = np.array(a.tolist(), dtype=np.float64)
        if a.dtype.kind not in "biuf":
            return None
        return a.astype(np.float64)
    except Exception:
        return None


def in_fork(fn):
    """Runs fn() in a forked child (pristine copy of this process) and returns its picklable result."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("exc", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("forked run died")
    out = pickle.loads(data)
    if out[0] == "exc":
        raise RuntimeError(out[1] + "\n" + out[2])
    return out[1]


@contextlib.contextmanager
def quiet():
    """KitNet and PyNomaly print; keep the check's stdout for verdict lines."""
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield


# quick case counts are multiplied so that every check spends a comparable 10-25 s
QUICK_SCALE = {4: "02 03 04 05 06 08 11 13 17 18 19 20 22 24 25 26 27 28 30 31 32 41", 3: "10 12 39 40", 2: "01 07 09 14 21 23 36 38"}


class Family:
    def __init__(self, fn, quick, thorough, name=None):
        self.fn, self.n = fn, {"quick": quick, "thorough": thorough}
        self.name = name or fn.__name__


class Check:
    def __init__(self, prop, level, rule, families, assumptions=(), case_timeout=240):
        self.prop, self.level, self.rule, self.families = prop, level, rule, families
        self.assumptions = list(assumptions)
        self.case_timeout = case_timeout
        for k, props in QUICK_SCALE.items():
            if prop[1:] in props.split():
                for f in families:
                    f.n["quick"] = min(k * f.n["quick"], max(f.n.values()))


def load_known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                f = dict(t.split("=", 1) for t in line.split()[1:3])
                out.setdefault(f["property"], {})[f["key"]] = line.split(None, 3)[3]
    return out


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check, fam, index, seed, tier):
    """Returns a plain dict describing what happened in one case."""
    case = Case(check.prop, seed, fam.name, index, tier)
    res = {"family": fam.name, "index": index, "violation": None, "error": None, "skipped": False}
    case.reseed()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(check.case_timeout)
    try:
        with quiet():
            fam.fn(case)
    except Skip:
        res["skipped"] = True
    except Refuted as e:
        res["violation"] = {"key": e.key, "msg": e.msg, "witness": jsonable(e.witness), "traceback": None}
    except CaseTimeout:
        res["error"] = "case watchdog (%d s) expired" % check.case_timeout
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:  # the call under test raised where the property says it must not
        tb = traceback.format_exc()
        # Cases are deterministic and complete without exception on a tree on which the property
        # holds, so an exception is an observation about the code that was called.
        res["violation"] = {"key": "exception:" + fam.name, "msg": "%s: %s" % (type(e).__name__, str(e)[:300]),
                            "witness": jsonable(case.desc), "traceback": tb}
    finally:
        signal.alarm(0)
    res["events"] = dict(case.events)
    res["states"] = case.states
    res["desc"] = jsonable(case.desc)
    res["known"] = case.known
    return res


_CTX = {}


def _serve(conn, inherited):
    """A worker process: runs the jobs it is sent, one at a time, until its pipe is closed."""
    for c in inherited:     # the parent's ends of other workers' pipes, copied by fork
        c.close()
    check, seed, tier = _CTX["check"], _CTX["seed"], _CTX["tier"]
    while True:
        try:
            fi, index = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        try:
            r = run_case(check, check.families[fi], index, seed, tier)
        except BaseException as e:
            signal.alarm(0)
            r = {"family": check.families[fi].name, "index": index, "violation": None, "skipped": False, "events": {}, "states": set(),
                 "desc": None, "known": {}, "error": "%s: %s" % (type(e).__name__, str(e)[:300])}
        conn.send(r)


class Workers:
    """Forked workers with one pipe each: no lock is shared, so killing a worker can never block the others or the parent."""

    def __init__(self, check, nproc):
        self.check, self.live, self.jobs = check, {}, []
        self.nproc = nproc
        self.tried = collections.Counter()

    def spawn(self):
        mine, theirs = multiprocessing.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)    # its children end with it
                _serve(theirs, [mine] + [c for c in self.live])
            finally:
                os._exit(1)
        theirs.close()
        self.live[mine] = [pid, None]
        return mine

    def give(self, conn):
        if self.jobs:
            self.live[conn][1] = self.jobs.pop(0)
            try:
                conn.send(self.live[conn][1])
            except (BrokenPipeError, OSError):
                pass                # noticed as the end of the pipe
        else:
            self.live[conn][1] = None

    def bury(self, conn):
        pid, job = self.live.pop(conn)
        conn.close()
        for kill in (os.killpg, os.kill):
            try:
                kill(pid, signal.SIGKILL)
            except OSError:
                pass
        return job, os.waitpid(pid, 0)[1]

    def results(self, jobs, deadline):
        """Yields the result of every job; stops early, with None, when the deadline has passed."""
        self.jobs = list(jobs)
        for _ in range(self.nproc):
            self.give(self.spawn())
        while any(job is not None for _, job in self.live.values()):
            ready = multiprocessing.connection.wait(list(self.live), timeout=max(0.0, deadline - time.time()))
            if not ready and time.time() >= deadline:
                yield None
                return
            for conn in ready:
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    job, status = self.bury(conn)
                    if job is None:
                        continue
                    self.tried[job] += 1
                    if self.tried[job] < 3:
                        self.jobs.insert(0, job)
                        self.give(self.spawn())
                        continue
                    self.give(self.spawn())
                    yield {"family": self.check.families[job[0]].name, "index": job[1], "violation": None, "skipped": False, "events": {},
                           "states": set(), "desc": None, "known": {}, "error": "the worker process died (wait status %d)" % status}
                    continue
                self.give(conn)
                yield r

    def close(self):
        for conn in list(self.live):
            self.bury(conn)


def run_check(check, tier, seed):
    t0 = time.time()
    import_pysad()
    known = load_known().get(check.prop, {})
    jobs = []
    for fi, fam in enumerate(check.families):
        jobs += [(fi, i) for i in range(fam.n[tier])]
    # interleave so that a family of slow cases is spread over the workers
    jobs.sort(key=lambda j: seed_of("order", j[0], j[1]))
    _CTX.update(check=check, seed=seed, tier=tier)
    events = collections.Counter()
    states = set()
    per_family = {f.name: collections.Counter() for f in check.families}
    violations, errors, samples, known_seen = [], [], [], {}
    nproc = max(1, min(int(os.environ.get("PYSADMON_JOBS", "8")), len(jobs)))
    budget = 780 if tier == "quick" else 7200
    stopped_early = False
    scratch = tempfile.mkdtemp(prefix="pysadmon_")
    tempfile.tempdir = scratch  # inherited by the workers; removed below even if they are terminated
    workers = Workers(check, nproc)
    try:
        for r in workers.results(jobs, t0 + budget):
            if r is None:
                errors.append("wall-clock watchdog (%d s) expired" % budget)
                break
            pf = per_family[r["family"]]
            pf["cases"] += 1
            if r["skipped"]:
                pf["skipped"] += 1
            events.update(r["events"])
            states |= {(r["family"], s) for s in r["states"]}
            if r["error"]:
                errors.append("%s/%d: %s" % (r["family"], r["index"], r["error"]))
            v = r["violation"]
            if v is not None:
                if v["key"] in known:
                    known_seen.setdefault(v["key"], []).append((r["family"], r["index"]))
                else:
                    violations.append((r["family"], r["index"], v))
                    if len(violations) >= 12:
                        stopped_early = True
                        break
            elif not r["skipped"] and pf["sampled"] < 2 and r["desc"]:
                pf["sampled"] += 1
                samples.append({"family": r["family"], "index": r["index"], "case": r["desc"], "observed": r["events"]})
    finally:
        workers.close()
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)

    if not stopped_early:
        for f in check.families:
            if events.get("monitor:" + f.name, 0) == 0 and not violations:
                errors.append("monitor of family %s observed nothing" % f.name)
    evaluations = sum(c["cases"] for c in per_family.values())
    decisions = sum(v for k, v in events.items() if k.startswith("monitor:"))
    evidence = {
        "property": check.prop, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": int(decisions),
            "distinct_nontrivial": len(states),
            "rule": "an evaluation is one observation of the running code judged by a monitor; " + check.rule,
            "cases": int(evaluations),
            "samples": samples[:12],
            "monitor_events": {k: int(v) for k, v in sorted(events.items())},
            "families": {k: {"cases": v["cases"], "skipped": v["skipped"]} for k, v in per_family.items()},
            "known_findings_observed": {k: len(v) for k, v in known_seen.items()},
            "inconclusive": errors[:20],
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for key in sorted(known_seen):
        print("KNOWN-FINDING: property=%s %s (key=%s, %d case(s) this run)" % (
            check.prop, known[key], key, len(known_seen[key])))
    print("%s %s seed=%d: %d cases, %d monitor decisions, %d distinct states, %.1f s" % (
        check.prop, tier, seed, evaluations,
        sum(v for k, v in events.items() if k.startswith("monitor:")), len(states), time.time() - t0))
    if violations:
        rdir = os.path.join(VERIF, "replays", check.prop)
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for fam, idx, v in violations:
            if (fam, v["key"]) in seen:
                continue
            seen.add((fam, v["key"]))
            path = os.path.join(rdir, "%s-%d-%d.json" % (fam, seed, idx))
            with open(path, "w") as f:
                json.dump({"property": check.prop, "seed": seed, "tier": tier, "family": fam, "index": idx,
                           "key": v["key"], "message": v["msg"], "witness": v["witness"],
                           "traceback": v["traceback"],
                           "rerun": "cd /verif && ./run.sh replay %s" % path}, f, indent=1)
            print("  %s[%d]: %s" % (fam, idx, v["msg"]))
            print("VIOLATION property=%s replay=%s" % (check.prop, path))
        return 1
    if errors:
        for e in errors[:10]:
            print("INCONCLUSIVE property=%s %s" % (check.prop, e))
        return 2
    return 0


def replay(path):
    from . import registry
    d = json.load(open(path))
    import_pysad()
    check = registry.get(d["property"])
    fam = [f for f in check.families if f.name == d["family"]][0]
    r = run_case(check, fam, d["index"], d["seed"], d["tier"])
    if r["violation"] is None:
        print("replay: no violation (error=%s)" % r["error"])
        return 0
    print(json.dumps(r["violation"], indent=1))
    if r["violation"]["traceback"]:
        print(r["violation"]["traceback"])
    print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1
