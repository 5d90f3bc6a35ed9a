"""Writes MANIFEST.json from the registered checks."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, ".."))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
TECH = {
 "C01": "differential monitor: batch and per-instance executions of the same seeded model compared call by call",
 "C02": "differential monitor: batch and per-instance executions of the same transformer compared call by call",
 "C03": "offline exactly-once / ordering checker over the recorded event log of each streamer",
 "C04": "online reference-model monitor (exact rational arithmetic over the held multiset) on meter histories",
 "C05": "online reference-model monitor (list replay of the last window_size values)",
 "C06": "online reference-model monitor of postprocessor outputs",
 "C07": "online reference-model monitor of calibrated probabilities (high-precision definitions)",
 "C08": "online reference-model monitor of ensembler outputs plus permutation/metamorphic monitors",
 "C09": "online reference-model monitor: metrics recomputed from the recorded history by definition",
 "C10": "trace checker: windows cut from the recorded history and re-evaluated by definition",
 "C11": "spy detector recording every fit/score call, checked against the specified refit schedule and data",
 "C12": "twin-run monitor: a reading and a silent execution of the same history compared at checkpoints",
 "C13": "write sanitizer: read-only guarded buffers and byte snapshots of every argument around every call",
 "C14": "replay monitor: same seed in the same process, in another order and in fresh interpreters",
 "C15": "interference monitor: interleaved versus isolated executions of object pairs",
 "C16": "growth sanitizer: object-graph size sampled along long streams",
 "C17": "twin-run monitor: executions with different expired prefixes must agree",
 "C18": "online reference-model monitor (exact running statistics)",
 "C19": "online reference-model monitor of half-space-tree mass profiles, consistency checker over observed scores",
 "C20": "online reference-model monitor of neighbour fractions and decayed cell counts",
 "C21": "online reference-model monitor of bin counts over the reference window",
 "C22": "shadow forest monitor: the rrcf library driven in lock step on the last tree_size instances",
 "C23": "online reference-model monitor: independent generalized ESD over STL residuals",
 "C24": "online reference-model monitor: independent STL residual and streaming decomposition",
 "C25": "online reference-model monitor: independent KitNET executed in lock step; phase monitor",
 "C26": "online reference-model monitor: independent KNN-CAD and goodness-of-fit test with tie intervals",
 "C27": "trace explanation monitor: one recovered matrix must explain every recorded projection",
 "C28": "online definition monitor with exact rational arithmetic",
 "C29": "metamorphic paired-probe monitor over all learning models",
 "C30": "finiteness sanitizer on every value returned under hostile streams",
 "C31": "queue monitor (exactly-once, FIFO), statistical monitor, lock-step PyNomaly monitor",
 "C32": "differential file monitor: written rows against loaded and iterated rows, file snapshots",
 "C33": "twin-run monitor: different retained histories must be told apart",
 "C34": "score decoding monitor: every score must be explained by one set of cuts; double-precision density overlap in lock step",
 "C35": "twin-run monitor: original, copies and an uninterrupted run in random interleavings, also across processes",
 "C36": "write sanitizer: buffers and results are overwritten with garbage between calls and compared with an undisturbed twin",
 "C37": "twin-run monitor: whole pipelines online, staged and with other continuations",
 "C38": "twin-run monitor: runs that differ only in labels, number types, layouts or the form of scores",
 "C39": "metamorphic twin-run monitor: the same life in another unit, from another origin, under increasing maps and permutations",
 "C40": "twin-run monitor: lives with and without rejected calls; acceptance monitor of configurations",
 "C41": "online definition monitor of the returned bounds",
 "C42": "schedule-exploring monitor: seeded line-level thread scheduler, results compared with lonely runs",
}
NOTE = ("Decided by observing real executions of /repo's code under seeded, hostile workloads; holds on everything explored, "
        "not on all inputs. Trusts numpy/scipy and the reference computation in pysadmon/checks/%s.py. %s")
checks = []
for p in props:
    pid = p["id"]
    c = importlib.import_module("pysadmon.checks." + pid.lower()).CHECK
    ass = ("Assumes: " + "; ".join(c.assumptions) + ".") if c.assumptions else ""
    checks.append({"property": pid, "quick_cmd": "./run.sh %s quick" % pid, "thorough_cmd": "./run.sh %s thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": "runtime monitoring: " + TECH[pid], "level": c.level,
                   "level_note": (NOTE % (pid.lower(), ass)).strip()})
man = {"version": 1, "setup_cmd": "./run.sh selfcheck", "checks": checks, "not_applicable": [],
       "notes": "No hooks in /repo: every monitor observes at the public API boundary, so there is no guard variable. "
                "Checks import pysad from /repo's working tree (pure Python, nothing to build)."}
json.dump(man, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
