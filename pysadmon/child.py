"""Runs a job of C14 or C35 in a fresh interpreter: python -m pysadmon.child '<json>'"""
import json
import sys

from .common import import_pysad

if __name__ == "__main__":
    arg = sys.argv[1]
    job = json.load(open(arg[1:])) if arg.startswith("@") else json.loads(arg)
    import_pysad()
    import importlib
    res = importlib.import_module(job.get("module", "pysadmon.checks.c14")).child_outputs(job)
    print("CHILD " + json.dumps(res))
