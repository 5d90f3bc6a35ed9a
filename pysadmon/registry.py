import importlib


def get(prop):
    return importlib.import_module("pysadmon.checks." + prop.lower()).CHECK
