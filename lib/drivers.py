"""Drivers: workloads with monitors of their own, for what the lockstep model does not cover."""
import importlib

MODULES = []
_cache = {}


def get(name):
    if name not in _cache:
        _cache[name] = importlib.import_module("drv_" + name)
    return _cache[name]
