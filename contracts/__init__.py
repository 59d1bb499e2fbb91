"""Contracts on the real functions of pySLM2, one list per property."""
import importlib

MODULES = ["grids", "sim", "prof", "dmd", "lcos", "misc", "hw"]


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("contracts." + m)
        except ModuleNotFoundError:
            continue
        for pid, cons in mod.CONTRACTS.items():
            reg.setdefault(pid, []).extend(cons)
    return reg
