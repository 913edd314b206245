import importlib
import importlib.util
import os

from . import api


def load_harness(prop):
    """harness modules of a property: harness/<prop lower>.py and further
    harness/<prop lower>_*.py"""
    if prop not in api.HARNESSES:
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
        p = prop.lower()
        for f in sorted(os.listdir(d)):
            if f == p + ".py" or (f.startswith(p + "_") and f.endswith(".py")):
                importlib.import_module("harness." + f[:-3])
    return api.HARNESSES[prop]
