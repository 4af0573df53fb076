"""Lazy arrays: the same operations on arrays with virtual nodes, with caches that keep, lose or do not exist."""
import importlib
from gen import G

# property -> name of its checks in Trace_Lazy.tla
USES = {"c06": "getitem", "c08": "reduce", "c09": "struct", "c10": "ufunc", "c11": "struct", "c12": "combine", "c13": "struct", "c14": "merge", "c15": "convert"}
NAMES = ["c06", "c06", "c06", "c08", "c09", "c10", "c11", "c11", "c12", "c13", "c14", "c14", "c15"]


def case(rng, i):
    name = rng.choice(NAMES)
    mod = importlib.import_module("props." + name)
    G.VIRT = rng.choice([0.15, 0.3, 0.6])
    try:
        e = mod.case(rng, i + 1000)
    finally:
        G.VIRT = 0.0
    if isinstance(e, dict):
        e["spec"] = USES[name]
    return e
