"""Sorting."""
import awkward as ak
from gen import G, depths, contains, recabove
from project import dump, result

import project
project.NEGZERO = False


def case(rng, i):
    g = G(rng, p_str=0.1, p_rec=0, nan=0.05, inf=0.03, maxlen=rng.choice([3, 5, 5, 9]), wide=rng.choice([0, 0, 0.3]), exact=False)
    if g.ch(0.4):
        g.lo, g.hi = 0, 3      # ties
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]))
    vals = g.values(T)
    mn, mx = depths(T)
    lay = g.layout(T, vals)
    axis = rng.randint(0, mx) if g.ch(0.6) else -rng.randint(1, mx + 1)
    if contains(T, ("str",)):
        axis = -1
    e = {"op": "sort", "a": dump(lay), "axis": axis, "arg": g.ch(0.5), "asc": g.ch(0.5)}
    stable = True if e["arg"] else g.ch(0.5)
    try:
        out = (ak.argsort if e["arg"] else ak.sort)(ak.Array(lay), axis=axis, ascending=e["asc"], stable=stable)
    except Exception as ex:
        out = ex
    e["out"] = result(out)
    return e
