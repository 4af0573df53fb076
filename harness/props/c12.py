"""Combinations and cartesian products."""
import awkward as ak
from gen import G, depths, contains, recabove
from project import dump, result

import project
project.NEGZERO = False


def shape(g, k):
    """the list lengths shared by all the arrays: k-1 levels below the top"""
    n = 0 if g.ch(0.15) else g.r.randint(1, 4)
    return n if k <= 1 else [shape(g, k - 1) for _ in range(n)]


def fill(g, s, E):
    if isinstance(s, int):
        return [g.value(E) for _ in range(s)]
    return [fill(g, x, E) for x in s]


def case(rng, i):
    if i == 0:
        xs = [[1, 2], [3, 4, 5], [6, 7]]
        return {"op": "cartesian", "as": [dump(ak.Array(x).layout) for x in xs], "axis": 0, "keys": [], "arg": False,
                "nested": [True, False, False], "name": "", "kf": "C12-nested0",
                "out": result(ak.cartesian([ak.Array(x) for x in xs], axis=0, nested=[0]))}
    g = G(rng, exact=rng.random() < 0.5, p_str=0.1, p_rec=0.1, maxlen=3, p_zero=0, more=0.05, p_un=0.03, p_long=0.005, long=[8, 9])
    if g.ch(0.5):
        return combos(rng, g)
    k = rng.choice([0, 1, 1, 1, 2, 2])
    m = rng.choice([1, 2, 2, 2, 3])
    s = None if k == 0 else shape(g, k)
    lays = []
    for j in range(m):
        E = g.type(rng.choice([0, 0, 1]))
        if k == 0:
            T, vals = E, [g.value(E) for _ in range(rng.randint(0, 4))]
        else:
            T = ("reg", rng.randint(1, 3), E) if g.ch(0.15) else ("list", E)
            if g.ch(0.2) and j == 0:
                # (in another array, a missing list counts as an empty one)
                T = ("opt", T)
            vals = fill(g, s, T)
            for _ in range(k - 1):
                T = ("list", T)
                if g.ch(0.15):
                    T = ("opt", T)
                    vals = [None if g.ch(0.2) else x for x in vals]
        lays.append(g.layout(T, vals))
    axis = k
    keys = rng.sample(["x", "y", "z", "w"], m) if g.ch(0.4) else []
    arg = g.ch(0.3)
    kw = {}
    nest = [False] * m
    if g.ch(0.5) and m > 1:
        if g.ch(0.5):
            nest, kw["nested"] = [True] * (m - 1) + [False], True
        else:
            nest = [g.ch(0.5) for _ in range(m - 1)] + [False]
            if axis == 0 and nest[0] and m > 2:
                nest[1] = True      # (known finding C12-nested0)
            kw["nested"] = [(keys[j] if keys else j) for j in range(m) if nest[j]]
    name = rng.choice(["", "", "point"])
    if name:
        kw["with_name"] = name
    e = {"op": "cartesian", "as": [dump(x) for x in lays], "axis": axis, "keys": keys, "arg": arg, "nested": nest, "name": name}
    try:
        arrs = {a: ak.Array(x) for a, x in zip(keys, lays)} if keys else [ak.Array(x) for x in lays]
        out = (ak.argcartesian if arg else ak.cartesian)(arrs, axis=axis, **kw)
    except Exception as ex:
        out = ex
    e["out"] = result(out)
    return e


def combos(rng, g):
    g.maxlen = rng.choice([3, 5])
    g.p_zero = 0.05
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]))
    vals = g.values(T)
    mn, mx = depths(T)
    lay = g.layout(T, vals)
    n = rng.choice([1, 2, 2, 2, 3, 4])
    axis = rng.randint(0, mx)
    if mn == mx and not recabove(T, mx) and g.ch(0.35):
        axis = -rng.randint(1, mx + 1)
    if contains(T, ("str",)) and axis > mn:
        axis = mn
    keys = rng.sample(["x", "y", "z", "w"], n) if g.ch(0.4) else []
    arg = g.ch(0.3) and axis >= 0
    e = {"op": "combinations", "as": [dump(lay)], "axis": axis, "n": n, "keys": keys, "arg": arg, "repl": g.ch(0.4)}
    try:
        out = (ak.argcombinations if arg else ak.combinations)(ak.Array(lay), n, replacement=e["repl"], axis=axis, fields=keys or None)
    except Exception as ex:
        out = ex
    e["out"] = result(out)
    return e
