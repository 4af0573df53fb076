"""Operations on the structure of lists."""
import numpy as np
import awkward as ak
from gen import G, depths, contains, recabove
from project import dump, result, num

import project
project.NEGZERO = False


def case(rng, i):
    op = rng.choice(["num", "num", "local_index", "pad_none", "pad_none", "pad_none", "firsts", "flatten", "flatten", "flatten", "flatten_all",
                     "unflatten", "unflatten", "run_lengths", "to_regular", "from_regular", "packed", "packed", "singletons"])
    g = G(rng, exact=rng.random() < 0.5, odd=0.02, more=0.05, p_un=0 if op in ("run_lengths", "flatten_all") else 0.04)
    if op in ("firsts", "flatten", "flatten_all"):
        g.p_rec = 0.05 if op == "flatten" else 0
        if op != "firsts":
            g.p_zero = 0
    if op == "flatten_all":
        g.p_str = 0
    if op == "run_lengths":
        g.p_rec, g.hi, g.lo, g.p_opt, g.maxlen, g.p_reg = 0, 1, 0, 0, 8, 0
        g.p_wrap = 0
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]) if op != "run_lengths" else rng.choice([0, 1, 1]))
    vals = g.values(T)
    mn, mx = depths(T)
    lay = g.layout(T, vals)
    a = ak.Array(lay)
    e = {"op": op, "a": dump(lay), "axis": 0}
    # one beyond the innermost: an error (the characters of strings are left alone)
    axis = rng.randint(0, mx + (1 if g.ch(0.1) and not contains(T, ("str",)) else 0))
    if mn == mx and not recabove(T, mx) and g.ch(0.35):
        axis = -rng.randint(1, mx + 1)
    if contains(T, ("str",)) and axis > mn:
        axis = mn
    if op in ("to_regular", "from_regular") and axis > mn:
        return None
    if op == "to_regular" and recabove(T, axis if axis >= 0 else mx + 1 + axis):
        return None
    e["axis"] = axis
    try:
        if op == "num":
            out = ak.num(a, axis=axis)
        elif op == "local_index":
            out = ak.local_index(a, axis=axis)
        elif op == "pad_none":
            e["n"], e["clip"] = rng.randint(0, 5), g.ch(0.5)
            out = ak.pad_none(a, e["n"], axis=axis, clip=e["clip"])
        elif op == "firsts":
            out = ak.firsts(a, axis=axis)
        elif op == "flatten":
            out = ak.flatten(a, axis=axis)
        elif op == "flatten_all":
            e["axis"] = 0
            out = ak.flatten(a, axis=None)
        elif op == "unflatten":
            c = rng.random()
            if c < 0.2:
                e["axis"], e["n"] = 0, rng.randint(0, 4)
                out = ak.unflatten(a, e["n"])
            else:
                e["axis"] = axis = 0 if c < 0.7 or not (T[1] if T[0] == "opt" else T)[0] in ("list", "reg") else 1
                n = len(vals) if axis == 0 else None
                if axis == 0:
                    cs = []
                    while sum(x or 0 for x in cs) < n or g.ch(0.2):
                        cs.append(None if g.ch(0.1) else rng.randint(0, min(3, n - sum(x or 0 for x in cs))))
                else:
                    cs = []
                    for v in vals:
                        m = len(v) if v is not None else 0
                        while m:
                            k = rng.randint(1, m); cs.append(k); m -= k
                if cs and g.ch(0.15):
                    cs[rng.randrange(len(cs))] = rng.randint(0 if axis == 0 else 1, 3)
                cl = g.layout(("opt", ("prim", "int64")) if None in cs else ("prim", rng.choice(["int64", "int32", "uint8"])), cs)
                e["counts"] = dump(cl)
                out = ak.unflatten(a, ak.Array(cl), axis=axis)
        elif op == "run_lengths":
            e["axis"] = 0
            out = ak.run_lengths(a)
        elif op == "to_regular":
            out = ak.to_regular(a, axis=axis)
        elif op == "from_regular":
            out = ak.from_regular(a, axis=axis)
        elif op == "packed":
            out = ak.packed(a)
        elif op == "singletons":
            out = ak.singletons(a)
    except Exception as ex:
        out = ex
    e["out"] = result(out)
    return e
