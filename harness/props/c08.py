"""Reducers."""
import fractions
import numpy as np
import awkward as ak
from gen import G, depths, contains
from project import dump, result, num, val

import project
project.NEGZERO = False

OPS = ["count", "count_nonzero", "sum", "prod", "any", "all", "min", "max", "argmin", "argmax"]


def optrec(T, top=True):
    """a missing record (or below a record) somewhere"""
    k = T[0]
    if k == "opt":
        return T[1][0] in ("rec", "tup") or optrec(T[1])
    ts = T[2] if k == "rec" else T[1] if k in ("tup", "un") else [T[2]] if k == "reg" else [T[1]] if k == "list" else []
    return any(optrec(t) for t in ts)


def frac(x):
    """a result with every number as an exact fraction"""
    if x is None:
        return ["none"]
    if isinstance(x, list):
        return ["l", [frac(y) for y in x]]
    x = float(x)
    if x != x:
        return ["nan"]
    if x in (float("inf"), float("-inf")):
        return ["inf"]
    f = fractions.Fraction(x).limit_denominator(4096)
    if abs(float(f) - x) > 1e-5 * max(1, abs(x)) or abs(f.numerator) > 2**30:
        return ["x", repr(x)]
    return ["q", f.numerator, f.denominator]


def same(g, v):
    if v is None:
        return None
    if isinstance(v, list):
        return [same(g, x) for x in v]
    return g.r.randint(1, 3)


def wtype(T):
    if T[0] == "list": return ("list", wtype(T[1]))
    if T[0] == "reg": return ("reg", T[1], wtype(T[2]))
    if T[0] == "opt": return ("opt", wtype(T[1]))
    return ("prim", "int64")


def means(rng):
    op = rng.choice(["mean", "mean", "var", "std2", "moment", "ptp"])
    g = G(rng, p_str=0, p_rec=0, dtypes=["int64", "float64", "int64", "float64", "int32"], maxlen=4, half=0.1 if op in ("mean", "ptp") else 0, p_long=0, wide=0)
    if op in ("var", "std2"):
        g.p_opt = 0.1
    g.p_zero = 0
    T = g.type(rng.choice([1, 1, 2]))
    if op in ("var", "std2") and contains(T, ("reg",)) and contains(T, ("opt",)):
        return None
    vals = g.values(T)
    lay = g.layout(T, vals)
    mn, mx = depths(T)
    axis = rng.choice([None, -1, -1, rng.randint(-mx - 1, mx)])
    e = {"op": op, "a": dump(lay), "mask": g.ch(0.5), "keep": g.ch(0.2), "init": 1}
    if op in ("var", "std2"):
        axis = rng.choice([None, -1, mx])
        e["keep"] = False
    if op == "ptp":
        axis = -1 if axis is None else axis
        e["mask"] = e["mask"] or contains(T, ("opt",))
    kw = {"axis": axis, "keepdims": e["keep"], "mask_identity": e["mask"]}
    if axis is not None:
        e["axis"] = axis
    else:
        e["keep"] = e["mask"] = False
        del kw["keepdims"], kw["mask_identity"]
    if op == "moment":
        e["init"] = rng.choice([1, 2, 2, 3])
        args = (e["init"],)
    else:
        args = ()
    if op in ("var", "std2"):
        e["init"] = kw["ddof"] = rng.choice([0, 0, 1])
    if op != "ptp" and not contains(T, ("opt",)) and g.ch(0.3):
        wt = wtype(T)
        wl = g.layout(wt, same(g, vals))
        kw["weight"] = ak.Array(wl)
        e["w"] = dump(wl)
    try:
        f = getattr(ak, "std" if op == "std2" else op)
        out = f(ak.Array(lay), *args, **kw)
        if op == "std2":
            out = out ** 2
        if op == "ptp":
            e["res"] = val(out.tolist() if hasattr(out, "layout") else out)
        else:
            e["res"] = frac(out.tolist() if hasattr(out, "layout") else out)
        e["out"] = {"k": "val"}
    except Exception as ex:
        e["res"] = ["err"]
        e["out"] = {"k": "err"}
    return e


KNOWN = [("C08-outer-short", [[[5.0, 7.0]], [], [[3.0]]])]


def case(rng, i):
    if i < len(KNOWN):
        a = ak.Array(KNOWN[i][1])
        return {"op": "argmin", "a": dump(a.layout), "mask": True, "keep": False, "init": ["none"], "axis": 0,
                "kf": KNOWN[i][0], "out": result(ak.argmin(a, axis=0))}
    if rng.random() < 0.2:
        return means(rng)
    op = rng.choice(OPS)
    kw = dict(p_str=0, lo=-3, hi=6, wide=0)
    if op == "prod":
        kw = dict(p_str=0, lo=-1, hi=2, half=0, maxlen=3, p_long=0, wide=0)
    if op in ("sum", "any", "all", "count_nonzero", "count") and rng.random() < 0.2:
        kw.update(nan=0.05, inf=0.1)
    if rng.random() < 0.1:
        kw["dtypes"] = ["complex128", "complex64"]
    elif rng.random() < 0.08 and op in ("min", "max", "argmin", "argmax", "count"):
        kw["dtypes"] = ["datetime64[s]", "timedelta64[s]"]
    elif rng.random() < 0.2:
        kw.update(wide=0.3, exact=False, half=0)
        if op in ("sum", "prod"):
            kw["dtypes"] = ["int64", "int32", "uint32", "uint64", "int64", "int16", "uint16", "int8", "uint8"]
    g = G(rng, **kw)
    g.maxdepth = 4
    while True:
        T = g.type()
        if not optrec(T):
            break
    vals = g.values(T)
    lay = g.layout(T, vals)
    a = ak.Array(lay)
    mn, mx = depths(T)
    e = {"op": op, "a": dump(lay), "mask": g.ch(0.5), "keep": g.ch(0.3), "init": ["none"]}
    if "datetime64[s]" in kw.get("dtypes", ()):
        e["mask"] = True
    if g.ch(0.15) and not contains(T, ("rec", "tup")):
        kws = {}
        e["keep"] = False; e["mask"] = False
        axis = None
    else:
        axis = rng.choice([-1, -1, rng.randint(-mx - 1, -1), rng.randint(0, mx)])
        if g.ch(0.05):
            axis = rng.choice([mx + 1, -mx - 2])
        if mn != mx and axis < -1:
            axis = -1           # fields of different depths: only the innermost axis is the same in all of them
        e["axis"] = axis
        kws = {"keepdims": e["keep"], "mask_identity": e["mask"]}
        if op in ("min", "max") and g.ch(0.2) and "dtypes" not in kw and not contains(T, ("rec", "tup")) and not anyT(T, "bool"):
            x = rng.randint(0, 5)
            kws["initial"] = x
            e["init"] = num(x)
    try:
        out = getattr(ak, op)(a, axis=axis, **kws)
    except Exception as ex:
        out = ex
    e["out"] = result(out)
    return e


def anyT(T, dt):
    if T[0] == "prim":
        return T[1] == dt
    ts = T[2] if T[0] == "rec" else T[1] if T[0] in ("tup", "un") else [T[2]] if T[0] == "reg" else [T[1]] if T[0] in ("list", "opt") else []
    return any(anyT(t, dt) for t in ts)
