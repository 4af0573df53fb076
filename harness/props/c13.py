"""Missing values and element-by-element replacement."""
import numpy as np
import awkward as ak
from gen import G, depths, contains, recabove
from project import dump, result, num, val

import project
project.NEGZERO = False


def maskfor(g, T, vals, k):
    """a mask that matches the top k list levels: type and values"""
    if k == 0 or T[0] in ("rec", "tup", "prim", "str", "un"):
        B = ("prim", "bool")
        if g.ch(0.2):
            B = ("opt", B)
        return B, [g.value(B) for _ in vals]
    if T[0] == "opt":
        T = T[1]
    if T[0] not in ("list", "reg"):
        return maskfor(g, T, vals, 0)
    E = T[1] if T[0] == "list" else T[2]
    flat = [y for v in vals if v is not None for y in v]
    B, m = maskfor(g, E, flat, k - 1)
    out, p = [], 0
    for v in vals:
        n = 0 if v is None else len(v)
        out.append(m[p:p + n])
        p += n
    return ("list", B), out


def hasfloat(T):
    return "'float" in repr(T)


def case(rng, i):
    op = rng.choice(["is_none", "is_none", "fill_none", "fill_none", "fill_none", "mask", "mask", "full_like", "full_like", "astype", "astype",
                     "nan_to_num", "copy"])
    g = G(rng, exact=op in ("astype", "full_like", "fill_none") or rng.random() < 0.5, p_opt=0.35, p_bytes=0.03, p_un=0.04, more=0 if op in ("astype", "full_like") else 0.05)
    if op == "nan_to_num":
        g.nan, g.inf, g.p_str, g.p_bytes = 0.2, 0.2, 0.02, 0
        g.dtypes = ["float64"] * 3 + ["float32", "int64", "bool"]
    if op == "is_none":
        g.p_rec = 0.1
    if op == "mask":
        g.p_zero = 0.03
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]))
    mn, mx = depths(T)
    e = {"op": op, "axis": 0}
    kw = {}
    if op == "astype":
        dt = rng.choice(["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"])
        if dt.startswith("u"):
            g.lo = 0
        e["op"] = "bool" if dt == "bool" else "float" if dt.startswith("f") else "int"
        e["dt"] = dt
        if dt == "float32" or dt[0] in "ui" and hasfloat(T):
            g.wide = 0      # not defined
    if op == "full_like":
        g.lo = 0
    vals = g.values(T)
    lay = g.layout(T, vals)
    a = ak.Array(lay)
    e["a"] = dump(lay)
    try:
        if op == "is_none":
            axis = rng.randint(0, mx)
            if mn == mx and not recabove(T, mx) and g.ch(0.35):
                axis = -rng.randint(1, mx + 1)
            if axis > mn:
                axis = mn
            e["axis"] = axis
            out = ak.is_none(a, axis=axis)
        elif op == "fill_none":
            v = rng.choice([0, 7, 2.5, True, "hi", "", [], [1, 2], {"x": 1}])
            e["v"] = val(v)
            out = ak.fill_none(a, ak.Record(v) if isinstance(v, dict) and g.ch(0.5) else v)
        elif op == "mask":
            k = rng.randint(0, mx)
            M, m = maskfor(g, T, vals, k)
            if len(m) > 1 and g.ch(0.05):
                m.append(m[0])
            ml = g.layout(M, m)
            e["m"] = dump(ml)
            e["vw"] = g.ch(0.5)
            out = ak.mask(a, ak.Array(ml), valid_when=e["vw"])
        elif op == "full_like":
            which = rng.choice(["zeros", "ones", "full", "full"])
            f = {"zeros": 0, "ones": 1}.get(which, rng.choice([0, 1, 2, 7]))
            if g.ch(0.3) and not contains(T, ("str",)) and not contains(T, ("bytes",)):
                e["dt"] = rng.choice(["bool", "int8", "int64", "float32", "float64", "uint16"])
                kw["dtype"] = bool if e["dt"] == "bool" else getattr(np, e["dt"])
                if e["dt"] == "bool":
                    f = min(f, 1)
            e["v"] = num(f)
            e["sv"] = list(("" if which == "zeros" else str(f)).encode())
            out = ak.zeros_like(a, **kw) if which == "zeros" else ak.ones_like(a, **kw) if which == "ones" else ak.full_like(a, f, **kw)
        elif op == "astype":
            out = ak.values_astype(a, getattr(np, dt if dt != "bool" else "bool_"))
        elif op == "nan_to_num":
            x, y, z = [float(rng.randint(-5, 5)) for _ in range(3)]
            e["nan"], e["inf"], e["ninf"] = num(x), num(y), num(z)
            out = ak.nan_to_num(a, nan=x, posinf=y, neginf=z)
        elif op == "copy":
            out = ak.copy(a)
    except Exception as ex:
        out = ex
    e["out"] = result(out)
    return e
