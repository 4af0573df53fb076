"""Conversions to and from Python objects, JSON and NumPy."""
import json, math, os, tempfile
import numpy as np
import awkward as ak
from gen import G, depths, contains
from project import dump, result, num, val

import project
project.NEGZERO = False


def npval(a):
    """a NumPy array as a value, masked entries as missing"""
    if isinstance(a, np.ma.MaskedArray) and a.dtype.names is None:
        m = np.ma.getmaskarray(a)
        if a.ndim == 1:
            return ["l", [["none"] if m[i] else val(a.data[i]) for i in range(len(a))]]
        return ["l", [npval(a[i]) for i in range(len(a))]]
    if a.dtype.names is not None:
        cols = [npval(a[n]) for n in a.dtype.names]
        if a.ndim == 1:
            return ["l", [["r", list(a.dtype.names), [c[1][i] for c in cols]] for i in range(len(a))]]
        return ["l", [npval(a[i]) for i in range(len(a))]]
    if a.ndim == 1:
        return ["l", [val(x) for x in a]]
    return ["l", [npval(a[i]) for i in range(len(a))]]


def tolist(x):
    if hasattr(x, "layout"):
        raise AssertionError("not a Python object")
    return val(x)


def nul(v):
    """does any string in there end in a zero?"""
    if isinstance(v, (str, bytes)):
        return v[-1:] in ("\0", b"\0")
    if isinstance(v, dict):
        return any(nul(x) for x in v.values())
    return isinstance(v, (list, tuple)) and any(nul(x) for x in v)


def case(rng, i):
    op = rng.choice(["to_list", "iter", "tojson", "tojson", "jsonfile", "json2", "to_numpy", "to_numpy", "to_numpy", "from_numpy", "from_iter",
                     "getitem", "masked", "structured"])
    g = G(rng, nan=0.05, inf=0.05, odd=0.05, more=0.05, p_un=0.05, p_bytes=0.02, maxlen=rng.choice([3, 5]))
    if g.ch(0.3):
        g.exact, g.wide = False, 0.3
        if op in ("json2", "from_iter"):            # no unsigned integers beyond the builder's; no rounding in unions
            g.dtypes, g.p_un = ["int64", "int32", "bool", "int8"], 0
    if op in ("tojson", "jsonfile", "json2"):
        g.p_bytes = 0
    if op == "from_iter":
        g.p_un = 0
    if op == "to_numpy":
        g.p_un, g.p_bytes, g.p_rec, g.maxlen, g.p_reg, g.p_zero, g.p_opt = 0, 0, 0, 2, 0.5, 0, 0.3
        g.p_empty = 0
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]))
    if op == "structured":
        g.p_opt = g.p_str = 0
        T = ("rec", ["x", "y"], [("prim", rng.choice(g.dtypes)), ("prim", rng.choice(g.dtypes))])
        g.p_opt = 0.3
        T = (T[0], T[1], [("opt", x) if g.ch(0.25) else x for x in T[2]])
        if g.ch(0.3):
            T = (rng.choice(["list", "reg"]), T)
            T = T if T[0] == "list" else ("reg", 2, T[1])
            g.maxlen = 2
    if op == "json2" and g.ch(0.05):
        T = ("prim", "uint64")                      # beyond the builder's integers, these are read as floats, so exact ones only
        vals = [rng.choice([0, 1, 2**53, 2**63 - 2**10, 2**63, 2**63 + 2**11, 2**64 - 2**11, rng.randrange(2**53) * 2**11]) for _ in range(rng.randint(1, 4))]
    else:
        vals = g.values(T)
    lay = g.layout(T, vals)
    a = ak.Array(lay)
    e = {"op": "values", "a": dump(lay), "how": op}
    try:
        if op == "to_list":
            out = {"k": "val", "v": tolist(ak.to_list(a))}
        elif op == "iter":
            out = {"k": "val", "v": tolist([x.tolist() if hasattr(x, "tolist") and not isinstance(x, np.generic) else x for x in a])}
        elif op == "getitem":
            out = {"k": "val", "v": tolist([ak.to_list(a[k]) for k in range(len(a))])}
        elif op in ("tojson", "jsonfile", "json2"):
            e["op"] = "json"
            kw = {}
            for k, name, s in (("nan", "nan_string", "NAN"), ("inf", "infinity_string", "INF"), ("ninf", "minus_infinity_string", "-INF")):
                if op == "json2" or g.ch(0.3):
                    kw[name] = s
                    e[k] = ["s", list(s.encode())]
            kw["pretty"] = g.ch(0.3)
            if "date" in repr(T) or "delta" in repr(T):
                return None             # not in JSON
            if "complex" in repr(T):
                e["cplx"] = rng.choice([["r", "i"], ["real", "imag"]])
                kw["complex_record_fields"] = tuple(e["cplx"])
            if op == "jsonfile":
                with tempfile.NamedTemporaryFile(suffix=".json", delete=False) as f:
                    name = f.name
                try:
                    ak.to_json(a, destination=name, buffersize=rng.choice([4, 64, 65536]), **kw)
                    text = open(name).read()
                finally:
                    os.unlink(name)
            else:
                text = ak.to_json(a, **kw)
            if op == "json2":
                for k in ("nan", "inf", "ninf"):
                    del e[k]
                e.pop("cplx", None)
                kw.pop("pretty")
                if not vals:
                    return None
                x = (ak.from_json(text, initial=rng.choice([1, 2, 1024]), buffersize=rng.choice([4, 16, 65536]), **kw))
                out = {"k": "val", "v": val([int(y) for y in ak.to_list(x)])} if T == ("prim", "uint64") else result(x)
            else:
                out = {"k": "val", "v": val(json.loads(text))}
        elif op == "to_numpy":
            if nul(vals):
                return None             # NumPy's strings are padded with zeros
            e["op"] = "numpy"
            out = ak.to_numpy(a)
            if out.dtype == np.dtype(object):
                raise AssertionError
            out = {"k": "val", "v": npval(out)}
        elif op == "from_iter":
            out = result(ak.from_iter(ak.to_list(a), initial=rng.choice([1, 2, 1024])))
        elif op == "structured":
            e["op"] = "numpy"
            x = ak.to_numpy(a)
            if x.ndim == 1 and g.ch(0.5):
                e["op"], out = "values", result(ak.from_numpy(x))
            else:
                out = {"k": "val", "v": npval(x)}
        else:
            n = rng.randint(0, 4)
            sh = (n,) + tuple(rng.randint(0, 3) for _ in range(rng.choice([0, 1, 1, 2])))
            dt = rng.choice(g.dtypes + ["datetime64[s]", "complex128", "U", "S"])
            k = int(np.prod(sh))
            if dt in "US":
                sh = (n,)
                x = np.array([g.value(("str",) if dt == "U" else ("bytes",)).strip("\0" if dt == "U" else b"\0") for _ in range(n)], dtype=dt + "4" if g.ch(0.5) else None)
                if n == 0 or x.dtype.kind not in "US":
                    return None
            else:
                x = np.array([g.scalar(dt) for _ in range(k)], dtype=dt).reshape(sh)
            if g.ch(0.3) and x.ndim > 1:
                x = np.asfortranarray(x)
            if g.ch(0.3):
                x = np.repeat(x, 2, axis=0)[::2]
            if op == "masked":
                x = np.ma.MaskedArray(x, mask=np.array([g.ch(0.3) for _ in range(k if dt not in "US" else n)]).reshape(sh) if g.ch(0.8) else np.ma.nomask)
            # here the array under test is the result; what it has to denote is what NumPy has
            y = ak.from_numpy(x, regulararray=g.ch(0.5))
            e["a"] = dump(y)
            if dt == "S":
                out = {"k": "val", "v": npval(x)}
            else:
                out = {"k": "val", "v": npval(x)}
    except Exception as ex:
        out = result(ex)
    e["out"] = out
    return e
