"""Projection of real objects (arrays, values, types, exceptions) to the specification's representation."""
import json, math
import numpy as np
import awkward as ak

L = ak.layout
WIDE = 1 << 30
NEGZERO = True      # whether -0.0 is recorded as different from 0.0

LISTOFF = (L.ListOffsetArray32, L.ListOffsetArrayU32, L.ListOffsetArray64)
LISTARR = (L.ListArray32, L.ListArrayU32, L.ListArray64)
INDEXED = (L.IndexedArray32, L.IndexedArrayU32, L.IndexedArray64)
IDXOPT = (L.IndexedOptionArray32, L.IndexedOptionArray64)
UNION = (L.UnionArray8_32, L.UnionArray8_U32, L.UnionArray8_64)


def num(x):
    """A Python number as a tagged value."""
    if isinstance(x, (bool, np.bool_)):
        return ["b", bool(x)]
    if isinstance(x, (np.datetime64, np.timedelta64)):
        return ["d", str(x.dtype), wide(int(x.view("i8")))]
    if isinstance(x, (complex, np.complexfloating)):
        re, im = num(float(x.real)), num(float(x.imag))
        if re[0] == "n" and im[0] == "n":
            return ["c", re[1], im[1]]
        return ["x", repr(complex(x))]
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return ["nan"]
        if math.isinf(x):
            return ["inf"] if x > 0 else ["ninf"]
        y = 2 * x
        if abs(y) < 2 * WIDE and y == int(y) and not (NEGZERO and y == 0 and math.copysign(1, x) < 0):
            return ["n", int(y)]
        if WIDE <= abs(x) <= 2**53 and x == int(x):
            return ["w", x < 0, limbs(abs(int(x)))]
        return ["x", repr(x)]
    x = int(x)
    if abs(x) < WIDE:
        return ["n", 2 * x]
    return ["w", x < 0, limbs(abs(x))]


def limbs(x):
    """bytes of a natural number, the lowest first"""
    out = []
    while x:
        out.append(x & 255)
        x >>= 8
    return out


def wide(i):
    return i if abs(i) < WIDE else 0 if i == -2**63 else (i % 1000003) + 1


def val(x):
    """A Python object (as to_list or getitem return it) as a tagged value."""
    if x is None:
        return ["none"]
    if isinstance(x, str):
        return ["s", list(x.encode("utf-8", "surrogateescape"))]
    if isinstance(x, bytes):
        return ["y", list(x)]
    if isinstance(x, (bool, int, float, complex, np.generic)):
        return num(x)
    if isinstance(x, list):
        return ["l", [val(y) for y in x]]
    if isinstance(x, tuple):
        return ["t", [val(y) for y in x]]
    if isinstance(x, dict):
        return ["r", list(x.keys()), [val(y) for y in x.values()]]
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return num(x[()])
        return ["l", [val(y) for y in x]]
    raise TypeError("no value projection for " + repr(type(x)))


def ints(ix):
    return [int(x) for x in np.asarray(ix).tolist()]


def params(node, out):
    p = node.parameters
    if p:
        p = dict(p)
        a = p.pop("__array__", None)
        r = p.pop("__record__", None)
        if a is not None:
            out["a"] = a if isinstance(a, str) else json.dumps(a)
        if r is not None:
            out["rn"] = r
        if p:
            out["op"] = json.dumps(p, sort_keys=True)
    return out


def npnode(a):
    a = np.asarray(a)
    dt = str(a.dtype)
    out = {"c": "np", "dt": dt, "sh": list(a.shape)}
    flat = a.reshape(-1)
    k = a.dtype.kind
    if k == "b":
        out["d"] = [int(x) for x in flat.tolist()]
        return out
    if k in "iu":
        ls = flat.tolist()
        if all(-WIDE < x < WIDE for x in ls):
            out["d"] = [2 * x for x in ls]
            return out
    elif k == "f":
        ls = flat.tolist()
        vs = [num(x) for x in ls]
        if all(v[0] == "n" for v in vs):
            out["d"] = [v[1] for v in vs]
        else:
            out["v"] = vs
        return out
    elif k in "Mm":
        i8 = flat.view("i8").tolist()
        out["v"] = [["d", dt, wide(x)] for x in i8]
        return out
    out["v"] = [num(x) for x in flat]
    return out


def dump(nd):
    """The physical layout as a specification node."""
    if isinstance(nd, (ak.Array,)):
        nd = nd.layout
    if isinstance(nd, ak.partition.PartitionedArray):
        return {"c": "part", "xs": [dump(x) for x in nd.partitions]}
    if isinstance(nd, L.NumpyArray):
        if nd.format.startswith("M8") or nd.format.startswith("m8"):
            a = np.asarray(nd.view_int64).view(nd.format)
            out = npnode(a)
        else:
            out = npnode(np.asarray(nd))
        if len(out["sh"]) == 0:
            out = {"c": "scalar", "v": num(np.asarray(nd)[()])}
        return params(nd, out)
    if isinstance(nd, L.EmptyArray):
        return params(nd, {"c": "em"})
    if isinstance(nd, LISTOFF):
        return params(nd, {"c": "lo", "o": ints(nd.offsets), "x": dump(nd.content)})
    if isinstance(nd, LISTARR):
        return params(nd, {"c": "l", "s": ints(nd.starts), "e": ints(nd.stops), "x": dump(nd.content)})
    if isinstance(nd, L.RegularArray):
        return params(nd, {"c": "reg", "n": nd.size, "len": len(nd), "x": dump(nd.content)})
    if isinstance(nd, INDEXED):
        return params(nd, {"c": "ix", "i": ints(nd.index), "x": dump(nd.content)})
    if isinstance(nd, IDXOPT):
        return params(nd, {"c": "io", "i": ints(nd.index), "x": dump(nd.content)})
    if isinstance(nd, L.ByteMaskedArray):
        return params(nd, {"c": "bm", "m": ints(nd.mask), "vw": nd.valid_when, "x": dump(nd.content)})
    if isinstance(nd, L.BitMaskedArray):
        return params(nd, {"c": "bit", "m": ints(nd.mask), "vw": nd.valid_when, "lsb": nd.lsb_order,
                           "len": len(nd), "x": dump(nd.content)})
    if isinstance(nd, L.UnmaskedArray):
        return params(nd, {"c": "um", "x": dump(nd.content)})
    if isinstance(nd, L.RecordArray):
        return params(nd, {"c": "rec", "k": list(nd.keys()), "tup": bool(nd.istuple),
                           "xs": [dump(x) for x in nd.contents], "len": len(nd)})
    if isinstance(nd, UNION):
        return params(nd, {"c": "un", "t": ints(nd.tags), "i": ints(nd.index),
                           "xs": [dump(x) for x in nd.contents]})
    if isinstance(nd, L.VirtualArray):
        # inputs are looked at without going through their cache, results through it
        return dump(nd.array if PEEK else nd.generator())
    raise TypeError("no layout projection for " + repr(type(nd)))


def typ(t):
    """An ak.types object as a specification type (see Layout.tla, TypeOf)."""
    T = ak.types
    p = dict(t.parameters)
    a = p.get("__array__", "") or ""
    if isinstance(t, T.ArrayType):
        return typ(t.type)
    if p.get("__categorical__"):
        u = t
    if isinstance(t, T.PrimitiveType):
        out = ["prim", a, t.dtype]
    elif isinstance(t, T.UnknownType):
        out = ["unk"]
    elif isinstance(t, T.ListType):
        out = ["list", a, typ(t.type)]
    elif isinstance(t, T.RegularType):
        out = ["reg", a, t.size, typ(t.type)]
    elif isinstance(t, T.OptionType):
        out = ["opt", typ(t.type)]
    elif isinstance(t, T.RecordType):
        out = ["rec", p.get("__record__", "") or "", bool(t.recordlookup is None) if hasattr(t, "recordlookup") else t.istuple,
               list(t.keys()), [typ(x) for x in t.fields()]]
    elif isinstance(t, T.UnionType):
        out = ["un", [typ(x) for x in t.types]]
    else:
        raise TypeError(repr(t))
    if p.get("__categorical__"):
        out = ["cat", "categorical", out]
    return out


PEEK = False


def result(x):
    """The outcome of a call as the specification sees it."""
    global PEEK
    PEEK = True
    try:
        return _result(x)
    except (ValueError, RuntimeError) as err:   # a lazy result whose making fails
        return {"k": "err", "e": type(err).__name__}
    finally:
        PEEK = False


def _result(x):
    if isinstance(x, BaseException):
        return {"k": "err", "e": type(x).__name__}
    if isinstance(x, (ak.Array, L.Content, ak.partition.PartitionedArray)):
        d = dump(x)
        if d["c"] == "np" and d.get("a") in ("char", "byte") and len(d["sh"]) == 1:
            # one string out of an array of strings
            return {"k": "val", "v": ["s" if d["a"] == "char" else "y", [k // 2 for k in d["d"]]]}
        if d["c"] == "scalar":
            return {"k": "val", "v": d["v"]}
        return {"k": "arr", "n": d}
    if isinstance(x, ak.Record):
        x = x.layout
    if isinstance(x, L.Record):
        return {"k": "row", "n": dump(x.array), "at": x.at}
    if isinstance(x, np.ndarray) and x.ndim > 0:
        return {"k": "arr", "n": npnode(x)}
    return {"k": "val", "v": val(x)}
