"""The types of results: names, numeric types, fixed sizes and options follow the data."""
import json

import numpy as np
import awkward as ak
from gen import G, contains
from project import dump, result

NAMES = ["point", "Vec2", "track"]


def named(g, T):
    """names of records and lists, by place in the type"""
    k = T[0]
    nm = g.r.choice(NAMES) if g.ch(0.5) else None
    if k in ("list", "reg", "opt"):
        return (nm if k != "opt" and g.ch(0.4) else None, [named(g, T[-1])])
    if k in ("rec", "tup"):
        return (nm, [named(g, t) for t in T[-1]])
    if k == "un":
        return (None, [named(g, t) for t in T[1]])
    return (None, [])


REC = ak.layout.RecordArray
LISTS = (ak.layout.ListArray32, ak.layout.ListArrayU32, ak.layout.ListArray64, ak.layout.ListOffsetArray32, ak.layout.ListOffsetArrayU32,
         ak.layout.ListOffsetArray64, ak.layout.RegularArray)


def apply(lay, T, nm):
    """the layout with those names"""
    name, subs = nm
    if isinstance(lay, ak.layout.NumpyArray) and T[0] == "reg":
        lay = lay.toRegularArray()
    if T[0] in ("rec", "tup") and isinstance(lay, REC):
        xs = [apply(x, t, s) for x, t, s in zip(lay.contents, T[-1], subs)]
        out = ak.layout.RecordArray(xs, lay.recordlookup, len(lay), parameters=lay.parameters)
        return out.withparameter("__record__", name) if name else out
    if T[0] in ("list", "reg") and isinstance(lay, LISTS):
        out = rebuild(lay, apply(lay.content, T[-1], subs[0]))
        return out.withparameter("__array__", name) if name else out
    if isinstance(lay, ak.layout.IndexedArray64) or type(lay).__name__.startswith("IndexedArray"):
        return rebuild(lay, apply(lay.content, T, nm))
    if T[0] == "opt":
        return rebuild(lay, apply(lay.content, T[1], subs[0])) if hasattr(lay, "content") else lay
    return lay


def rebuild(lay, x):
    n = type(lay).__name__
    p = lay.parameters
    L = ak.layout
    if n.startswith("ListOffset"):
        return type(lay)(lay.offsets, x, parameters=p)
    if n.startswith("ListArray"):
        return type(lay)(lay.starts, lay.stops, x, parameters=p)
    if n == "RegularArray":
        return L.RegularArray(x, lay.size, len(lay), parameters=p)
    if n.startswith("Indexed"):
        return type(lay)(lay.index, x, parameters=p)
    if n == "ByteMaskedArray":
        return L.ByteMaskedArray(lay.mask, x, lay.valid_when, parameters=p)
    if n == "BitMaskedArray":
        return L.BitMaskedArray(lay.mask, x, lay.valid_when, len(lay), lay.lsb_order, parameters=p)
    if n == "UnmaskedArray":
        return L.UnmaskedArray(x, parameters=p)
    raise AssertionError(n)


def strip(T):
    return strip(T[1]) if T[0] == "opt" else T


def fieldsof(T):
    T = strip(T)
    if T[0] in ("list", "reg"):
        return fieldsof(T[-1])
    return list(T[1]) if T[0] == "rec" else [str(i) for i in range(len(T[1]))] if T[0] == "tup" else []


def numeric(T):
    return not contains(T, ("str", "bytes", "rec", "tup", "un", "unk"))


def leafopt(T):
    """missing values only at the leaves, and those of the type of the replacement"""
    while T[0] in ("list", "reg"):
        T = T[-1]
    return strip(T) in (("prim", "int64"), ("prim", "float64"))


def case(rng, i):
    g = G(rng, p_un=0, p_bytes=0.05, p_str=0.1, p_rec=0.25, rec0=0, maxlen=rng.choice([2, 3, 4]), p_empty=0)
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]))
    if contains(T, ("unk", "un")):
        return None
    vals = g.values(T)
    if g.ch(0.1):
        vals = []
    lay = apply(g.layout(T, vals), T, named(g, T))
    d = dump(lay)
    if len(json.dumps(d)) > 20000:
        return None
    a = ak.Array(lay)
    n = len(vals)
    S = strip(T)
    lst = S[0] in ("list", "reg")
    fs = fieldsof(T)
    how = rng.choice(["range", "take", "boolmask", "opttake", "mask", "copy", "concat", "packed", "newaxis", "unflatten", "zip", "pad0", "singletons", "repeat",
                      "isnone0", "localindex0", "pairs0"]
                     + ["num1", "localindex1", "pairs1", "fromregular", "toregular"] * lst + ["fillnone"] * numeric(T) + ["withname"] * bool(fs) + ["withfield"] * (S[0] == "rec")
                     + ["at", "inrange", "inrange", "inat", "flatten", "pad1", "pad1", "firsts", "jagged", "jagged"] * lst
                     + ["field", "fields"] * bool(fs) + ["at"] * (S[0] in ("rec", "tup")) + ["sort", "astype"] * numeric(T))
    if how in ("concat", "repeat", "zip", "sort", "jagged") and contains(T, ("reg",)):
        return None
    e = {"op": "typing", "how": how, "a": d}
    try:
        if how == "range":
            s = slice(rng.choice([None, rng.randint(-n - 1, n + 1)]), rng.choice([None, rng.randint(-n - 1, n + 1)]), rng.choice([None, 1, 2, -1]))
            out = a[s]
        elif how == "take":
            ix = [rng.randint(-n, n - 1) for _ in range(rng.randint(0, 4))] if n else []
            out = a[np.array(ix, dtype=np.int64)] if g.ch(0.5) else a[ak.Array(np.array(ix, dtype=np.int64))]
        elif how == "boolmask":
            m = np.array([g.ch(0.5) for _ in range(n)], dtype=bool)
            out = a[m] if g.ch(0.5) else a[ak.Array(m)]
        elif how == "opttake":
            ix = [rng.randint(-n, n - 1) if g.ch(0.7) else None for _ in range(rng.randint(1, 4))] if n else [None]
            out = a[ak.Array(ix + [None])] if n else a[ak.Array(ak.layout.IndexedOptionArray64(ak.layout.Index64(np.array([-1])), ak.layout.NumpyArray(np.array([], np.int64))))]
        elif how == "mask":
            m = np.array([g.ch(0.5) for _ in range(n)], dtype=bool)
            out = ak.mask(a, m, valid_when=g.ch(0.5)) if g.ch(0.5) else a.mask[m]
        elif how == "copy":
            out = ak.copy(a)
        elif how == "concat":
            out = ak.concatenate([a, a] if g.ch(0.5) else [a, a[:1], a])
        elif how == "packed":
            out = ak.packed(a)
        elif how == "repeat":
            out = ak.concatenate([a[:1], a])[rng.randint(0, 1):]
        elif how == "newaxis":
            e["n"] = n
            out = a[np.newaxis]
        elif how == "unflatten":
            k = rng.randint(0, n)
            out = ak.unflatten(a, np.array([k, n - k]))
        elif how == "zip":
            tup, nm = g.ch(0.4), g.r.choice(NAMES + ["", ""])
            e.update(tup=tup, fs=["0", "1"] if tup else ["p", "q"], name=nm)
            kw = {"with_name": nm} if nm else {}
            out = ak.zip([a, a] if tup else {"p": a, "q": a}, depth_limit=1, **kw)
        elif how == "pad0":
            e["n"] = rng.randint(0, n + 2)
            out = ak.pad_none(a, e["n"], axis=0)
        elif how == "singletons":
            out = ak.singletons(a)
            if T[0] != "opt":
                return None
        elif how == "fillnone":
            if not leafopt(T):
                return None
            out = ak.fill_none(a, 0)
        elif how == "isnone0":
            out = ak.is_none(a)
        elif how == "num1":
            out = ak.num(a, axis=1)
        elif how == "localindex0":
            out = ak.local_index(a, axis=0)
        elif how == "localindex1":
            out = ak.local_index(a, axis=1)
        elif how == "withname":
            e["name"] = rng.choice(NAMES)
            out = ak.with_name(a, e["name"])
        elif how == "withfield":
            out = ak.with_field(a, np.arange(n), "new")
        elif how == "pairs0":
            out = ak.combinations(a, 2, axis=0, replacement=g.ch(0.5))
        elif how == "pairs1":
            e["rep"] = g.ch(0.5)
            out = ak.combinations(a, 2, axis=1, replacement=e["rep"])
        elif how == "fromregular":
            out = ak.from_regular(a, axis=1)
        elif how == "toregular":
            ls = {len(v) for v in vals if v is not None}
            if len(ls) != 1:
                return None
            e["n"] = ls.pop()
            out = ak.to_regular(a, axis=1)
        elif how == "at":
            if not n:
                return None
            out = a[rng.randint(-n, n - 1)]
            if out is None or isinstance(out, (str, bytes)):
                return None
        elif how == "inrange":
            lo, hi = rng.randint(-3, 3), rng.randint(-3, 3)
            e.update(lo=lo, hi=hi)
            out = a[:, lo:hi]
        elif how == "inat":
            if any(v is None or not len(v) for v in vals) or (S[0] == "reg" and S[1] == 0):
                return None
            out = a[:, rng.choice([0, -1])]
        elif how == "flatten":
            out = ak.flatten(a, axis=1)
        elif how == "pad1":
            k = rng.randint(0, 3)
            e.update(n=k, clip=g.ch(0.5))
            out = ak.pad_none(a, k, axis=1, clip=e["clip"])
        elif how == "firsts":
            out = ak.firsts(a)
        elif how == "jagged":
            ix = ak.local_index(a, axis=1)
            out = a[ix] if g.ch(0.5) else a[ix >= 0]
        elif how == "field":
            f = rng.choice(fs)
            e["f"] = f
            out = a[f]
        elif how == "fields":
            k = rng.sample(fs, rng.randint(1, len(fs)))
            e["fs"] = k
            out = a[k]
        elif how == "sort":
            e["axis"] = rng.choice([-1, 0])
            out = ak.sort(a, axis=e["axis"], ascending=g.ch(0.5))
        else:
            e["dt"] = rng.choice(["int8", "float32", "uint64", "float64", "bool"])
            out = ak.values_astype(a, e["dt"])
        e["out"] = result(out)
    except Exception as err:
        e["out"] = result(err)
        e["msg"] = str(err)[:300]
    return e
