"""Arrow and Parquet: what is written is what the array says, what is read is what was written."""
import os, shutil, tempfile
import numpy as np
import pyarrow as pa
import pyarrow.parquet as pq
import awkward as ak
from gen import G, contains
from project import dump, result, val
from props.c16 import split, touch


def paval(x):
    """a pyarrow scalar as a value"""
    if x is None:
        return ["none"]
    if isinstance(x, dict):
        return ["r", list(x), [paval(v) for v in x.values()]]
    if isinstance(x, list):
        return ["l", [paval(v) for v in x]]
    return val(x)


def pafield(rng, name, t):
    """what holds a dictionary is not nullable: pyarrow fills dictionaries with index 0 wherever something around them is null"""
    return pa.field(name, t, nullable=pa.types.is_dictionary(t) or (rng.random() < 0.5 and not holds(t)))


def holds(t):
    return not pa.types.is_dictionary(t) and "dictionary" in str(t)


def patype(rng, d, top=True):
    r = rng.random()
    if d > 0 and r < 0.35:
        f = pafield(rng, "item", patype(rng, d - 1, False))
        return rng.choice([pa.list_(f), pa.large_list(f), pa.list_(f, rng.choice([1, 2, 3]))])
    if d > 0 and r < 0.6:
        return pa.struct([pafield(rng, n, patype(rng, d - 1, False)) for n in ["x", "y"][:rng.randint(1, 2)]])
    if r < 0.68:
        return pa.dictionary(rng.choice([pa.int8(), pa.int32(), pa.int64()]), pa.string())
    return rng.choice([pa.int64(), pa.float64(), pa.int8(), pa.uint16(), pa.bool_(), pa.bool_(), pa.string(), pa.large_string(), pa.binary(), pa.large_binary()])


def padata(rng, t, nullable):
    if nullable and rng.random() < 0.25:
        return None
    if pa.types.is_fixed_size_list(t):
        return [padata(rng, t.value_type, t.value_field.nullable) for _ in range(t.list_size)]
    if pa.types.is_list(t) or pa.types.is_large_list(t):
        return [padata(rng, t.value_type, t.value_field.nullable) for _ in range(rng.randint(0, 3))]
    if pa.types.is_struct(t):
        return {t[i].name: padata(rng, t[i].type, t[i].nullable) for i in range(t.num_fields)}
    if pa.types.is_boolean(t):
        return rng.random() < 0.5
    if pa.types.is_floating(t):
        return rng.randint(-3, 6) / 2
    if pa.types.is_integer(t):
        return rng.randint(0, 6)
    if pa.types.is_string(t) or pa.types.is_large_string(t) or pa.types.is_dictionary(t):
        return rng.choice(["", "a", "bcd", "\u00e9"])
    return rng.choice([b"", b"a", b"\0\xff"])


def optrec(T):
    return T[0] == "opt" and contains(T, ("rec", "tup")) or any(optrec(t) for t in (T[2] if T[0] == "rec" else T[1] if T[0] == "tup" else []))


def case(rng, i):
    op = rng.choice(["arrow", "arrow", "pylist", "pylist", "table", "table", "from", "from", "chunks", "part", "parquet", "parquet"])
    g = G(rng, exact=rng.random() < 0.5, nan=0.05, inf=0.05, p_un=0, p_bytes=0.05, maxlen=rng.choice([3, 5, 12]), rec0=0)
    if op in ("from", "chunks"):
        t = patype(rng, rng.choice([0, 1, 2, 2, 3]))
        x = pa.array([padata(rng, t, not holds(t)) for _ in range(rng.choice([0, 1, 3, 5, 12]))], t)
        n = len(x)
        if rng.random() < 0.6:
            lo = rng.randint(0, n)
            x = x.slice(lo, rng.randint(0, n - lo))
        e = {"op": "values", "how": op}
        try:
            if op == "chunks":
                cuts = [0] + sorted(rng.randint(0, len(x)) for _ in range(2)) + [len(x)]
                x = pa.chunked_array([x[a:b] for a, b in zip(cuts, cuts[1:])], type=t)
            y = ak.from_arrow(x)
            e["a"] = dump(y)
            e["out"] = {"k": "val", "v": paval(x.to_pylist())}
        except Exception as ex:
            e.update(result(ex))
            e["a"] = {"c": "np", "dt": "int64", "sh": [1], "d": [0]}
            e["out"] = result(ex)
            e["type"] = str(t)
        return e
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]))
    if op in ("table", "parquet") and rng.random() < 0.5:
        T = ("rec", ["x", "y"], [T, g.type(1)])
    vals = g.values(T)
    G.VIRT = 0.2 if rng.random() < 0.2 else 0.0
    try:
        lay = g.layout(T, vals)
    finally:
        G.VIRT = 0.0
    a = ak.Array(lay)
    e = {"op": "plain", "a": dump(lay), "how": op}
    kw = {}
    if rng.random() < 0.5:
        kw = {"list_to32": rng.random() < 0.5, "string_to32": rng.random() < 0.5, "bytestring_to32": rng.random() < 0.5}
    tmp = None
    try:
        if op == "arrow":
            x = ak.to_arrow(a, allow_tensor=False, **kw)
            x.validate(full=True)
            out = result(ak.from_arrow(x))
        elif op == "pylist":
            x = ak.to_arrow(a, allow_tensor=False, **kw)
            x.validate(full=True)
            out = {"k": "val", "v": paval(x.to_pylist())}
        elif op == "part":
            # whether lists are large depends on how they are stored, in each partition
            kw = {"list_to32": True, "string_to32": True, "bytestring_to32": True}
            x = ak.to_arrow(split(rng, a), allow_tensor=False, **kw)
            out = {"k": "val", "v": paval(x.to_pylist())}
        elif op == "table":
            x = ak.to_arrow_table(a, **kw)
            x.validate(full=True)
            out = result(ak.from_arrow(x))
            if not isinstance(ak.type(lay), ak.types.RecordType):
                e["wrap"] = True
        elif op == "parquet":
            tmp = tempfile.mkdtemp(prefix="verif-c17-")
            f = os.path.join(tmp, "a.parquet")
            x, pk, lens = a, {}, [len(a)]
            if g.ch(0.4):
                x = split(rng, a)
                lens = [len(y) for y in x.layout.partitions] if isinstance(x.layout, ak.partition.PartitionedArray) else lens
                kw = {"list_to32": True, "string_to32": True, "bytestring_to32": True}
            lazy = g.ch(0.4) and not contains(T, ("list", "reg")) and not optrec(T)
            e["lazy"] = lazy
            if T[0] == "rec" and g.ch(0.4):
                e["cols"] = pk["columns"] = [n for n in T[1] if g.ch(0.5)] or [T[1][0]]
            src = f
            if g.ch(0.3):                               # several files
                kw = {"list_to32": True, "string_to32": True, "bytestring_to32": True}
                at = 0
                src = []
                for j, n in enumerate(lens):
                    src.append(os.path.join(tmp, "f%03d.parquet" % j))
                    ak.to_parquet(a[at:at + n], src[-1], **kw)
                    at += n
                if g.ch(0.5):
                    if g.ch(0.5):
                        ak.to_parquet.dataset(tmp)
                    src = tmp
            else:
                ak.to_parquet(x, f, **kw)
                if g.ch(0.3):
                    # an empty partition has no row group
                    lens = [n for n in lens if n > 0]
                    take = [j for j in range(len(lens)) if g.ch(0.6)]
                    if take and pq.ParquetFile(f).num_row_groups == len(lens):
                        pk["row_groups"] = take
                        e["rows"] = [[sum(lens[:j]), sum(lens[:j + 1])] for j in take]
            y = ak.from_parquet(src, lazy=lazy, **pk)
            if lazy:
                touch(rng, y)
            out = result(y)
    except pa.lib.ArrowNotImplementedError:
        return None                 # Parquet in this version of pyarrow
    except Exception as ex:
        out = result(ex)
        e["msg"] = str(ex)[:200]
    finally:
        if tmp is not None:
            shutil.rmtree(tmp, ignore_errors=True)
    e["out"] = out
    return e
