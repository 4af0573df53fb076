"""Buffers, forms, pickling, copying: an array taken apart and put together again is the same array."""
import copy, json, pickle
import numpy as np
import awkward as ak
from gen import G, contains
from project import dump, result, typ


def deco(g, lay):
    """parameters on some nodes of a layout"""
    if not g.ch(0.4):
        return lay
    p = dict(lay.parameters)
    p["p%d" % g.r.randint(0, 2)] = g.r.choice([1, "x", [1, 2.5, None], {"a": "b\u00e9\"\\"}, False, None and 0, "null", 2**40, -1.5])
    if isinstance(lay, ak.layout.VirtualArray):
        return lay
    out = lay
    for k, v in p.items():
        out = out.withparameter(k, v) if hasattr(out, "withparameter") else out
    return out


def split(rng, a):
    n = len(a)
    cuts = sorted(rng.randint(0, n) for _ in range(rng.choice([1, 2, 3])))
    cuts = [0] + cuts + [n]
    return ak.partitioned([a[i:j] for i, j in zip(cuts, cuts[1:])])


class Ro(object):
    """a container with __getitem__ only"""
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]


def touch(rng, x):
    """some accesses that make parts of a lazy array real"""
    for _ in range(rng.randint(0, 3)):
        try:
            r = rng.random()
            n = len(x)
            if r < 0.3:
                x[rng.randint(-n - 1, n)]
            elif r < 0.5:
                x[rng.randint(0, n):]
            elif r < 0.7:
                f = ak.fields(x)
                x[rng.choice(f)] if f else None
            elif r < 0.8:
                repr(x)
            else:
                ak.num(x)
        except Exception:
            pass


def case(rng, i):
    op = rng.choice(["buffers", "buffers", "buffers", "part", "lazy", "lazy", "lazypart", "pickle", "pickle", "pickle", "deepcopy", "form", "record",
                     "type", "partpickle", "virtual"])
    g = G(rng, exact=rng.random() < 0.5, nan=0.05, inf=0.05, odd=0.03, more=0.08, mores=["complex128", "complex64"], p_un=0.1, p_bytes=0.05, maxlen=rng.choice([3, 5]))
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]))
    if op == "record" or rng.random() < 0.2:
        T = ("rec", ["x", "y"], [T, g.type(1)]) if g.ch(0.7) else ("tup", [T, g.type(1)])
    vals = g.values(T)
    lay = deco(g, g.layout(T, vals))
    a = ak.Array(lay)
    e = {"op": "identity", "a": dump(lay), "how": op, "skel": False}
    try:
        if op in ("buffers", "lazy", "part", "lazypart"):
            part = op in ("part", "lazypart")
            x = split(rng, a) if part else a
            if part:
                e["a"] = {"c": "part", "xs": [dump(p) for p in x.layout.partitions]}
            kw = {}
            if rng.random() < 0.3:
                kw["key_format"] = rng.choice(["{partition}/{form_key}/{attribute}", "{form_key}-{attribute}-{partition}",
                                               lambda **v: "%(attribute)s:%(form_key)s:%(partition)s" % v])
            start = rng.choice([0, 0, 0, 5]) if part else None
            tk = dict(kw)
            if part and start:
                tk["partition_start"] = start
            if rng.random() < 0.2:
                tk["form_key"] = "k{id}"
            r = rng.random()
            if r < 0.3:
                d0 = {"other": b"kept"}
                form, n, d = ak.to_buffers(x, d0, **tk)
                if d is not d0 or d["other"] != b"kept":
                    raise AssertionError("container")
            else:
                form, n, d = ak.to_buffers(x, **tk)
            d = dict(d)
            r = rng.random()
            if r < 0.3:
                d = {k: v.tobytes() if isinstance(v, np.ndarray) else bytes(v) for k, v in d.items()}
            elif r < 0.5:
                d = Ro(d)
            r = rng.random()
            f = form.tojson(rng.random() < 0.5, rng.random() < 0.5) if r < 0.3 else json.loads(form.tojson(False, True)) if r < 0.6 else form
            kw = dict(kw)
            if part and start:
                kw["partition_start"] = start
            lazy = op.startswith("lazy")
            out = ak.from_buffers(f, n, d, lazy=lazy, **kw)
            if lazy:
                touch(rng, out)
            else:
                e["skel"] = True
            out = result(out)
        elif op == "virtual":
            form, n, d = ak.to_buffers(ak.from_buffers(*ak.to_buffers(a), lazy=True))
            out = result(ak.from_buffers(form, n, d))
        elif op == "pickle":
            out = result(pickle.loads(pickle.dumps(a, rng.choice([2, 4, -1]))))
        elif op == "partpickle":
            x = split(rng, a)
            if g.ch(0.3) and not contains(T, ("un", "reg")):        # partitions that are laid out in different ways
                x = ak.partitioned([ak.Array(g.layout(T, vals[:len(vals) // 2])), ak.Array(g.layout(T, vals[len(vals) // 2:]))])
            e["a"] = {"c": "part", "xs": [dump(p) for p in x.layout.partitions]}
            out = result(pickle.loads(pickle.dumps(x)))
        elif op == "deepcopy":
            x = copy.deepcopy(a) if g.ch(0.5) else copy.copy(a)
            e["skel"] = True
            out = result(x)
        elif op == "form":
            # a form says the array's type, in every representation
            f = lay.form
            r = rng.random()
            if r < 0.6:
                f = ak.forms.Form.fromjson(f.tojson(rng.random() < 0.5, rng.random() < 0.5))
            elif r < 0.8:
                f = pickle.loads(pickle.dumps(f))
            if not (f == lay.form) or f != lay.form:
                raise AssertionError("form")
            e["op"] = "type"
            out = {"k": "type", "t": typ(f.type({}))}
        elif op == "type":
            e["op"] = "type"
            t = ak.type(a)
            if len(a) != t.length:
                raise AssertionError("length")
            out = {"k": "type", "t": typ(t)}
        else:
            if len(a) == 0:
                return None
            at = rng.randint(0, len(a) - 1)
            rec = a[at]
            if not isinstance(rec, ak.Record):
                return None
            r = rng.random()
            rec = pickle.loads(pickle.dumps(rec)) if r < 0.6 else copy.deepcopy(rec) if r < 0.8 else copy.copy(rec)
            e["op"], e["at"] = "row", at
            out = result(rec)
    except Exception as ex:
        out = result(ex)
    e["out"] = out
    return e
