"""Joining, choosing, zipping, adding fields."""
import numpy as np
import awkward as ak
from gen import G, depths, contains, recabove
from project import dump, result, num, val
from props.skel import shape, fill

import project
project.NEGZERO = False


def arr(lay):
    return {"k": "arr", "n": dump(lay)}


def case(rng, i):
    op = rng.choice(["concat0", "concat0", "concat0", "concat_same", "concat1", "concat1", "where", "where", "zip", "zip", "unzip", "with_field", "with_field",
                     "with_name"])
    g = G(rng, maxlen=3, p_un=0.04 if op != "zip" else 0, **rng.choice([dict(more=0.12, wide=0, odd=0), dict(odd=0.02)]))
    e = {"op": op}
    if op in ("concat0", "concat_same"):
        g.p_un = 0.05
        e["op"], e["axis"] = "concatenate", 0
        m = rng.choice([1, 2, 2, 3, 4])
        if op == "concat_same":
            g.p_un = g.p_str = 0      # (strings behind an index may give a union of two string types)
            e["op"] = op
            Ts = [g.type()] * m
        else:
            d = rng.choice([0, 1, 1, 2])
            Ts = [g.type(d if g.ch(0.8) else rng.randint(0, 2)) for _ in range(m)]
        lays = [g.layout(T, g.values(T)) for T in Ts]
        e["xs"] = [arr(x) for x in lays]
        f = lambda: ak.concatenate([ak.Array(x) for x in lays], axis=0)
    elif op == "concat1":
        k = rng.choice([1, 1, 2, 2, 3])
        e["op"], e["axis"] = "concatenate", k
        m = rng.choice([1, 2, 2, 3])
        s = shape(g, k - 1)
        xs, args = [], []
        for j in range(m):
            E = g.type(rng.choice([0, 0, 0, 1]))
            if j and g.ch(0.1):
                v = rng.choice([1, 2.5, True])
                xs.append({"k": "sc", "v": num(v)})
                args.append(v)
                continue
            B = ("reg", rng.randint(1, 3), E) if g.ch(0.2) else ("list", E)
            if g.ch(0.2):
                B = ("opt", B)
            T, vals = fill(g, s, k - 1, B)
            lay = g.layout(T, vals)
            xs.append(arr(lay))
            args.append(ak.Array(lay))
        e["xs"] = xs
        f = lambda: ak.concatenate(args, axis=k)
    elif op == "where":
        k = rng.choice([0, 0, 1, 1, 2])
        s = shape(g, k)
        C = ("prim", rng.choice(["bool", "bool", "bool", "int64"]))
        if g.ch(0.2):
            C = ("opt", C)
        T, vals = fill(g, s, k, C)
        lay = g.layout(T, vals)
        xs, args = [arr(lay)], [ak.Array(lay)]
        for j in range(2):
            if g.ch(0.15):
                v = rng.choice([1, 2.5, True])
                xs.append({"k": "sc", "v": num(v)})
                args.append(v)
                continue
            # (fixed-size lists below the level of the condition would be broadcast;
            # in broadcasting, missing goes with missing)
            g.p_reg = 0
            if C[0] == "opt":
                E = g.type(rng.choice([0, 0, 0, 1]), opt=False)
            else:
                E = g.type(rng.choice([0, 0, 0, 1]))
            T, vals = fill(g, s, k, E)
            lay = g.layout(T, vals)
            xs.append(arr(lay))
            args.append(ak.Array(lay))
        e["xs"] = xs
        f = lambda: ak.where(*args)
    elif op == "zip":
        k = rng.choice([0, 1, 1, 2])
        m = rng.choice([1, 2, 2, 3])
        s = shape(g, k)
        xs, args = [], []
        for j in range(m):
            kk = k if j == 0 or g.ch(0.8) else rng.randint(0, k)
            ss = s
            if kk < k:
                # shallower: one value per list
                def cut(x, d):
                    return (x if isinstance(x, int) else len(x)) if d == 0 else [cut(y, d - 1) for y in x]
                ss = cut(s, kk)
            T, vals = fill(g, ss, kk, g.type(0))
            lay = g.layout(T, vals)
            xs.append(arr(lay))
            args.append(ak.Array(lay))
        keys = rng.sample(["x", "y", "z", "w"], m) if g.ch(0.5) else []
        d = rng.choice([None, None, 1, 2][:3 + min(k, 1)])
        e["xs"], e["keys"], e["depth"] = xs, keys, 99 if d is None else d
        f = lambda: ak.zip(dict(zip(keys, args)) if keys else args, depth_limit=d)
    else:
        k = rng.choice([0, 1, 1, 2])
        s = shape(g, k)
        n = rng.choice([1, 2, 3])
        Ts = [g.type(rng.choice([0, 0, 1])) for _ in range(n)]
        R = ("tup", Ts) if g.ch(0.3) else ("rec", ["x", "y", "z"][:n], Ts)
        if g.ch(0.2):
            R = ("opt", R)
        T, vals = fill(g, s, k, R)
        lay = g.layout(T, vals)
        a = ak.Array(lay)
        e["xs"] = [arr(lay)]
        if op == "unzip":
            try:
                out = ak.unzip(a)
                e["out"] = {"k": "tuple", "outs": [result(x) for x in out]}
            except Exception as ex:
                e["out"] = {"k": "tuple", "outs": [result(ex)] * n}
            return e
        if op == "with_name":
            e["key"] = "point"
            f = lambda: ak.with_name(a, "point")
        else:
            e["key"] = rng.choice(["", "w", "x", "y"])
            if R[0] == "tup" or R[0] == "opt" and R[1][0] == "tup":
                e["key"] = rng.choice(["", "w"])
            if g.ch(0.15):
                w = rng.choice([1, 2.5, True])
                e["xs"].append({"k": "sc", "v": num(w)})
            else:
                T, vals = fill(g, s, k, g.type(rng.choice([0, 0, 1])))
                lay2 = g.layout(T, vals)
                e["xs"].append(arr(lay2))
                w = ak.Array(lay2)
            f = lambda: ak.with_field(a, w, e["key"] or None)
    try:
        out = f()
    except Exception as ex:
        out = ex
    e["out"] = result(out)
    return e
