"""Strings, categories and named records and lists."""
import json

import numpy as np
import awkward as ak
from gen import G, contains
from project import dump, result, val
from props.skel import shape, fill
from props.c22 import apply, named, strip, NAMES

LISTN = "bag"


def prefix(s, k):
    """the outer k list levels of a shape"""
    if isinstance(s, int):
        return s
    if k == 0:
        return len(s)
    return [prefix(x, k - 1) for x in s]


def leaf(g):
    return g.r.choice([("str",), ("str",), ("bytes",), ("prim", "int64"), ("prim", "float64"), ("prim", "bool"), ("prim", "uint8")])


def tocat(a):
    return ak.to_categorical(a)


def cats(rng):
    g = G(rng, p_un=0, p_rec=0, nan=0, hi=3, lo=-1, half=0.1, p_empty=0.05, p_wrap=0.2, wide=0)
    E = leaf(g)
    if g.ch(0.25):
        E = g.r.choice([("rec", ("x", "y"), (leaf(g), leaf(g))), ("tup", (leaf(g),)), ("rec", ("x",), (("list", ("prim", "int64")),))])
    if g.ch(0.3):
        E = ("opt", E)
    k = rng.choice([0, 0, 1, 1, 2])
    T, vals = fill(g, shape(g, k), k, E)
    lay = g.layout(T, vals)
    return g, T, vals, lay


def case(rng, i):
    which = rng.choice(["cat", "uncat", "eq", "eq", "eq", "class", "class", "over", "text"])
    if which in ("cat", "uncat"):
        g, T, vals, lay = cats(rng)
        a = ak.Array(lay)
        if which == "uncat":
            a = ak.to_categorical(a)
            if g.ch(0.3) and len(a):
                a = a[::-1]
        e = {"op": which, "a": dump(a.layout)}
        try:
            out = ak.to_categorical(a) if which == "cat" else ak.from_categorical(a)
            e["out"] = result(out)
            e["iscat"] = bool(ak.is_categorical(out))
            if which == "cat":
                e["cats"] = result(ak.categories(out))
        except Exception as err:
            e["out"] = result(err)
            e["msg"] = str(err)[:200]
        return e
    if which == "eq":
        g = G(rng, p_un=0, p_rec=0, nan=0, hi=3, lo=-1, half=0.1, p_empty=0, p_wrap=0.2, wide=0)
        E = g.r.choice([("str",), ("str",), ("str",), ("bytes",), ("prim", "int64"), ("prim", "float64")])
        cat = E[0] == "prim" or g.ch(0.4)
        k = rng.choice([0, 0, 1, 1, 2])
        s = shape(g, k)
        xs, ev, both, ks, opts = [], [], 0, [], False
        for j in range(2):
            kj = k if g.ch(0.7) else rng.randint(0, k)
            Ej = ("opt", E) if g.ch(0.25) else E
            ks.append(kj)
            opts = opts or Ej[0] == "opt"
            if j == 1 and E[0] != "prim" and g.ch(0.15) and len(xs):
                x = g.value(E)
                xs.append(x)
                ev.append({"k": "sc", "t": ["list", {"str": "string", "bytes": "bytestring"}[E[0]], ["prim", {"str": "char", "bytes": "byte"}[E[0]], "uint8"]], "v": val(x)})
                continue
            T, vals = fill(g, prefix(s, kj), kj, Ej, preg=0.25)
            a = ak.Array(g.layout(T, vals))
            if cat and g.ch(0.7):
                a = ak.to_categorical(a)
                both += 1
                if g.ch(0.3):
                    a = a[::-1][::-1]
            xs.append(a)
            ev.append({"k": "arr", "n": dump(a.layout)})
        neg = g.ch(0.4)
        e = {"op": "fn", "fn": ["same", neg], "xs": ev}
        if both == 2 and not neg:
            if len(set(ks)) > 1 and opts:
                return None             # whether missing is equal to missing depends on the depths of lists here
            e["cats"] = True
        try:
            e["out"] = result(xs[0] != xs[1] if neg else xs[0] == xs[1])
        except Exception as err:
            e["out"] = result(err)
            e["msg"] = str(err)[:200]
        return e
    if which == "over":
        return over(rng)
    if which == "text":
        return text(rng)
    return classes(rng)


def text(rng):
    """an array of characters is a string"""
    g = G(rng, p_wrap=0)
    E = rng.choice([("str",), ("bytes",)])
    cls = str if E[0] == "str" else bytes
    vals = [g.value(E) for _ in range(rng.randint(1, 4))]
    at = rng.randrange(len(vals))
    lay = ak.from_iter(vals, highlevel=False)
    x = ak.Array(lay.content[int(lay.offsets[at]):int(lay.offsets[at + 1])])
    w = rng.choice([vals[at], g.value(E)])
    what = rng.choice(["eq", "ne", "add", "radd", "is", "items"])
    other = w
    if g.ch(0.3):
        other = ak.Array(ak.from_iter([w], highlevel=False).content)
    e = {"op": "text", "what": what, "v": val(vals[at]), "w": val(w)}
    try:
        if what == "items":
            out = list(x)
            out = b"".join(bytes([y]) for y in out) if cls is bytes else "".join(out)
        else:
            out = {"eq": lambda: x == other, "ne": lambda: x != other, "add": lambda: x + other, "radd": lambda: w + x, "is": lambda: cls(x)}[what]()
        e["out"] = {"k": "val", "v": val(out)}
    except Exception as err:
        e["out"] = result(err)
    return e


KIND = {}


def makereg(rng):
    """a behavior with a random choice of classes"""
    reg, beh = [], {}
    for nm in NAMES[:2]:
        for kind in ("item", "flat", "deep"):
            if rng.random() < 0.7:
                reg.append([kind, nm])
    for nm in NAMES:
        if rng.random() < 0.5:
            reg.append(["list", nm])
    # a list and a record of one name would be given the same key
    items = {n for k, n in reg if k == "item"}
    reg = [[k, n] for k, n in reg if not (k == "list" and n in items)]
    for kind, nm in reg:
        key = nm if kind in ("item", "list") else (".", nm) if kind == "flat" else ("*", nm)
        cls = KIND.get((kind, nm))
        if cls is None:
            cls = KIND[kind, nm] = type("K_%s_%s" % (kind, nm), (ak.Record if kind == "item" else ak.Array,), {})
        beh[key] = cls
    return reg, beh


def clsof(x):
    n = type(x).__name__
    return n.split("_")[1:] if n.startswith("K_") else ["none", ""]


def classes(rng):
    g = G(rng, p_un=0, p_bytes=0, p_str=0.1, p_rec=0.25, rec0=0, maxlen=rng.choice([2, 3]), p_empty=0)
    T = g.type(rng.choice([0, 1, 1, 2]))
    if contains(T, ("unk", "un")):
        return None
    vals = g.values(T)
    lay = apply(g.layout(T, vals), T, named(g, T))
    reg, beh = makereg(rng)
    a = ak.Array(lay, behavior=beh)
    ev = []
    for _ in range(rng.randint(1, 4)):
        n = len(a)
        how = rng.choice(["same", "range", "take", "mask", "opttake", "row", "concat", "packed", "flatten", "field", "newaxis", "firsts", "pad", "copy", "singletons", "where", "inner",
                          "unflatten", "combinations", "cartesian", "maskf", "maskp", "regular", "irregular", "withfield", "withname", "broadcast", "fillnone", "astype",
                          "concat1", "argcart", "rezip", "drop", "simplify", "fields", "num", "param", "strip", "pad1", "parts"])
        try:
            if how == "same":
                b = a
            elif how == "range":
                b = a[rng.choice([None, 0, 1, -2]):rng.choice([None, 2, -1])]
            elif how == "take":
                b = a[np.array([rng.randint(-n, n - 1) for _ in range(rng.randint(0, 3))], dtype=np.int64)] if n else a
            elif how == "mask":
                b = a[np.array([g.ch(0.5) for _ in range(n)], dtype=bool)]
            elif how == "opttake":
                b = a[ak.Array([0, None])] if n else a
            elif how == "row":
                if not n:
                    continue
                b = a[rng.randint(-n, n - 1)]
            elif how == "concat":
                b = ak.concatenate([a, a[:1]])
            elif how == "packed":
                b = ak.packed(a)
            elif how == "flatten":
                b = ak.flatten(a)
            elif how == "field":
                fs = ak.fields(a)
                if not fs:
                    continue
                b = a[rng.choice(fs)]
            elif how == "newaxis":
                b = a[np.newaxis]
            elif how == "firsts":
                b = ak.firsts(a)
            elif how == "pad":
                b = ak.pad_none(a, n + 1, axis=0)
            elif how == "copy":
                b = ak.copy(a)
            elif how == "singletons":
                b = ak.singletons(a)
            elif how == "where":
                b = ak.where(np.ones(n, bool), a, a)
            elif how == "unflatten":
                b = ak.unflatten(a, [n])
            elif how == "combinations":
                b = ak.combinations(a, 2, axis=0, replacement=True)["0"]
            elif how == "cartesian":
                b = ak.cartesian([a, a], axis=0)["1"]
            elif how == "argcart":
                b = a[ak.argcartesian([a, a], axis=0)["1"]]
            elif how == "maskf":
                b = ak.mask(a, np.ones(n, bool))
            elif how == "maskp":
                b = a.mask[np.ones(n, bool)]
            elif how == "regular":
                b = ak.to_regular(a)
            elif how == "irregular":
                b = ak.from_regular(a)
            elif how == "withfield":
                b = ak.with_field(a, np.arange(n), "new")
            elif how == "withname":
                b = ak.with_name(a, rng.choice(NAMES))
            elif how == "broadcast":
                b = ak.broadcast_arrays(a, np.arange(n))[0]
            elif how == "fillnone":
                b = ak.fill_none(a, 0)
            elif how == "astype":
                b = ak.values_astype(a, "float32")
            elif how == "concat1":
                b = ak.concatenate([a, a], axis=1)
            elif how == "rezip":
                b = ak.zip({"p": a, "q": a}, depth_limit=1)["q"]
            elif how == "drop":
                b = a[~ak.is_none(a)]
            elif how == "simplify":
                b = ak.Array(a.layout, behavior=a.behavior)
            elif how == "fields":
                b = a[ak.fields(a)]
            elif how == "param":
                b = ak.with_parameter(a, "note", "x")
            elif how == "strip":
                b = ak.without_parameters(a)
            elif how == "pad1":
                b = ak.pad_none(a, 2, axis=1, clip=g.ch(0.5))
            elif how == "parts":
                b = ak.repartition(ak.repartition(a, 1), None) if n else a
            elif how == "num":
                b = a[ak.num(a, axis=1) > 0]
            else:
                b = a[:, :1]
        except Exception:
            continue
        if not isinstance(b, (ak.Array, ak.Record)) or isinstance(b, (ak.behaviors.string.CharBehavior, ak.behaviors.string.ByteBehavior)):
            continue
        if isinstance(b, ak.Array) and len(b) > 6:
            b = b[:6]
        out = result(b)
        if len(json.dumps(out)) > 20000:
            break
        if out["k"] not in ("arr", "row"):
            continue
        ev.append({"op": "class", "how": how, "out": out, "reg": reg, "cls": clsof(b)})
        if isinstance(b, ak.Array):
            a = b
    return ev or None


def point_add(x, y):
    return ak.zip({"x": x.x + y.x, "y": x.y + y.y}, with_name="point", depth_limit=1)


def point_scale(x, y):
    return ak.zip({"x": x.x * y, "y": x.y * y}, with_name="point", depth_limit=1)


def rename(lay, T):
    nm = (None, [])

    def walk(T):
        if T[0] in ("list", "reg", "opt"):
            return (None, [walk(T[-1])])
        if T[0] in ("rec", "tup"):
            return ("point", [walk(t) for t in T[-1]])
        return nm
    return apply(lay, T, walk(T))


def over(rng):
    g = G(rng, p_un=0, nan=0, half=0, p_empty=0, wide=0)
    beh = {(np.add, "point", "point"): point_add, (np.multiply, "point", np.int64): point_scale}
    k = rng.choice([0, 1, 1, 2])
    s = shape(g, k)
    num = ("prim", "int64")
    fn = rng.choice(["sum", "sum", "scale"])
    xs, ev = [], []
    for j in range(2):
        rec = j == 0 or fn == "sum"
        E = ("rec", ("x", "y") if g.ch(0.7) else ("y", "x"), (num, num)) if rec else num
        if g.ch(0.25):
            E = ("opt", E)
        kj = k if g.ch(0.7) else rng.randint(0, k)
        T, vals = fill(g, prefix(s, kj), kj, E, preg=0.25)
        lay = rename(g.layout(T, vals), T)
        xs.append(ak.Array(lay, behavior=beh if j == 0 or g.ch(0.5) else None))
        ev.append({"k": "arr", "n": dump(lay)})
    e = {"op": "fn", "fn": [fn], "xs": ev, "stop": ["point", "point" if fn == "sum" else ""], "name": "point"}
    try:
        e["out"] = result(xs[0] + xs[1] if fn == "sum" else xs[0] * xs[1])
    except Exception as err:
        e["out"] = result(err)
        e["msg"] = str(err)[:200]
    return e
