"""Validity: broken buffers are found, and what operations make out of sound arrays is sound."""
import importlib
import numpy as np
import awkward as ak
import project
from project import dump
from gen import G

L = ak.layout
NAMES = ["c06", "c06", "c08", "c09", "c10", "c11", "c11", "c12", "c12", "c13", "c14", "c14", "c15", "c16"]
IX = {"32": L.Index32, "U32": L.IndexU32, "64": L.Index64}
NP = {"32": np.int32, "U32": np.uint32, "64": np.int64}


def par(rng, p):
    r = rng.random()
    if p is not None:
        return {"__array__": p} if r < 0.97 else {}
    if r < 0.95:
        return {}
    return {"__array__": rng.choice(["string", "bytestring", "char", "byte", "categorical", "other"])}


class P(object):
    """physical trees with, now and then, a position that is not there"""
    def __init__(self, rng):
        self.r = rng
        self.bad = rng.choice([0.0, 0.02, 0.1])

    def pos(self, lo, hi, w, lowest=-1):
        """an integer in lo..hi, sometimes just outside"""
        if self.r.random() < self.bad or hi < lo:
            x = self.r.choice([lowest, lo - 1, hi + 1, hi + 2])
        else:
            x = self.r.randint(lo, hi)
        return max(x, 0) if w == "U32" else x

    def index(self, vals, w):
        a = np.array(vals, NP[w])
        if self.r.random() < 0.3:       # does not start where its buffer starts
            k = self.r.randint(1, 3)
            return IX[w](np.concatenate([np.array([9] * k, NP[w]), a]))[k:]
        return IX[w](a)

    def chars(self, n, p):
        r = self.r
        if r.random() < 0.05:
            return L.NumpyArray(np.zeros((n, 2), np.uint8), parameters=par(r, p))
        if r.random() < 0.05:
            return L.NumpyArray(np.zeros(n, np.int16), parameters=par(r, p))
        if r.random() < 0.05:
            return L.IndexedArray64(L.Index64(np.arange(n)), L.NumpyArray(np.arange(n).astype(np.uint8)), parameters=par(r, p))
        return L.NumpyArray(np.array([r.randint(97, 99) for _ in range(n)], np.uint8), parameters=par(r, p))

    def lists(self, d, n, x=None, p=None):
        r = self.r
        w = r.choice(list(IX))
        pp = par(r, p)
        k = r.random()
        if k < 0.4:
            cuts = sorted(r.randint(0, 4) for _ in range(n + 1))
            m = max(cuts[-1] + r.choice([0, 0, 1]), 0)
            x = self.chars(m, "char" if p == "string" else "byte") if p else self.node(d, m)
            cuts = [self.pos(c, c, w) for c in cuts]
            return getattr(L, "ListOffsetArray" + w)(self.index(cuts, w), x, parameters=pp)
        if k < 0.8:
            m = r.randint(0, 5)
            x = self.chars(m, "char" if p == "string" else "byte") if p else self.node(d, m)
            m = len(x)
            s = [r.randint(0, m) for _ in range(n)]
            e = [r.randint(a, m) for a in s]
            s, e = [self.pos(a, a, w) for a in s], [self.pos(a, a, w) for a in e]
            e += [7] * r.choice([0, 0, 0, 1])
            if e and r.random() < self.bad:
                e = e[:-1]
            return getattr(L, "ListArray" + w)(self.index(s, w), self.index(e, w), x, parameters=pp)
        k = r.randint(0, 3)
        x = self.chars(n * k, "char" if p == "string" else "byte") if p else self.node(d, n * k)
        return L.RegularArray(x, k, n, parameters=pp)

    def leaf(self, n):
        r = self.r
        if n == 0 and r.random() < 0.2:
            return L.EmptyArray()
        if r.random() < 0.15:
            return L.NumpyArray(np.arange(2 * n).reshape(n, 2), parameters=par(r, None))
        a = r.choice([np.arange(n), np.arange(n) / 2, np.arange(n) % 2 == 0, np.array([r.randint(-3, 3) for _ in range(n)], r.choice(["i1", "u1", "i4", "f4", "i8"]))])
        return L.NumpyArray(a, parameters=par(r, None))

    def cats(self, n):
        """categories: strings or numbers, perhaps one of them twice"""
        r = self.r
        k = r.random()
        if k < 0.5:
            if r.random() < 0.2:
                w = r.choice([1, 3, 40])
                xs = r.sample(["%0*d" % (w, i) for i in range(9 if w == 1 else 150)], r.randint(1, 9 if w < 3 else 100 if w < 40 else 9))
            else:
                xs = r.sample(["", "a", "b", "ab", "ba", "abc", "\u00e9", "a\0", "longer one"], min(n, 8))
            if xs and r.random() < 0.3:
                xs.insert(r.randint(0, len(xs)), r.choice(xs))
            x = ak.from_iter(xs, highlevel=False)
            if r.random() < 0.5:
                x = x.toListOffsetArray64(False) if hasattr(x, "toListOffsetArray64") else x
            if r.random() < 0.3 and len(xs) > 1:
                q = r.randint(1, len(xs) - 1)
                x = x[q:]
            return x if len(xs) else L.NumpyArray(np.arange(3))
        xs = r.sample(range(-9, 9), min(n, 15))
        if xs and r.random() < 0.3:
            xs.insert(r.randint(0, len(xs)), r.choice(xs))
        a = np.array(xs, r.choice(["i8", "f8", "i2", "f4", "i4", "i1"]))
        if r.random() < 0.3:
            a = np.abs(a).astype(r.choice(["u1", "u2", "u4", "u8"]))
            if r.random() < 0.7:
                a = np.unique(a)
        elif r.random() < 0.2:
            a = np.arange(r.choice([130, 260, 300]))
            r.shuffle(a)
            if r.random() < 0.5:
                a[r.randrange(len(a))] = a[r.randrange(len(a))]
        if r.random() < 0.3:
            b = np.zeros(2 * len(a), a.dtype)
            b[::2] = a
            a = b[::2]
        return L.NumpyArray(a)

    def node(self, d, n):
        r = self.r
        n = max(n, 0)
        k = r.random() if d > 0 else r.random() * 0.2
        if k < 0.1:
            return self.leaf(n)
        if k < 0.2:
            return self.lists(0, n, p=r.choice(["string", "bytestring"]))
        if k < 0.4:
            return self.lists(d - 1, n)
        m = r.randint(0, 4) if n == 0 else r.randint(1, 4)
        if k < 0.55:
            w = r.choice(list(IX))
            if r.random() < 0.25:
                x = self.cats(r.randint(1, 5))
                p = {"__array__": "categorical"}
            else:
                x = self.node(d - 1, m)
                p = par(r, None)
            m = len(x)
            if r.random() < 0.5 and w != "U32":
                return getattr(L, "IndexedOptionArray" + w)(self.index([self.pos(-1, m - 1, w) for _ in range(n)], w), x, parameters=p)
            return getattr(L, "IndexedArray" + w)(self.index([self.pos(0, m - 1, w) for _ in range(n)], w), x, parameters=p)
        extra = r.choice([0, 0, 1])
        if r.random() < self.bad:
            extra = -1
        if k < 0.63:
            x = self.node(d - 1, n + extra)
            return L.ByteMaskedArray(L.Index8(np.array([r.randint(0, 1) for _ in range(n)], np.int8)), x, r.random() < 0.5, parameters=par(r, None))
        if k < 0.7:
            x = self.node(d - 1, n + extra)
            nb = (n + 7) // 8 + r.choice([0, 0, 1]) - (1 if r.random() < self.bad else 0)
            return L.BitMaskedArray(L.IndexU8(np.array([r.randint(0, 255) for _ in range(max(nb, 0))], np.uint8)), x, r.random() < 0.5, n, r.random() < 0.5, parameters=par(r, None))
        if k < 0.75:
            return L.UnmaskedArray(self.node(d - 1, n), parameters=par(r, None))
        if k < 0.88:
            xs = [self.node(d - 1, n + r.choice([0, 0, 1])) for _ in range(r.randint(1, 3))]
            if r.random() < self.bad:
                xs[-1] = self.node(d - 1, n - 1)
            return L.RecordArray(xs, None if r.random() < 0.3 else list("xyz")[:len(xs)], n, parameters=par(r, None))
        w = r.choice(list(IX))
        xs = [self.node(d - 1, r.randint(1, 3)) for _ in range(r.randint(1, 3))]
        t = [self.pos(0, len(xs) - 1, "64") for _ in range(n)]
        i = [self.pos(0, len(xs[a]) - 1, w) if 0 <= a < len(xs) else 0 for a in t]
        i += [5] * r.choice([0, 0, 1])
        if r.random() < self.bad:
            i = i[:-1]
        return getattr(L, "UnionArray8_" + w)(L.Index8(np.array(t, np.int8)), self.index(i, w), xs, parameters=par(r, None))


def ok(f):
    try:
        f()
        return True
    except ValueError:
        return False


def detect(rng):
    try:
        lay = P(rng).node(rng.choice([1, 1, 2, 2, 3]), rng.choice([0, 1, 2, 3, 5]))
    except (ValueError, RuntimeError):
        return None         # refused when made
    d = dump(lay)
    if not plain(d):
        return None
    x = ak.Array(lay)
    e = {"op": "detect", "a": d}
    try:
        e["says"] = [bool(ak.is_valid(x)), ak.validity_error(x) is None, bool(ak.is_valid(lay)), ok(lambda: ak.validity_error(x, exception=True)),
                     ok(lambda: ak.Array(lay, check_valid=True))]
    except RuntimeError:
        return None         # uniqueness of such categories is not implemented
    if len(lay) and rng.random() < 0.2:
        y = ak.partitioned([ak.Array(np.arange(2)), x, ak.Array([])])
        e["says"].append(bool(ak.is_valid(y)))
    if len(lay) and rng.random() < 0.2:
        y = ak.Array(L.RecordArray([L.NumpyArray(np.arange(len(lay))), lay], ["a", "b"]))
        if len(y):
            e["says"].append(bool(ak.is_valid(y[0])))
            e["says"].append(ok(lambda: ak.Record(y.layout[0], check_valid=True)))
    if rng.random() < 0.15:
        e["says"].append(bool(ak.is_valid(L.VirtualArray(L.ArrayGenerator(lambda: lay, length=len(lay))))))
    return e


def plain(d):
    """categories whose uniqueness the library can decide: numbers and strings"""
    if d.get("a") == "categorical" and d["c"] in ("ix", "io"):
        x = d["x"]
        if not (x["c"] == "np" and len(x["sh"]) == 1 or x["c"] in ("l", "lo", "reg") and x.get("a") in ("string", "bytestring")):
            return False
    return all(plain(x) for x in d.get("xs", []) + ([d["x"]] if "x" in d else []))


def closure(rng, i):
    name = rng.choice(NAMES)
    mod = importlib.import_module("props." + name)
    got, ins = [], []

    def result(x):
        if isinstance(x, (ak.Array, ak.Record)) and not (isinstance(x.layout, L.Content) and x.layout.parameter("__array__") in ("char", "byte")):
            got.append(x)
        return project.result(x)

    def dumping(x):
        out = project.dump(x)
        ins.append(out)
        return out

    keep = {k: getattr(mod, k) for k in ("result", "dump") if hasattr(mod, k)}
    if "result" not in keep:
        return None
    mod.result = result
    if "dump" in keep:
        mod.dump = dumping
    try:
        mod.case(rng, i + 1000)
    finally:
        for k, v in keep.items():
            setattr(mod, k, v)
    if not got:
        return None
    x = got[-1]
    lay = x.layout
    if isinstance(x, ak.Record):
        lay = lay.array
    d = dump(lay)
    if not plain(d):
        return None
    return {"op": "closure", "how": name, "ins": [a for a in ins if plain(a)], "n": d, "says": bool(ak.is_valid(x))}


def case(rng, i):
    return detect(rng) if rng.random() < 0.5 else closure(rng, i)
