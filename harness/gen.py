"""Random typed values and random physical layouts that represent them.

A type is a tuple: ("prim", dtype) ("str",) ("bytes",) ("list", T) ("reg", n, T) ("opt", T)
("rec", keys, [T...]) ("tup", [T...]) ("un", [T...]) ("unk",).
A value of a union type is a pair (tag, value) wrapped in U.
"""
import numpy as np
import awkward as ak

L = ak.layout
INTS = ["int64", "int32", "int8", "uint8", "int16", "uint16", "uint32", "uint64"]
MORE = ["complex128", "complex64", "datetime64[s]", "datetime64[us]", "timedelta64[s]", "timedelta64[ms]"]
FLTS = ["float64", "float32"]


class U(object):
    __slots__ = ("tag", "v")

    def __init__(self, tag, v):
        self.tag, self.v = tag, v


class G(object):
    """Generator with knobs.  p_* are probabilities."""

    def __init__(self, rng, **kw):
        self.r = rng
        self.maxlen = 5
        self.nan = 0.0
        self.inf = 0.0
        self.half = 0.15
        self.lo, self.hi = -3, 6
        self.p_opt = 0.25
        self.p_rec = 0.15
        self.p_un = 0.0
        self.un3 = 0.3              # unions of three types
        self.p_reg = 0.2
        self.p_str = 0.08
        self.p_bytes = 0.0
        self.p_wrap = 0.15          # IndexedArray wrapped around any node
        self.p_empty = 0.25         # extra weight for empty lists
        self.dtypes = ["int64"] * 4 + ["float64"] * 3 + ["bool", "int32", "uint8", "float32", "int8", "uint16", "int16", "uint32", "uint64"]
        self.simple_phys = False
        self.names = ["x", "y", "z"]
        self.maxdepth = 3
        self.p_npreg = 0.5          # rectangular primitive data as one NumpyArray
        self.rec0 = False           # records without fields
        self.p_zero = 0.08
        self.wide = 0.02            # numbers at the limits of their type (floats: of exactness)
        self.exact = True           # wide numbers below 2**53, so that they survive as float64
        self.more = 0.0             # complex numbers, dates and durations
        self.mores = MORE
        self.odd = 0.0              # floats that are not multiples of a half (and -0.0)
        self.p_long = 0.02          # arrays and lists that are much longer
        self.long = [8, 9, 15, 16, 17, 24, 33, 65, 130, 260]
        self.__dict__.update(kw)

    def ch(self, p):
        return self.r.random() < p

    # ---------------------------------------------------------------- types
    def type(self, depth=None, opt=True):
        """A random type with at most `depth` further list dimensions."""
        r = self.r
        if depth is None:
            depth = r.randrange(0, self.maxdepth)
        if opt and self.ch(self.p_opt):
            return ("opt", self.type(depth, opt=False))
        if self.ch(self.p_rec):
            n = r.choice([1, 2, 2, 3, 0] if self.rec0 and self.ch(0.15) else [1, 2, 2, 3])
            ts = [self.type(max(0, depth - r.randrange(2))) for _ in range(n)]
            if self.ch(0.3):
                return ("tup", ts)
            return ("rec", self.names[:n] if self.ch(0.4) else r.sample(self.names, n), ts)
        if self.p_un and self.ch(self.p_un):
            a = ("prim", r.choice(["int64", "float64"]))
            b = r.choice([("str",), ("list", ("prim", "int64")), ("bool",)])
            if b == ("bool",):
                b = ("prim", "bool")
            ts = [a, b]
            if self.ch(self.un3):
                c = [t for t in [("str",), ("list", ("prim", "int64")), ("prim", "bool"), ("rec", ["x"], [("prim", "int64")]), ("tup", [("prim", "float64"), ("str",)])] if t[0] != b[0] or t[0] == "prim" and b[0] != "prim"]
                ts.append(r.choice(c))
                r.shuffle(ts)
            return ("un", ts)
        if depth > 0:
            if self.ch(self.p_reg):
                return ("reg", r.choice([0, 1, 2, 2, 3]) if self.ch(self.p_zero * 4) else r.choice([1, 2, 2, 3]),
                        self.type(depth - 1))
            return ("list", self.type(depth - 1))
        if self.ch(self.p_str):
            return ("str",)
        if self.ch(self.p_bytes):
            return ("bytes",)
        if self.more and self.ch(self.more):
            return ("prim", r.choice(self.mores))
        return ("prim", r.choice(self.dtypes))

    # --------------------------------------------------------------- values
    def limit(self, dt):
        """A number near the limits of its type."""
        r = self.r
        if dt == "float32":
            return float(r.choice([2**24 - 1, 1 - 2**24, 70000, 2**20 + 1]))
        if dt == "float64":
            return float(r.choice([2**53 - 1, 1 - 2**53, 2**31, -2**31 - 1, 2**33 + 1, 10**12]))
        b = 8 * np.dtype(dt).itemsize
        if b == 64 and self.exact:
            b = 54
            if dt[0] == "u":
                b = 53
        lo, hi = (0, 2**b - 1) if dt[0] == "u" else (-2**(b - 1), 2**(b - 1) - 1)
        if b == 54:
            lo += 1
        return r.choice([lo, lo + 1, hi, hi - 1, hi // 2 + 1, r.randint(lo, hi), min(hi, 2**31), min(hi, 2**32 - 1), max(lo, -2**31 - 1), min(hi, 200), min(hi, 40000)])

    def scalar(self, dt):
        r = self.r
        if self.wide and dt[0] in "iuf" and self.ch(self.wide):
            return self.limit(dt)
        if dt == "bool":
            return r.random() < 0.5
        if dt.startswith("float"):
            if self.nan and self.ch(self.nan):
                return float("nan")
            if self.inf and self.ch(self.inf):
                return float("inf") if self.ch(0.5) else float("-inf")
            if self.odd and self.ch(self.odd):
                x = r.choice([0.1, -0.0, 1e-300, -2.5e17, 1.7976931348623157e308, 123456.789e3, 5e-324, r.random(), -r.random() * 10 ** r.randint(-20, 20), 3.4e38])
                return float(np.float32(x)) if dt == "float32" and abs(x) < 3.41e38 else x if dt == "float64" else 0.25
            x = float(r.randint(self.lo, self.hi))
            return x + 0.5 if self.ch(self.half) else x
        if dt.startswith("complex"):
            return complex(r.randint(self.lo, self.hi), r.randint(self.lo, self.hi))
        if dt.startswith("datetime") or dt.startswith("timedelta"):
            return np.array(r.randint(0, 9)).astype(dt)[()] if dt.startswith("t") else np.array(r.randint(0, 9), "i8").view(dt)[()]
        if dt.startswith("uint"):
            return r.randint(0, self.hi)
        return r.randint(self.lo, self.hi)

    def value(self, T):
        r = self.r
        k = T[0]
        if k == "prim":
            return self.scalar(T[1])
        if k == "str":
            n = r.choice([0, 1, 1, 2, 3])
            if self.ch(self.p_long):
                n = r.choice([8, 16, 31, 70])
            return "".join(r.choice("aaaabbbbccc\u00e9\u00e9\u4e2d\U0001f600\0") for _ in range(n))
        if k == "bytes":
            return bytes(r.choice([97, 98, 0, 200]) for _ in range(r.choice([0, 1, 2])))
        if k == "list":
            n = 0 if self.ch(self.p_empty) else r.randint(0, self.maxlen)
            if self.p_long and self.ch(self.p_long / 4):
                n = min(r.choice(self.long), 9 if T[1][0] not in ("prim", "str") else 70)
            return [self.value(T[1]) for _ in range(n)]
        if k == "reg":
            return [self.value(T[2]) for _ in range(T[1])]
        if k == "opt":
            return None if self.ch(0.3) else self.value(T[1])
        if k == "rec":
            return {a: self.value(t) for a, t in zip(T[1], T[2])}
        if k == "tup":
            return tuple(self.value(t) for t in T[1])
        if k == "un":
            i = r.randrange(len(T[1]))
            return U(i, self.value(T[1][i]))
        if k == "unk":
            raise ValueError("unk")
        raise AssertionError(k)

    def values(self, T, n=None):
        if T[0] == "unk":
            return []
        if n is None:
            n = 0 if self.ch(self.p_zero) else self.r.randint(1, self.maxlen)
            if self.p_long and self.ch(self.p_long):
                n = self.r.choice(self.long)
        return [self.value(T) for _ in range(n)]

    # --------------------------------------------------------------- layout
    def junk(self, T, n):
        """n arbitrary values of type T (never observed)."""
        try:
            return [self.value(T) for _ in range(n)]
        except ValueError:
            return []

    def idx(self, values, kinds):
        k = self.r.choice(kinds)
        dt = {"32": np.int32, "U32": np.uint32, "64": np.int64, "8": np.int8, "U8": np.uint8}[k]
        a = np.array(values, dtype=dt)
        cls = {"32": L.Index32, "U32": L.IndexU32, "64": L.Index64, "8": L.Index8, "U8": L.IndexU8}[k]
        if not self.simple_phys and self.ch(0.25):
            # a view into a larger buffer
            pre, post = self.r.randint(0, 2), self.r.randint(0, 2)
            big = np.concatenate([np.full(pre, 1, dt), a, np.full(post, 1, dt)])
            return cls(big)[pre:pre + len(a)], k
        return cls(a), k

    VIRT = 0.0      # how often a node is wrapped in a lazy array (C18)

    def layout(self, T, vals, wrap=True):
        nd = None
        if not self.simple_phys and self.ch(0.08):
            # a slice of a longer array
            pre, post = self.junk(T, self.r.randint(0, 2)), self.junk(T, self.r.randint(0, 2))
            nd = self.eager(T, pre + list(vals) + post, wrap)[len(pre):len(pre) + len(vals)]
        if nd is None:
            nd = self.eager(T, vals, wrap)
        if G.VIRT > 0 and not self.simple_phys and self.ch(G.VIRT):
            nd = virtual(self.r, nd)
        return nd

    def eager(self, T, vals, wrap=True):
        r = self.r
        k = T[0]
        n = len(vals)
        if wrap and not self.simple_phys and k not in ("opt", "unk") and self.ch(self.p_wrap):
            # IndexedArray over a permutation with duplicates removed and junk between
            extra = r.randint(0, 2) if n else r.randint(0, 1)
            content = list(vals) + self.junk(T, extra)
            perm = list(range(len(content)))
            r.shuffle(perm)
            newc = [None] * len(content)
            for i, p in enumerate(perm):
                newc[p] = content[i]
            index, kk = self.idx([perm[i] for i in range(n)], ["32", "U32", "64", "64"])
            return getattr(L, "IndexedArray" + kk)(index, self.layout(T, newc, wrap=False))
        if k == "unk":
            return L.EmptyArray()
        if k == "prim":
            return self.nparr(T[1], vals)
        if k in ("str", "bytes"):
            enc = [v.encode("utf-8") if k == "str" else v for v in vals]
            a, b = ("string", "char") if k == "str" else ("bytestring", "byte")
            return self.lists(enc, lambda flat: self.nparr("uint8", list(flat), params={"__array__": b}),
                              {"__array__": a}, lambda m: [97] * m)
        if k == "list":
            return self.lists(vals, lambda flat: self.layout(T[1], flat), {}, lambda m: self.junk(T[1], m))
        if k == "reg":
            if T[2][0] == "prim" and self.ch(self.p_npreg):
                a = np.array(vals, dtype=T[2][1]).reshape(n, T[1])
                return self.npview(a)
            flat = [y for v in vals for y in v]
            if not self.simple_phys and T[1] and self.ch(0.3):
                flat = flat + self.junk(T[2], r.randint(0, T[1] - 1))
            return L.RegularArray(self.layout(T[2], flat), T[1], n if T[1] == 0 else 0)
        if k == "opt":
            return self.option(T[1], vals)
        if k in ("rec", "tup"):
            ts = T[2] if k == "rec" else T[1]
            cols = []
            for j, t in enumerate(ts):
                col = [v[T[1][j]] if k == "rec" else v[j] for v in vals]
                if not self.simple_phys and self.ch(0.2):
                    col = col + self.junk(t, r.randint(0, 2))
                cols.append(self.layout(t, col))
            # the length is explicit so that longer columns are allowed
            return L.RecordArray(cols, list(T[1]) if k == "rec" else None, n)
        if k == "un":
            ts = T[1]
            buckets = [[] for _ in ts]
            tags, index = [], []
            for v in vals:
                if not self.simple_phys and self.ch(0.2):
                    buckets[v.tag] += self.junk(ts[v.tag], 1)
                tags.append(v.tag)
                index.append(len(buckets[v.tag]))
                buckets[v.tag].append(v.v)
            index, kk = self.idx(index, ["32", "U32", "64", "64"])
            tags = L.Index8(np.array(tags, np.int8))
            return getattr(L, "UnionArray8_" + kk)(tags, index, [self.layout(t, b) for t, b in zip(ts, buckets)])
        raise AssertionError(k)

    def npview(self, a):
        """The same data, possibly as a non-contiguous or offset view."""
        r = self.r
        if not self.simple_phys and a.dtype.kind not in "Mm" and self.ch(0.3) and a.ndim >= 1:
            c = r.randrange(4)
            if c == 3:
                # an array node that starts inside of its buffer
                big = np.zeros((a.shape[0] + 2,) + a.shape[1:], a.dtype)
                big[1:-1] = a
                return L.NumpyArray(big)[1:-1]
            if c == 0:
                big = np.zeros((a.shape[0] * 2 + 1,) + a.shape[1:], a.dtype)
                big[1::2] = a
                a = big[1::2]
            elif c == 1:
                a = a[::-1].copy()[::-1]
            else:
                big = np.zeros((a.shape[0] + 2,) + a.shape[1:], a.dtype)
                big[1:-1] = a
                a = big[1:-1]
        return L.NumpyArray(a)

    def nparr(self, dt, vals, params=None):
        a = np.array(vals, dtype=dt)
        if params is not None:
            if not self.simple_phys and self.ch(0.1):
                return L.NumpyArray(np.concatenate([a[:1], a, a[:1]]), parameters=params)[min(1, len(a)):min(1, len(a)) + len(a)]
            return L.NumpyArray(a, parameters=params)
        return self.npview(a)

    def lists(self, vals, mk, params, junk):
        r = self.r
        n = len(vals)
        if self.simple_phys or self.ch(0.6):
            pre = junk(r.randint(0, 2)) if not self.simple_phys and self.ch(0.4) else []
            post = junk(r.randint(0, 2)) if not self.simple_phys and self.ch(0.4) else []
            flat, off = list(pre), [len(pre)]
            for v in vals:
                flat.extend(v)
                off.append(len(flat))
            flat.extend(post)
            o, kk = self.idx(off, ["64"] if self.simple_phys else ["32", "U32", "64", "64"])
            return getattr(L, "ListOffsetArray" + kk)(o, mk(flat), parameters=params)
        order = list(range(n))
        r.shuffle(order)
        starts, stops, flat = [0] * n, [0] * n, []
        for i in order:
            flat.extend(junk(r.choice([0, 0, 1])))
            starts[i] = len(flat)
            flat.extend(vals[i])
            stops[i] = len(flat)
            if starts[i] == stops[i] and self.ch(0.3):
                starts[i] = stops[i] = r.randint(0, len(flat) + (4 if self.ch(0.5) else 0))
        flat.extend(junk(r.choice([0, 0, 1])))
        kk = r.choice(["32", "U32", "64", "64"])
        s, _ = self.idx(starts, [kk])
        e, _ = self.idx(stops, [kk])
        return getattr(L, "ListArray" + kk)(s, e, mk(flat), parameters=params)

    def option(self, T, vals):
        r = self.r
        n = len(vals)
        kind = r.choice(["io", "io", "bm", "bit", "um"]) if not self.simple_phys else "io"
        if T[0] == "unk" or (kind == "um" and any(v is None for v in vals)):
            kind = "io"
        if kind == "um":
            return L.UnmaskedArray(self.layout(T, vals, wrap=False))
        if kind == "io":
            content, index = [], []
            for v in vals:
                if not self.simple_phys and self.ch(0.15):
                    content += self.junk(T, 1)
                if v is None:
                    index.append(-1 if self.ch(0.8) else -r.randint(2, 5))
                else:
                    index.append(len(content))
                    content.append(v)
            index, kk = self.idx(index, ["32", "64", "64"])
            return getattr(L, "IndexedOptionArray" + kk)(index, self.layout(T, content, wrap=False))
        vw = self.ch(0.5)
        filled = [self.value(T) if v is None else v for v in vals]
        valid = [v is not None for v in vals]
        if kind == "bm":
            filled += self.junk(T, r.choice([0, 0, 1]))
            if self.ch(0.3):   # any nonzero byte means true
                mask = [(r.choice([1, 1, 2, -1]) if m == vw else 0) for m in valid]
            else:
                mask = [int(m == vw) for m in valid]
            return L.ByteMaskedArray(L.Index8(np.array(mask, np.int8)), self.layout(T, filled, wrap=False), vw)
        lsb = self.ch(0.5)
        bits = [int(m == vw) for m in valid]
        nbytes = (n + 7) // 8 + r.choice([0, 0, 1])
        bits += [r.randint(0, 1) for _ in range(nbytes * 8 - n)]
        by = []
        for b in range(nbytes):
            w = bits[b * 8:b * 8 + 8]
            by.append(sum(x << (i if lsb else 7 - i) for i, x in enumerate(w)))
        filled += self.junk(T, r.choice([0, 0, 1]))
        return L.BitMaskedArray(L.IndexU8(np.array(by, np.uint8)), self.layout(T, filled, wrap=False), vw, n, lsb)

    def array(self, T=None, n=None):
        if T is None:
            T = self.type()
        vals = self.values(T, n)
        return T, vals, self.layout(T, vals)


class Forget(dict):
    """a cache that may have lost anything by the time it is asked"""
    def __init__(self, r, p):
        self.r, self.p = r, p

    def get(self, k, default=None):
        if k in self and self.r.random() < self.p:
            del self[k]
        return dict.get(self, k, default)

    def __getitem__(self, k):
        if k in self and self.r.random() < self.p:
            del self[k]
        return dict.__getitem__(self, k)


KEEP = []       # caches are held weakly by virtual arrays


def virtual(r, nd):
    import random
    n = len(nd)
    form = nd.form if r.random() < 0.7 else None
    try:
        if form is not None:
            form.type({})
    except ValueError:      # a form is not known unless all of its parts are
        form = None
    gen = ak.layout.ArrayGenerator(lambda: nd, (), {}, form=form, length=n if r.random() < 0.7 else None)
    k = r.randrange(3)
    if k == 0:
        return ak.layout.VirtualArray(gen)
    m = Forget(random.Random(r.random()), 0.0 if k == 1 else r.choice([0.2, 0.6, 1.0]))
    KEEP.append(m)
    if len(KEEP) > 1000:
        del KEEP[:500]
    return ak.layout.VirtualArray(gen, ak.layout.ArrayCache(m))


def depth(T):
    """Number of list dimensions below this element type along the first branch."""
    k = T[0]
    if k in ("list",):
        return 1 + depth(T[1])
    if k == "reg":
        return 1 + depth(T[2])
    if k == "opt":
        return depth(T[1])
    return 0


def depths(T):
    """(fewest, most) list dimensions below this element type."""
    k = T[0]
    if k == "list":
        a, b = depths(T[1]); return a + 1, b + 1
    if k == "reg":
        a, b = depths(T[2]); return a + 1, b + 1
    if k == "opt":
        return depths(T[1])
    ts = T[2] if k == "rec" else T[1] if k in ("tup", "un") else []
    ds = [depths(t) for t in ts]
    if not ds:
        return 0, 0
    return min(d[0] for d in ds), max(d[1] for d in ds)


def contains(T, kinds):
    if T[0] in kinds:
        return True
    ts = T[2] if T[0] == "rec" else T[1] if T[0] in ("tup", "un") else [T[2]] if T[0] == "reg" else [T[1]] if T[0] in ("list", "opt") else []
    return any(contains(t, kinds) for t in ts)


def recabove(T, k):
    """a record (or tuple) above list dimension k"""
    if k <= 0:
        return False
    if T[0] in ("rec", "tup"):
        return True
    if T[0] == "opt":
        return recabove(T[1], k)
    if T[0] in ("list", "reg"):
        return recabove(T[-1], k - 1)
    return False
