"""Arrays and array builders in Numba-compiled functions."""
import logging, warnings
import numpy as np
import awkward as ak
from gen import G, contains
from project import dump, result, val

warnings.filterwarnings("ignore")
import numba as nb
from numba.typed.typedobjectutils import _nonoptional

logging.getLogger("numba").setLevel(logging.ERROR)


class Code(object):
    """source of a function that reads an array along some steps and writes what is there into a builder"""

    def __init__(self, rng):
        self.r = rng
        self.lines = []
        self.k = 0

    def add(self, ind, line):
        self.lines.append("    " * ind + line)

    def new(self):
        self.k += 1
        return "x%d" % self.k

    def emit(self, T, x, d):
        k = T[0]
        if k == "prim":
            if T[1] == "bool":
                self.add(d, self.r.choice(["b.boolean(%s)", "b.append(%s)"]) % x)
            elif T[1][0] in "iu":
                self.add(d, self.r.choice(["b.integer(%s)", "b.append(%s)"]) % x)
            else:
                self.add(d, self.r.choice(["b.real(%s)", "b.append(%s)"]) % x)
        elif k in ("str", "bytes"):
            self.add(d, "b.begin_list()")
            c = self.new()
            self.add(d, "for %s in %s:" % (c, x))
            self.add(d + 1, "b.integer(%s)" % (c if k == "bytes" else "ord(%s)" % c))
            self.add(d, "b.end_list()")
        elif k in ("list", "reg"):
            y = self.new()
            self.add(d, "b.begin_list()")
            if self.r.random() < 0.5:
                self.add(d, "for %s in %s:" % (y, x))
            else:
                i = self.new()
                self.add(d, "for %s in range(len(%s)):" % (i, x))
                self.add(d + 1, "%s = %s[%s]" % (y, x, i if self.r.random() < 0.7 else "%s - len(%s)" % (i, x)))
            self.emit(T[-1], y, d + 1)
            self.add(d, "b.end_list()")
        elif k == "opt":
            if T[1][0] == "prim" and self.r.random() < 0.3:
                self.add(d, "b.append(%s)" % x)
                return
            y = self.new()
            self.add(d, "if %s is None:" % x)
            self.add(d + 1, "b.null()")
            self.add(d, "else:")
            self.add(d + 1, "%s = nn(%s)" % (y, x))
            self.emit(T[1], y, d + 1)
        elif k == "rec":
            self.add(d, "b.begin_record()")
            for n, t in zip(T[1], T[2]):
                self.add(d, "b.field(%r)" % n)
                y = self.new()
                self.add(d, "%s = %s" % (y, "%s.%s" % (x, n) if self.r.random() < 0.5 and n.isidentifier() else "%s[%r]" % (x, n)))
                self.emit(t, y, d)
            self.add(d, "b.end_record()")
        elif k == "tup":
            self.add(d, "b.begin_tuple(%d)" % len(T[1]))
            for n, t in enumerate(T[1]):
                self.add(d, "b.index(%d)" % n)
                y = self.new()
                self.add(d, "%s = %s[%r]" % (y, x, str(n)))
                self.emit(t, y, d)
            self.add(d, "b.end_tuple()")
        else:
            raise AssertionError(T)

    def path(self, T, x, steps, d):
        """returns the type that is reached"""
        if not steps:
            self.emit(T, x, d)
            return T
        if T[0] == "opt":
            y = self.new()
            self.add(d, "if %s is None:" % x)
            self.add(d + 1, "b.null()")
            self.add(d, "else:")
            self.add(d + 1, "%s = nn(%s)" % (y, x))
            return self.path(T[1], y, steps, d + 1)
        st, y = steps[0], self.new()
        if st[0] == "at":
            self.add(d, "%s = %s[%s]" % (y, x, st[1]))
            return self.path(T[-1], y, steps[1:], d)
        if st[0] == "range":
            self.add(d, "%s = %s[%s:%s]" % (y, x, st[1], st[2]))
            return self.path(("list", T[-1]), y, steps[1:], d)
        if st[0] == "field":
            self.add(d, "%s = %s" % (y, "%s.%s" % (x, st[1]) if self.r.random() < 0.5 and st[1].isidentifier() else "%s[%r]" % (x, st[1])))
            return self.path(st[2], y, steps[1:], d)
        self.add(d, "b.integer(len(%s))" % x)
        return ("prim", "int64")


def fieldtype(T, f):
    """the type of a field of (lists of) records"""
    if T[0] in ("list", "opt"):
        return (T[0], fieldtype(T[1], f))
    if T[0] == "reg":
        return ("reg", T[1], fieldtype(T[2], f))
    t = T[2][T[1].index(f)] if T[0] == "rec" else T[1][int(f)]
    return t


def simple(T):
    """the type as it is, or None if options are directly nested in it (optional[optional[...]] is not a Numba type)"""
    if T[0] == "opt" and T[1][0] == "opt":
        return None
    if T[0] in ("list", "reg", "opt"):
        t = simple(T[-1])
        return t and T[:-1] + (t,)
    return T


def fields(T):
    if T[0] in ("list", "reg", "opt"):
        return fields(T[-1])
    return list(T[1]) if T[0] == "rec" else [str(i) for i in range(len(T[1]))] if T[0] == "tup" else []


def conv(T, v):
    """what the builder was given, as a value of type T"""
    if v is None:
        return ["none"]
    k = T[0]
    if k == "opt":
        return conv(T[1], v)
    if k == "prim":
        return val(v)
    if k in ("str", "bytes"):
        return ["s", list("".join(chr(c) for c in v).encode("utf-8", "surrogatepass"))] if k == "str" else ["y", [int(c) for c in v]]
    if k in ("list", "reg"):
        return ["l", [conv(T[-1], x) for x in v]]
    if k == "rec":
        return ["r", list(T[1]), [conv(t, v[n]) for n, t in zip(T[1], T[2])]]
    return ["t", [conv(t, x) for t, x in zip(T[1], v)]]


def mksteps(rng, T):
    """some steps, as (kind, expressions) for the code and as functions of the arguments for the specification"""
    code, spec, cur, pend = [], [], ("list", T), False
    names = ["i", "j", "s", "t"]
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        c = cur
        while c[0] == "opt":
            c = c[1]
        if c[0] in ("list", "reg"):
            k = rng.choice(["at", "at", "range", "range", "len"] + (["field"] * 2 if fields(c) else []))
        elif c[0] in ("rec", "tup") and fields(c):
            k = "field"
        else:
            break
        if k == "at":
            n = rng.choice(names[:2])
            code.append(("at", n))
            spec.append(lambda a, n=n: {"k": "at", "i": a[n]})
            cur = c[-1]
        elif k == "range":
            n, m = rng.choice([("s", "t"), ("s", "t"), ("i", "t"), ("s", "j"), ("", "t"), ("s", "")])
            code.append(("range", n, m))
            spec.append(lambda a, n=n, m=m: {"k": "range", "s": a[n] if n else 0, "t": a[m] if m else 1000})
            cur = ("list", c[-1])
        elif k == "len":
            code.append(("len",))
            spec.append(lambda a: {"k": "len"})
            break
        else:
            f = rng.choice(fields(c))
            cur = simple(fieldtype(c, f))
            if cur is None or pend:
                break               # fields of fields of lists: a TypeError when the function is compiled
            pend = c[0] in ("list", "reg")
            code.append(("field", f, cur))
            spec.append(lambda a, f=f: {"k": "field", "f": f, "n": int(f) if f.isdigit() else -1})
    return code, spec, cur


BOX = {"at": "a[%s]", "range": "a[%s:%s]"}


def finding():
    a = ak.Array([[{"x": 1, "y": 2}], []])
    b = ak.ArrayBuilder()

    @nb.njit
    def f(a, b):
        b.append(a["x"])
    f(a, b)
    return {"op": "view", "how": "append", "a": dump(a), "steps": [{"k": "field", "f": "x", "n": -1}], "args": [],
            "kf": "C21-append-field", "out": result(b.snapshot()[0])}


def case(rng, i):
    if i == 0:
        return finding()
    g = G(rng, nan=0.03, inf=0.03, odd=0.03, wide=0.05, p_un=0, p_bytes=0, rec0=0, p_empty=0, maxlen=rng.choice([2, 3, 4]), p_long=0.01)
    T = g.type(rng.choice([0, 1, 1, 2, 2, 3]))
    if contains(T, ("unk", "un")):
        return None
    vals = g.values(T)
    G.VIRT = 0.2 if g.ch(0.1) else 0.0
    if G.VIRT:
        g.p_npreg = 0               # not implemented
    try:
        lay = g.layout(T, vals)
    finally:
        G.VIRT = 0.0
    how = rng.choice(["walk", "path", "path", "path", "box", "append", "extend", "asarray"])
    if how == "asarray" and not (isinstance(lay, ak.layout.NumpyArray) and lay.ndim == 1):
        how = "path"
    a = ak.Array(lay)
    if g.ch(0.15) and len(a) and how in ("walk", "path"):
        cut = sorted(rng.randint(0, len(a)) for _ in range(rng.choice([1, 2])))
        cut = [0] + cut + [len(a)]
        a = ak.Array(ak.partition.IrregularlyPartitionedArray([lay[x:y] for x, y in zip(cut[:-1], cut[1:])]))
    code, spec = [], []
    c = Code(rng)
    ret = None
    if how in ("walk", "path"):
        if how == "path":
            code, spec, cur = mksteps(rng, T)
        R = c.path(("list", T), "a", code, 1)
    elif how in ("box", "append"):
        code, spec, cur = mksteps(rng, T)
        x, cur = "a", ("list", T)
        for st in code:
            if cur[0] == "opt" or st[0] == "len":
                break
            y = c.new()
            if st[0] == "field":
                c.add(1, "%s = %s[%r]" % (y, x, st[1]))
                cur = st[2]
            elif st[0] == "at":
                c.add(1, "%s = %s[%s]" % (y, x, st[1]))
                cur = cur[-1]
            else:
                c.add(1, "%s = %s[%s:%s]" % (y, x, st[1], st[2]))
                cur = ("list", cur[-1])
            x = y
            ret = (ret or 0) + 1
        spec = spec[:ret or 0]
        if how == "append" and (cur[0] in ("str", "bytes") or cur[0] == "opt" and cur[1][0] != "prim" or any(c[0] == "field" for c in code[:ret])):
            how = "box"             # views of fields: known finding C21-append-field
        c.add(1, "return %s" % x if how == "box" else "b.append(%s)" % x)
    elif how == "extend":
        if g.ch(0.5):
            c.add(1, "b.extend(a[s:t])")
            spec = [lambda q: {"k": "range", "s": q["s"], "t": q["t"]}]
        else:
            c.add(1, "b.append(a, i)")
            spec = [lambda q: {"k": "at", "i": q["i"]}]
    else:
        c.add(1, "return np.asarray(a[s:t])")
        spec = [lambda q: {"k": "range", "s": q["s"], "t": q["t"]}]
    src = "def f(a, b, i, j, s, t):\n" + "\n".join(c.lines) + "\n"
    ns = {"np": np, "nn": _nonoptional}
    exec(src, ns)
    f = nb.njit(ns["f"])
    evs = []
    arrays = [a]
    if not isinstance(a.layout, ak.partition.PartitionedArray):
        arrays += [a[1:], a[: len(a) // 2]]
    n = len(vals)
    for x in arrays:
        for _ in range(3 if spec else 1):
            q = {"i": rng.randint(-n - (1 if g.ch(0.1) else 0), max(0, n - 1)), "j": rng.randint(-2, 2), "s": rng.choice([0, 1, 1, rng.randint(-n - 1, n + 1)]),
                 "t": rng.choice([n, n - 1, rng.randint(-n - 1, n + 1), 2])}
            b = ak.ArrayBuilder(initial=rng.choice([1, 2, 1024]))
            e = {"op": "view", "how": how, "a": dump(x), "steps": [s(q) for s in spec], "args": [q["i"], q["j"], q["s"], q["t"]]}
            try:
                out = f(x, b, q["i"], q["j"], q["s"], q["t"])
                if how in ("walk", "path"):
                    got = b.snapshot().tolist()
                    if len(got) != 1:
                        raise AssertionError("builder has %d items" % len(got))
                    out = {"k": "val", "v": conv(R, got[0])}
                elif how == "append":
                    got = b.snapshot()
                    if len(got) != 1:
                        raise AssertionError("builder has %d items" % len(got))
                    out = result(got[0])
                elif how == "extend":
                    got = b.snapshot()
                    out = result(got if spec[0](q)["k"] == "range" else got[0])
                elif how == "asarray":
                    out = {"k": "val", "v": val(out)}
                else:
                    out = result(out)
            except (ValueError, IndexError) as err:
                out = result(err)
            except AttributeError as err:
                if "has no attribute 'array'" not in str(err):
                    raise
                break               # a lazy array inside of a lazy array is not lazy once the outer one is generated
            e["out"] = out
            evs.append(e)
    return evs
