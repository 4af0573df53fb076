"""Arrays are values: sessions of operations on a pool of arrays, all of which are looked at after every step."""
import copy, importlib, json, pickle, operator
import numpy as np
import awkward as ak
import project
from gen import G
from project import dump
from props.c18 import NAMES

OPS1 = ["sort", "argsort", "num", "flatten", "flattenN", "pad", "padclip", "fill", "isnone", "slice", "mask", "pick", "int", "sum", "max", "argmin", "count", "any",
        "packed", "list", "json", "numpy", "buffers", "pickle", "astype", "unflatten", "ones", "nan", "regular", "irregular", "singletons", "firsts", "local",
        "comb", "argcomb", "neg", "abs", "isnan", "arrow", "repart", "valid", "runs", "field", "unzip", "name", "type", "iter", "copy", "var", "strip", "optmask", "validmask", "fancy", "newaxis"]
OPS2 = ["add", "mul", "eq", "and", "where", "concat0", "concat1", "zip", "cart", "broadcast", "withfield", "maskby", "getby"]


def one(op, a, rng):
    ax = rng.choice([0, 1, -1, 2])
    n = len(a)
    if op == "sort": return ak.sort(a, axis=ax, ascending=rng.random() < 0.5)
    if op == "argsort": return ak.argsort(a, axis=ax)
    if op == "num": return ak.num(a, axis=ax)
    if op == "flatten": return ak.flatten(a, axis=ax)
    if op == "flattenN": return ak.flatten(a, axis=None)
    if op == "pad": return ak.pad_none(a, rng.randint(0, 3), axis=ax)
    if op == "padclip": return ak.pad_none(a, rng.randint(0, 3), axis=ax, clip=True)
    if op == "fill": return ak.fill_none(a, rng.choice([0, 1.5, "z"]))
    if op == "isnone": return ak.is_none(a, axis=ax)
    if op == "slice": return a[rng.randint(0, n):rng.randint(0, n):rng.choice([1, 1, 2])]
    if op == "mask": return a[np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool)]
    if op == "pick": return a[[rng.randrange(-n, n) for _ in range(rng.randint(0, 4))]] if n else None
    if op == "int": return a[..., rng.randint(-2, 1)]
    if op == "fancy": return a[:, [rng.randint(-1, 1), 0]]
    if op == "newaxis": return a[np.newaxis, :]
    if op in ("sum", "max", "argmin", "count", "any", "var"): return getattr(ak, op)(a, axis=ax, mask_identity=rng.random() < 0.5, keepdims=rng.random() < 0.3)
    if op == "packed": return ak.packed(a)
    if op == "list": ak.to_list(a); return None
    if op == "iter": list(a); return None
    if op == "json": ak.to_json(a); return None
    if op == "numpy": return ak.from_numpy(ak.to_numpy(a), regulararray=rng.random() < 0.5)
    if op == "buffers": return ak.from_buffers(*ak.to_buffers(a))
    if op == "pickle": return pickle.loads(pickle.dumps(a))
    if op == "astype": return ak.values_astype(a, rng.choice(["int32", "float64", "uint8"]))
    if op == "unflatten": return ak.unflatten(a, rng.randint(1, 2), axis=rng.choice([0, 1]))
    if op == "ones": return ak.ones_like(a)
    if op == "nan": return ak.nan_to_num(a, 7)
    if op == "regular": return ak.to_regular(a, axis=ax)
    if op == "irregular": return ak.from_regular(a, axis=ax)
    if op == "singletons": return ak.singletons(a)
    if op == "firsts": return ak.firsts(a, axis=ax)
    if op == "local": return ak.local_index(a, axis=ax)
    if op == "comb": return ak.combinations(a, 2, axis=ax)
    if op == "argcomb": return ak.argcombinations(a, 2, axis=ax)
    if op == "neg": return -a
    if op == "abs": return np.absolute(a)
    if op == "isnan": return np.isnan(a)
    if op == "arrow": return ak.from_arrow(ak.to_arrow(a))
    if op == "repart": return ak.repartition(a, rng.randint(1, 3))
    if op == "valid": ak.is_valid(a); return None
    if op == "runs": return ak.run_lengths(a)
    if op == "field": return a[rng.choice(ak.fields(a) or ["x"])]
    if op == "unzip": return ak.unzip(a)[0]
    if op == "name": return ak.with_name(a, "P")
    if op == "strip": return ak.without_parameters(a)
    if op == "type": str(ak.type(a)); repr(a); return None
    if op == "copy": return ak.copy(a)
    if op == "optmask": return ak.mask(a, np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool), valid_when=rng.random() < 0.5)
    if op == "validmask": return a.mask[[rng.random() < 0.5 for _ in range(n)]]


def two(op, a, b, rng):
    if op == "add": return a + b
    if op == "mul": return a * b
    if op == "eq": return a == b
    if op == "and": return np.logical_and(a, b)
    if op == "where": return ak.where(np.array([rng.random() < 0.5 for _ in range(len(a))], dtype=bool), a, b)
    if op == "concat0": return ak.concatenate([a, b])
    if op == "concat1": return ak.concatenate([a, b], axis=1)
    if op == "zip": return ak.zip({"x": a, "y": b}, depth_limit=rng.choice([None, 1]))
    if op == "cart": return ak.cartesian([a, b], axis=rng.choice([0, 1]))
    if op == "broadcast": return ak.broadcast_arrays(a, b)[rng.randint(0, 1)]
    if op == "withfield": return ak.with_field(a, b, rng.choice(["x", "new"]))
    if op == "maskby": return ak.mask(a, b)
    if op == "getby": return a[b]


def buffers(nd, out):
    """the NumPy views of all buffers of a layout"""
    if isinstance(nd, ak.partition.PartitionedArray):
        for x in nd.partitions:
            buffers(x, out)
        return
    for k in ("offsets", "starts", "stops", "index", "tags", "mask"):
        if hasattr(nd, k):
            out.append(np.asarray(getattr(nd, k)))
    if isinstance(nd, ak.layout.NumpyArray) and not nd.format.startswith(("M8", "m8")):
        out.append(np.asarray(nd))
    for x in (nd.contents if hasattr(nd, "contents") else [nd.content] if hasattr(nd, "content") else []):
        buffers(x, out)


def poke(nd):
    bufs = []
    buffers(nd, bufs)
    for b in bufs:
        if b.size and b.flags.writeable:
            b.view(np.uint8 if b.dtype == np.bool_ else b.dtype)[...] = 0
            if b.dtype != np.bool_:
                b += 1


class Log(object):
    def __init__(self):
        self.table, self.at, self.steps, self.hist = [], {}, [], []

    def key(self, d):
        s = json.dumps(d, sort_keys=True)
        if s not in self.at:
            self.at[s] = len(self.table) + 1
            self.table.append(s)
        return self.at[s]

    def step(self, what, act, pool):
        self.hist.append(what)
        self.steps.append({"act": act, "heap": [self.key(dump(a)) for a in pool]})

    def event(self):
        return {"op": "session", "hist": self.hist, "table": self.table, "steps": self.steps}


def session(rng):
    g = G(rng, nan=0.05, inf=0, p_un=rng.choice([0, 0, 0.1]), maxlen=rng.choice([2, 3, 4]), rec0=0, p_opt=rng.choice([0.15, 0.4]))
    T = g.type(rng.choice([0, 1, 1, 2]), True)
    n = rng.randint(0, 4)
    pool = []
    log = Log()
    for k in range(rng.choice([1, 2, 2])):
        if rng.random() < 0.3:
            T = g.type(rng.choice([0, 1, 2]), True)
        vals = g.values(T)
        if len(vals) > n:
            vals = vals[:n]
        while len(vals) < n:
            vals.append(g.value(T))
        pool.append(ak.Array(g.layout(T, vals)))
    log.step("start", {"a": "new", "n": len(pool)}, pool)
    for k in range(rng.randint(2, 6)):
        r = rng.random()
        i = rng.randrange(len(pool))
        a = pool[i]
        if r < 0.1:
            try:
                b = rng.choice([ak.copy, copy.deepcopy])(a)
                poke(b.layout)
            except Exception:
                pass
            log.step("poke a copy of %d" % i, {"a": "look"}, pool)
            continue
        if r < 0.2:
            key, b = rng.choice(["x", "new"]), pool[rng.randrange(len(pool))]
            try:
                a[key] = b
                log.step("assign %s to %d" % (key, i), {"a": "set", "at": i + 1}, pool)
            except Exception:
                log.step("cannot assign %s to %d" % (key, i), {"a": "look"}, pool)
            continue
        try:
            if r < 0.6:
                j = rng.randrange(len(pool))
                op = rng.choice(OPS2)
                what = "%s %d %d" % (op, i, j)
                out = two(op, a, pool[j], rng)
            else:
                op = rng.choice(OPS1)
                what = "%s %d" % (op, i)
                out = one(op, a, rng)
            if isinstance(out, ak.Array) and len(out) <= 12:
                dump(out)
                if len(pool) < 5:
                    pool.append(out)
                    log.step(what, {"a": "new", "n": 1}, pool)
                    continue
                what += " dropped"
            elif isinstance(out, ak.Array):
                what += " too long"
        except Exception as e:
            what += " " + type(e).__name__
        log.step(what, {"a": "look"}, pool)
    return log.event()


def framed(rng, i):
    """a case of another property: its inputs are looked at again afterwards"""
    name = rng.choice(NAMES)
    mod = importlib.import_module("props." + name)
    log, ins = Log(), []

    def dumping(x):
        out = project.dump(x)
        if isinstance(x, (ak.Array, ak.layout.Content, ak.partition.PartitionedArray)):
            ins.append((x, out))
        return out

    if not hasattr(mod, "dump"):
        return None
    keep = mod.dump
    mod.dump = dumping
    try:
        mod.case(rng, i + 1000)
    finally:
        mod.dump = keep
    ins = ins[:6]
    if not ins or sum(len(json.dumps(d)) for _, d in ins) > 6000:
        return None
    log.hist = ["start", name]
    log.steps = [{"act": {"a": "new", "n": len(ins)}, "heap": [log.key(d) for _, d in ins]},
                 {"act": {"a": "look"}, "heap": [log.key(project.dump(x)) for x, _ in ins]}]
    return log.event()


def case(rng, i):
    return session(rng) if rng.random() < 0.6 else framed(rng, i)
