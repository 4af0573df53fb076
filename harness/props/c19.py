"""Partitioned arrays: the same operations on arrays cut into partitions at arbitrary places."""
import importlib
import awkward as ak
from gen import G
from props.c18 import USES, NAMES


class Cut(object):
    """the awkward module, except that arrays made from layouts come in partitions"""
    rng = None

    def __getattr__(self, name):
        if name == "Array":
            return self.make
        return getattr(ak, name)

    def make(self, lay, *args, **kw):
        a = ak.Array(lay, *args, **kw)
        r = self.rng
        if not isinstance(lay, ak.layout.Content) or r.random() < 0.15:
            return a
        n = len(a)
        if n > 0 and r.random() < 0.2:
            return ak.repartition(a, r.randint(1, n))
        cuts = [0] + sorted(r.randint(0, n) for _ in range(r.choice([0, 1, 2, 3]))) + [n]
        parts = [a[i:j] for i, j in zip(cuts, cuts[1:])]
        if n > 0 and r.random() < 0.7:
            parts = [p for p in parts if len(p)]
        return ak.partitioned(parts)


CUT = Cut()


def size0(nd):
    if isinstance(nd, dict):
        return nd.get("c") == "reg" and nd["n"] == 0 or nd.get("c") == "np" and 0 in nd["sh"][1:] or any(size0(v) for v in nd.values())
    return isinstance(nd, list) and any(size0(x) for x in nd)


def size1(nd):
    """has fixed-size lists of one item (which broadcast, but lose their size where partitions are merged)"""
    if isinstance(nd, dict):
        if nd.get("c") == "reg" and nd["n"] == 1 or nd.get("c") == "np" and 1 in nd["sh"][1:]:
            return True
        return any(size1(v) for v in nd.values())
    return isinstance(nd, list) and any(size1(x) for x in nd)


def regbelow(nd, below):
    """has fixed-size lists inside of lists"""
    if isinstance(nd, dict):
        if nd.get("c") == "reg" or nd.get("c") == "np" and len(nd["sh"]) > 1:
            if below:
                return True
            below = True
        below = below or nd.get("c") in ("l", "lo")
        return any(regbelow(v, below) for v in nd.values())
    return isinstance(nd, list) and any(regbelow(x, below) for x in nd)


def length(nd):
    c = nd["c"]
    if c == "np":
        return nd["sh"][0]
    if c == "lo":
        return len(nd["o"]) - 1
    if c in ("l",):
        return len(nd["s"])
    if c in ("ix", "io"):
        return len(nd["i"])
    if c == "bm":
        return len(nd["m"])
    if c == "un":
        return len(nd["t"])
    if c in ("um", "virt"):
        return length(nd["x"])
    if c == "part":
        return sum(length(x) for x in nd["xs"])
    return nd.get("len", 0)


def outside(e):
    if e["op"] == "unflatten":
        return True                      # counts must fit into the partitions
    if e["op"] == "to_regular" and (size0(e["a"]) or regbelow(e["a"], True)):
        return True                      # merged partitions lose the sizes of lists of which there is none
    if e["op"] == "getitem" and e["items"] and e["items"][0]["k"] == "at" and length(e["a"]) == 0:
        return True                      # an item of nothing, with an empty index array: an error either way
    if e["op"] == "getitem" and any(x.get("k") == "mask" and x["sh"] != [length(e["a"])] for x in e["items"]):
        return True                      # masks of another length
    if e["spec"] == USES["c08"] and (regbelow(e["a"], False) or "w" in e and regbelow(e["a"], True)):
        return True                      # without any instance, fixed-size lists may lose their size
    if USES["c10"] == e["spec"] and e["op"] not in ("int", "float", "bool"):
        arrs = [x["n"] for x in e["xs"] if x["k"] == "arr"]
        return any(size1(x) or regbelow(x, False) for x in arrs) or len(set(length(x) for x in arrs)) > 1
    return False


def case(rng, i):
    name = rng.choice(NAMES)
    mod = importlib.import_module("props." + name)
    CUT.rng = rng
    G.VIRT = 0.15 if rng.random() < 0.15 and name != "c13" else 0.0
    old = mod.ak
    mod.ak = CUT
    try:
        e = mod.case(rng, i + 1000)
    finally:
        mod.ak = old
        G.VIRT = 0.0
    if isinstance(e, dict):
        e["spec"] = USES[name]
        if outside(e):
            return None
    return e
