"""Slicing."""
import random
import numpy as np
import awkward as ak
from gen import G, depth, depths, contains
from project import dump, result

def item(g, n, d):
    r = g.r
    c = r.random()
    if c < 0.3:
        return {"k": "at", "i": r.randint(-n, n - 1) if n and not g.ch(0.1) else r.randint(-n - 1, n + 1)}
    it = {"k": "range", "s": 1}
    if g.ch(0.7): it["a"] = r.randint(-n - 2, n + 2)
    if g.ch(0.7): it["b"] = r.randint(-n - 2, n + 2)
    if g.ch(0.4): it["s"] = r.choice([1, 2, 3, -1, -1, -2, -3])
    return it

def arr(g, n, sh):
    r = g.r
    m = 1
    for s in sh: m *= s
    lo, hi = (-n, n - 1) if n and not g.ch(0.1) else (-n - 1, n)
    return {"k": "arr", "sh": list(sh), "d": [r.randint(lo, hi) for _ in range(m)]}

def py(it):
    k = it["k"]
    if k == "at": return it["i"]
    if k == "range": return slice(it.get("a"), it.get("b"), it["s"])
    if k == "new": return np.newaxis
    if k == "ell": return Ellipsis
    if k == "field": return it["f"]
    if k == "fields": return list(it["fs"])
    if k == "arr": return np.array(it["d"], dtype=it.get("dt", "int64")).reshape(it["sh"])
    if k == "mask": return np.array(it["d"], dtype=bool).reshape(it["sh"])
    raise AssertionError(k)

def minlen(v):
    return len(v)

def lens(vals, d):
    """lengths found at each list level"""
    out = [[len(vals)]]
    cur = vals
    for _ in range(d):
        nxt = []
        ls = []
        for v in cur:
            if isinstance(v, (list,)):
                ls.append(len(v)); nxt.extend(v)
        out.append(ls or [0])
        cur = nxt
    return out

def recdepth(T):
    k = T[0]
    if k == "list": return 1 + recdepth(T[1])
    if k == "reg": return 1 + recdepth(T[2])
    if k == "opt": return recdepth(T[1])
    return 0

def hasfields(T):
    k = T[0]
    if k == "rec": return T[1]
    if k == "tup": return [str(i) for i in range(len(T[1]))]
    if k == "list": return hasfields(T[1])
    if k == "reg": return hasfields(T[2])
    if k == "opt": return hasfields(T[1])
    return None

def fill(v):
    return v

def jag(g, T, vals):
    """a nested slice of the same shape as vals down to some depth"""
    r = g.r
    d = recdepth(T)
    lev = r.randint(1, d)
    isbool = g.ch(0.4)
    opt_leaf = g.ch(0.3)
    opt_list = g.ch(0.2)
    def leaf(v):
        if v is None:           # nothing to select from
            return []
        n = len(v) if isinstance(v, list) else 0
        if isbool:
            return [None if opt_leaf and g.ch(0.2) else g.ch(0.5) for _ in range(n)]
        m = 0 if n == 0 and not g.ch(0.02) else r.randint(0, 3)
        return [None if opt_leaf and g.ch(0.2) else r.randint(-n, n - 1 if n and not g.ch(0.02) else n) for _ in range(m)]
    def go(v, k):
        if k == 0: return leaf(v)
        vv = v if isinstance(v, list) else []
        return [None if opt_list and k == 1 and g.ch(0.2) else go(x, k - 1) for x in vv]
    t = ("prim", "bool" if isbool else "int64")
    if opt_leaf: t = ("opt", t)
    t = ("list", t)
    for i in range(lev - 1):
        if i == 0 and opt_list: t = ("opt", t)
        t = ("list", t)
    if opt_list and lev == 1: t = ("opt", t)
    j = [None if opt_list and lev == 1 and g.ch(0.2) else go(x, lev - 1) for x in vals]
    return t, j, lev + 1

def case(rng, i):
    mode = rng.random()
    g = G(rng, exact=rng.random() < 0.5, p_npreg=0 if mode < 0.2 else 0.5, odd=0.02, more=0.05, p_un=0.04)
    T, vals, lay = g.array()
    a = ak.Array(lay)
    items = []
    d = recdepth(T)
    fs = hasfields(T)
    ls = lens(vals, d)
    pys = None
    if d > 0 and mode < 0.2 and vals:
        from project import val
        jt, jv, jd = jag(g, T, vals)
        g2 = G(rng)
        jl = g2.layout(jt, jv) if not g.ch(0.5) else G(rng, simple_phys=True).layout(jt, jv)
        items = [{"k": "jag", "v": val(jv), "d": jd}]
        pys = ak.Array(jl)
    else:
        if fs and g.ch(0.35):
            if g.ch(0.7) or len(fs) == 0:
                items.append({"k": "field", "f": rng.choice(list(fs) + ["nope"] if g.ch(0.1) or not fs else list(fs))})
            else:
                items.append({"k": "fields", "fs": rng.sample(list(fs), rng.randint(1, len(fs)))})
        k = rng.choice([1, 1, 2, 2, 3, 0 if items else 1])
        mn, mx = depths(T)
        k = min(k, mn + 1 + (1 if g.ch(0.1) else 0))
        if contains(T, ("str", "bytes")):
            k = min(k, 1)
        usearr = g.ch(0.4)
        sh = rng.choice([[1], [2], [2], [3], [2, 2], [0], [3]]) if usearr else None
        its = []
        for q in range(k):
            n = rng.choice(ls[q]) if q < len(ls) else 2
            if g.ch(0.5) and q < len(ls): n = min(ls[q])
            if usearr and g.ch(0.6):
                if g.ch(0.2):
                    s1 = [n] if g.ch(0.9) else [n + 1]
                    its.append({"k": "mask", "sh": s1, "d": [g.ch(0.5) for _ in range(s1[0])]})
                else:
                    its.append(arr(g, n, sh if g.ch(0.8) else [1]))
            else:
                its.append(item(g, n, d))
        if g.ch(0.12) and mn == mx: its.insert(rng.randint(0, len(its)), {"k": "ell"})
        if g.ch(0.12) and not contains(T, ("rec", "tup")): its.insert(rng.randint(0, len(its)), {"k": "new"})
        if items and g.ch(0.3):
            its.insert(rng.randint(0, len(its)), items.pop())
        adv = [q for q, x in enumerate(its) if x["k"] in ("arr", "mask")]
        if len(adv) > 1 and sh == [0]:
            # an empty index array together with a non-empty one: whether it broadcasts depends on their order
            for q in adv:
                its[q] = arr(g, 1, [0])
        elif len(adv) > 1:
            for q in adv:
                if its[q]["k"] == "mask" and not any(its[q]["d"]):
                    its[q] = arr(g, 1, sh)
        if adv and any(x["k"] in ("range", "ell", "new") for x in its[:adv[0]]):
            # a zero-size dimension behind another one: outside the property (its length is not recoverable)
            for q in adv:
                if its[q]["k"] == "mask" and not any(its[q]["d"]) or 0 in its[q]["sh"]:
                    its[q] = {"k": "range", "s": 1}
        items += its
        pys = tuple(py(x) for x in items)
        if len(pys) == 1 and g.ch(0.5): pys = pys[0]
    try:
        out = a[pys]
    except Exception as e:
        out = e
    return {"op": "getitem", "a": dump(lay), "items": items, "out": result(out)}
