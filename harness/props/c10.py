"""Universal functions and broadcasting."""
import numpy as np
import awkward as ak
import project
from gen import G, depths, contains
from project import dump, result, num, typ

project.NEGZERO = False
BIN = ["add", "subtract", "multiply", "floor_divide", "remainder", "maximum", "minimum", "equal", "not_equal", "less",
       "less_equal", "greater", "greater_equal", "logical_and", "logical_or", "logical_xor"]
UN = ["negative", "absolute", "square", "logical_not"]
COMPARE = ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "logical_and", "logical_or", "logical_xor", "logical_not",
           "maximum", "minimum")
DIV = ("floor_divide", "remainder")


def reshape(g, T, vals, dt):
    """values of type T's structure (a prefix of its list levels) with fresh leaves"""
    r = g.r
    cut = r.randint(0, depths(T)[1])
    def sub(T, k):
        if T[0] == "opt":
            return sub(T[1], k) if not g.ch(0.3) else ("opt", sub(T[1], k))
        if T[0] in ("list", "reg") and k > 0:
            e = T[1] if T[0] == "list" else T[2]
            if T[0] == "reg":
                c = r.random()
                if c < 0.7: return ("reg", T[1], sub(e, k - 1))
                if c < 0.85: return ("reg", 1, sub(e, k - 1))
                return ("list", sub(e, k - 1))
            if g.ch(0.1): return ("reg", 1, sub(e, k - 1))
            return ("list", sub(e, k - 1))
        t = ("prim", dt)
        return ("opt", t) if g.ch(0.2) else t
    S = sub(T, cut)
    def fill(T, S, v):
        if S[0] == "opt":
            return None if g.ch(0.25) else fill(T, S[1], v)
        if T[0] == "opt":
            T = T[1]
        if S[0] == "prim":
            return g.scalar(S[1])
        e = T[1] if T[0] == "list" else T[2]
        se = S[1] if S[0] == "list" else S[2]
        if not isinstance(v, list):
            # nothing there to follow: any lengths will do
            n = S[1] if S[0] == "reg" else (T[1] if T[0] == "reg" else r.randint(0, 2))
            return [fill(e, se, None) for _ in range(n)]
        if S[0] == "reg" and S[1] != len(v):
            return [fill(e, se, v[0] if v else None) for _ in range(S[1])]
        out = [fill(e, se, x) for x in v]
        if S[0] == "list" and g.ch(0.01):
            out = out[:-1]
        return out
    return S, [fill(T, S, v) for v in vals]


def hasreg(n):
    return n["c"] == "reg" or len(n.get("sh", ())) > 1 or any(hasreg(m) for m in [n.get("x")] + list(n.get("xs", ())) if isinstance(m, dict))


def absent(t, vals):
    """fixed-size lists of which there is none"""
    if t[0] == "opt":
        return absent(t[1], [v for v in vals if v is not None])
    if t[0] == "reg":
        return not vals or absent(t[3], [x for v in vals for x in v])
    if t[0] == "list" and not t[1]:
        return absent(t[2], [x for v in vals for x in v])
    if t[0] == "rec":
        return any(absent(u, [v[i] if isinstance(v, tuple) else v[k] for v in vals]) for i, (k, u) in enumerate(zip(t[3], t[4])))
    return False


def case(rng, i):
    mode = rng.random()
    op = "broadcast_arrays" if mode < 0.2 else rng.choice(UN) if mode < 0.3 else rng.choice(BIN)
    dts = ["int64", "float64", "int64", "float64", "int32", "int16", "int8", "float32"]
    if op in COMPARE or op == "broadcast_arrays":
        dts += ["bool", "uint8", "uint32"]
    g = G(rng, p_str=0, p_rec=0, dtypes=dts, half=0 if op in ("multiply", "square") + DIV else 0.1, p_reg=0.3, wide=0)
    g.p_opt = rng.choice([0, 0.15, 0.3])
    if op == "broadcast_arrays" and g.ch(0.3):
        g.p_rec = 0.15
    T = g.type()
    while contains0(T):
        T = g.type()
    g.p_zero = 0.04
    vals = g.values(T)
    lay = g.layout(T, vals)
    xs, ev = [ak.Array(lay)], [{"k": "arr", "n": dump(lay)}]
    dt = lambda: rng.choice(dts)
    leafdt = [leaf(T)]
    nin = 1 if op in UN else 2 if op in BIN else rng.randint(1, 3)
    for _ in range(nin - 1):
        if g.ch(0.12) and op != "broadcast_arrays":
            d = rng.choice(["int", "float"] + (["bool"] if op in COMPARE else []))
            x = {"int": rng.randint(1, 3), "float": 1.5 if g.half else 2.0, "bool": g.ch(0.5)}[d]
            xs.append(x)
            ev.append({"k": "sc", "dt": d, "v": num(x)})
            leafdt.append(x)
            continue
        g2 = G(rng, p_str=0, p_rec=0, dtypes=dts, half=g.half, p_zero=0.04, p_opt=g.p_opt, wide=0)
        if op in DIV:
            g2.lo, g2.hi = 1, 4
        if contains(T, ("rec", "tup")):
            U, uv = ("prim", dt()), None
            uv = [g2.value(U) for _ in vals]
        elif g.ch(0.1):
            U = g2.type()
            if contains0(U):
                U = ("list", ("prim", "int64"))
            uv = g2.values(U, len(vals) if g.ch(0.6) else None)
        else:
            U, uv = reshape(g2, T, vals, dt())
            if len(uv) > 1 and g.ch(0.08):
                uv = uv[:1]
            elif g.ch(0.08) and all_regular(T) and isinstance(vals, list) and vals and isinstance(T, tuple) and T[0] == "reg":
                # NumPy-style: one row against all
                U, uv = U[2] if U[0] == "reg" else U, (uv[0] if U[0] == "reg" else uv)
        ul = g2.layout(U, uv)
        xs.append(ak.Array(ul)); ev.append({"k": "arr", "n": dump(ul)})
        leafdt.append(leaf(U))
    if any(x["k"] == "arr" and len(xs[j]) == 0 for j, x in enumerate(ev)) and any(x["k"] == "arr" and len(xs[j]) == 1 for j, x in enumerate(ev)):
        return None      # size 1 against size 0
    if any(x["k"] == "arr" and len(xs[j]) == 0 for j, x in enumerate(ev)) and any(x["k"] == "arr" and hasreg(x["n"]) for x in ev):
        return None      # likewise
    if any(x["k"] == "arr" and hasreg(x["n"]) and absent(typ(ak.type(xs[j])), ak.to_list(xs[j])) for j, x in enumerate(ev)):
        return None      # fixed-size lists of which there is none
    e = {"op": op, "xs": ev}
    if op == "broadcast_arrays":
        e["left"], e["right"] = g.ch(0.7), g.ch(0.7)
        if len({x.ndim for x in xs}) != 1 or contains(T, ("rec", "tup")):
            e["left"] = True
        kw = {"left_broadcast": e["left"], "right_broadcast": e["right"]}
        e["depth"] = 99
        try:
            outs = ak.broadcast_arrays(*xs, **kw)
            e["out"] = {"k": "arrs", "outs": [result(o) for o in outs]}
        except Exception as ex:
            e["out"] = {"k": "err", "e": type(ex).__name__}
        return e
    f = getattr(np, op)
    if op in DIV:
        # never divide by zero: swap so that the divisor is the second
        pass
    try:
        with np.errstate(all="ignore"):
            out = f(*xs)
    except Exception as ex:
        out = ex
    e["out"] = result(out)
    e["dt"] = str(f(*[np.ones(1, d) if isinstance(d, str) else d for d in leafdt]).dtype) if None not in leafdt else ""
    return e


def leaf(T):
    while T[0] in ("list", "opt"):
        T = T[1]
    while T[0] in ("list", "opt", "reg"):
        T = T[1] if T[0] != "reg" else T[2]
    return T[1] if T[0] == "prim" else None


def all_regular(T):
    if T[0] == "opt": return all_regular(T[1])
    if T[0] == "list": return False
    if T[0] == "reg": return all_regular(T[2])
    return True


def contains0(T):
    """a fixed-size list of size zero"""
    if T[0] == "reg" and T[1] == 0:
        return True
    ts = T[2] if T[0] == "rec" else T[1] if T[0] in ("tup", "un") else [T[2]] if T[0] == "reg" else [T[1]] if T[0] in ("list", "opt") else []
    return any(contains0(t) for t in ts)
