"""ArrayBuilder sessions."""
import numpy as np
import awkward as ak
from gen import G
from project import dump, val

UNITS = ["datetime64[s]", "timedelta64[s]", "datetime64[ns]", "datetime64[D]", "timedelta64[us]", "datetime64[15s]"]


def units(rng):
    return [rng.choice([u for u in UNITS if u[0] == c]) for c in "dt"]


BIG = [16777217, -16777217, 2**30 - 1, 1 - 2**30, 65536, -129, 256]
EXACT = [2**53, 1 - 2**53, 2**31, -2**31, 2**40 + 1, 2**32]          # also exact as real numbers
KEYS = [["x", "y", "z", "w"], ["x", "y", "z", "w"], ["p", "pt", "pte", "t"], ["", "x", "xx", "a b"], ["\u00e9", "e", "x\u20ac", "x"], ["a" * 40, "a" * 41, "b", "A"]]


def scalar(g, kinds, wide, fin=False):
    r = g.r
    k = r.choice(kinds)
    if k == "null":
        return {"k": "null"}, ("null",)
    if k == "bool":
        v = g.ch(0.5)
        return {"k": "bool", "v": val(v)}, ("boolean", v)
    if k == "int":
        v = r.randint(-5, 9)
        if wide == 2 and g.ch(0.3):
            v = r.choice([2**62, -2**63, 2**63 - 1, 2**40])
        elif wide == 1 and g.ch(0.3):
            v = r.choice(EXACT)
        elif g.ch(0.1):
            v = r.choice(BIG)
        return {"k": "int", "v": val(v)}, ("integer", v)
    if k == "real":
        v = r.choice([0.5, -1.5, 2.0, 3.0, 0.0] + ([] if fin else [float("inf"), float("nan"), 0.1, -1e300, 5e-324]))
        return {"k": "real", "v": val(v)}, ("real", v)
    if k == "cplx":
        v = complex(r.randint(-3, 3) / 2, r.randint(-3, 3) / 2)
        return {"k": "cplx", "v": val(v)}, ("complex", v)
    if k == "str":
        v = "".join(r.choice("ab\u00e9\u20ac\0") for _ in range(r.choice([0, 1, 2, 3, 20])))
        return {"k": "str", "v": val(v)}, ("string", v)
    if k == "bytes":
        v = bytes(r.choice([97, 98, 0, 255, 200]) for _ in range(r.choice([0, 1, 2])))
        return {"k": "bytes", "v": val(v)}, ("bytestring", v)
    if k == "dt":
        u = r.choice(g.units)
        v = np.array(r.randint(-9, 9), "i8").view(u)[()]
        return {"k": "dt", "u": u, "v": val(v)}, ("datetime" if u[0] == "d" else "timedelta", v)
    raise AssertionError(k)


HIGH = {k: k for k in ("null", "boolean", "integer", "real", "complex", "string", "bytestring", "datetime", "timedelta", "index", "field")}
HIGH.update(beginlist="begin_list", endlist="end_list", begintuple="begin_tuple", endtuple="end_tuple", beginrecord="begin_record", endrecord="end_record")
ALL = ["null", "bool", "int", "real", "cplx", "str", "bytes", "dt", "list", "tup", "rec"]


def session(rng, n, snap, clear=False, app=False, wrong=0.02):
    g = G(rng)
    g.units = units(rng)
    r = rng
    wide = 0 if app else r.choice([0, 0, 0, 0, 1, 2])
    kinds = r.sample(ALL, r.randint(1, 4))
    if g.ch(0.3):
        kinds = ["int", "list", "null"]
    if g.ch(0.1):
        kinds = ["rec", "int", "null", "real"]
    if wide == 2:
        kinds = [k for k in kinds if k not in ("real", "cplx")] or ["int"]
    if wide == 1:
        kinds = [k for k in kinds if k != "cplx"] or ["int", "real"]
    if app:
        kinds = [k for k in kinds if k not in ("cplx", "rec", "tup", "dt")] + ["app"]
    scalars = [k for k in kinds if k not in ("list", "tup", "rec")] or ["int"]
    names = r.choice([[""], [""], ["", "P"], ["P", "Q"]])
    keys = r.sample(r.choice(KEYS), r.randint(1, 4))
    widths = r.choice([[2], [1], [1, 3], [0, 2], [2, 3]])
    b = ak.layout.ArrayBuilder(initial=r.choice([0, 1, 2, 3, 8, 1024]), resize=r.choice([1.5, 2.0, 1.1]))
    hl = ak.ArrayBuilder._wrap(b)
    pool = []
    if app:
        for _ in range(2):
            gg = G(rng, p_rec=0, p_un=0, dtypes=["int64", "float64", "bool"])
            T, vals, lay = gg.array(n=rng.randint(1, 4))
            pool.append((lay, [val(x) for x in vals]))
    stack, cmds, snaps = [], [], []

    high = g.ch(0.5)

    def do(x, name, *args):
        try:
            if high and name in HIGH:
                getattr(hl, HIGH[name])(*args)
            elif high and name == "append":
                hl.append(ak.Array(args[0]), args[1])
            else:
                getattr(b, name)(*args)
            x["err"] = False
        except Exception as e:
            x["err"] = True
        cmds.append(x)
        return not x["err"]

    def scalar_cmd():
        k = r.choice(scalars)
        if k == "app":
            lay, vs = r.choice(pool)
            if g.ch(0.2):
                for v in vs:
                    cmds.append({"k": "app", "v": v, "err": False})
                b.extend(lay)
                return
            j = r.randrange(len(vs))
            return do({"k": "app", "v": vs[j]}, "append", lay, j - (len(vs) if g.ch(0.3) else 0))
        x, call = scalar(g, [k], wide, "cplx" in kinds)
        return do(x, *call)

    for _ in range(n):
        if snap and g.ch(snap):
            s = b.snapshot()
            cmds.append({"k": "snap", "n": dump(s)})
            snaps.append(s)
        if snaps and g.ch(0.1):
            j = r.randrange(len(snaps))
            cmds.append({"k": "again", "i": j + 1, "n": dump(snaps[j])})
        if g.ch(0.1):
            cmds.append({"k": "len", "n": len(b)})
        if clear and not stack and g.ch(0.05):
            do({"k": "clear"}, "clear")
            continue
        if g.ch(wrong):
            which = r.choice(["endlist", "endtup", "endrec", "field", "index", "scalar"])
            if which == "endlist" and (not stack or stack[-1][0] != "list"): do({"k": "endlist"}, "endlist")
            elif which == "endtup" and (not stack or stack[-1][0] != "tup"): do({"k": "endtup"}, "endtuple")
            elif which == "endrec" and (not stack or stack[-1][0] != "rec"): do({"k": "endrec"}, "endrecord")
            elif which == "field" and (not stack or stack[-1][0] != "rec"): do({"k": "field", "f": "x"}, "field", "x")
            elif which == "index" and (not stack or stack[-1][0] != "tup"): do({"k": "index", "n": 0}, "index", 0)
            elif which == "index": do({"k": "index", "n": stack[-1][1]}, "index", stack[-1][1])
            elif which == "scalar" and stack and stack[-1][0] != "list" and not stack[-1][3]: scalar_cmd()
            continue
        if stack and g.ch(0.25 if len(stack) < 4 else 0.7):
            f = stack[-1]
            if f[0] == "list":
                do({"k": "endlist"}, "endlist"); stack.pop()
            elif f[0] == "tup":
                if not do({"k": "endtup"}, "endtuple"): break
                stack.pop()
            else:
                if not do({"k": "endrec"}, "endrecord"): break
                stack.pop()
            continue
        if stack and stack[-1][0] == "tup":
            left = [j for j in range(stack[-1][1]) if j not in stack[-1][2]]
            if not left and not g.ch(0.02):
                do({"k": "endtup"}, "endtuple"); stack.pop(); continue
            j = r.choice(left) if left else 0
            if left and g.ch(0.7): j = left[0]
            stack[-1][2].add(j); stack[-1][3] = True
            do({"k": "index", "n": j}, "index", j)
        elif stack and stack[-1][0] == "rec":
            left = [j for j in keys if j not in stack[-1][2]]
            if not left and not g.ch(0.02):
                do({"k": "endrec"}, "endrecord"); stack.pop(); continue
            j = r.choice(left) if left else keys[0]
            if left and g.ch(0.7): j = left[0]
            stack[-1][2].add(j); stack[-1][3] = True
            do({"k": "field", "f": j}, "field", j)
        k = r.choice(kinds)
        if k == "list":
            do({"k": "list"}, "beginlist"); stack.append(["list", 0, None, True])
        elif k == "tup":
            w = r.choice(widths)
            do({"k": "tup", "n": w}, "begintuple", w); stack.append(["tup", w, set(), False])
        elif k == "rec":
            nm = r.choice(names)
            do({"k": "rec", "name": nm}, "beginrecord", nm or None); stack.append(["rec", nm, set(), False])
        else:
            scalar_cmd()
    cmds.append({"k": "snap", "n": dump(b.snapshot())})
    for j, s in enumerate(snaps):
        cmds.append({"k": "again", "i": j + 1, "n": dump(s)})
    return {"op": "session", "cmds": cmds}


def commands(v):
    """The commands that from_iter issues for one Python value."""
    if v is None: return [{"k": "null", "err": False}]
    if isinstance(v, (np.datetime64, np.timedelta64)): return [{"k": "dt", "u": str(v.dtype), "v": val(v), "err": False}]
    if isinstance(v, (bool, np.bool_)): return [{"k": "bool", "v": val(bool(v)), "err": False}]
    if isinstance(v, (int, np.integer)): return [{"k": "int", "v": val(int(v)), "err": False}]
    if isinstance(v, (float, np.floating)): return [{"k": "real", "v": val(float(v)), "err": False}]
    if isinstance(v, complex): return [{"k": "cplx", "v": val(v), "err": False}]
    if isinstance(v, bytes): return [{"k": "bytes", "v": val(v), "err": False}]
    if isinstance(v, str): return [{"k": "str", "v": val(v), "err": False}]
    if isinstance(v, tuple):
        out = [{"k": "tup", "n": len(v), "err": False}]
        for i, x in enumerate(v):
            out += [{"k": "index", "n": i, "err": False}] + commands(x)
        return out + [{"k": "endtup", "err": False}]
    if isinstance(v, dict):
        out = [{"k": "rec", "name": "", "err": False}]
        for f, x in v.items():
            out += [{"k": "field", "f": f, "err": False}] + commands(x)
        return out + [{"k": "endrec", "err": False}]
    if isinstance(v, (list, np.ndarray)):
        out = [{"k": "list", "err": False}]
        for x in v: out += commands(x)
        return out + [{"k": "endlist", "err": False}]
    raise TypeError(type(v))


def pyval(g, kinds, depth, np_ok=True):
    r = g.r
    k = r.choice(kinds if depth else [x for x in kinds if x not in ("list", "tup", "rec")] or ["int"])
    if k == "list":
        if np_ok and g.ch(0.1): return np.array([r.randint(0, 5) for _ in range(r.randint(0, 3))], r.choice(["i8", "i4", "f8", "?"]))
        return [pyval(g, kinds, depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]
    if k == "tup": return tuple(pyval(g, kinds, depth - 1) for _ in range(r.choice([2, 2, 1, 0, 3]) if g.ch(0.3) else 2))
    if k == "rec":
        ks = list(g.keys)
        if g.ch(0.3): r.shuffle(ks)
        return {f: pyval(g, kinds, depth - 1) for f in ks[:r.choice([2, 2, 1, 3])]}
    if k == "null": return None
    if k == "bool": return np.bool_(g.ch(0.5)) if np_ok and g.ch(0.1) else g.ch(0.5)
    if k == "int" and g.big and g.ch(0.3): return r.choice(g.big)
    if k == "int": return np.int32(r.randint(-5, 9)) if np_ok and g.ch(0.1) else r.randint(-5, 9)
    if k == "real": return np.float32(r.randint(-5, 9)) if np_ok and g.ch(0.1) else r.choice([0.5, -1.5, 2.0, 3.0])
    if k == "cplx": return complex(r.randint(-3, 3), r.randint(-3, 3))
    if k == "str": return "".join(r.choice("ab\u00e9\u20ac") for _ in range(r.choice([0, 1, 2])))
    if k == "bytes": return bytes(r.choice([97, 98, 0, 255]) for _ in range(r.choice([0, 1, 2])))
    if k == "dt": return np.array(r.randint(-9, 9), "i8").view(r.choice(g.units))[()]


def from_iter(rng):
    g = G(rng)
    g.units = units(rng)
    g.keys = rng.choice(KEYS)
    g.big = rng.choice([[], [], BIG, EXACT])
    kinds = rng.sample(ALL, rng.randint(1, 5))
    if g.big == EXACT:
        kinds = [k for k in kinds if k != "cplx"] or ["int", "real"]
    v = [pyval(g, kinds, rng.randint(0, 3)) for _ in range(rng.randint(0, 6))]
    cmds = []
    for x in v: cmds += commands(x)
    a = ak.from_iter(v, highlevel=False, initial=rng.choice([1, 2, 1024]))
    cmds.append({"k": "snap", "n": dump(a)})
    return {"op": "from_iter", "cmds": cmds}


CALL = {"null": "null", "bool": "boolean", "int": "integer", "real": "real", "cplx": "complex", "str": "string",
        "bytes": "bytestring", "list": "beginlist", "endlist": "endlist", "tup": "begintuple", "index": "index",
        "endtup": "endtuple", "rec": "beginrecord", "field": "field", "endrec": "endrecord", "clear": "clear"}


def pyarg(x):
    if x["k"] in ("tup", "index"):
        return [x["n"]]
    if x["k"] == "rec":
        return [x["name"] or None]
    if x["k"] == "field":
        return [x["f"]]
    if "v" not in x:
        return []
    v = x["v"]
    if x["k"] == "bool":
        return [v[1]]
    if x["k"] == "int":
        return [v[1] // 2]
    if x["k"] == "real":
        return [v[1] / 2]
    if x["k"] == "cplx":
        return [complex(v[1] / 2, v[2] / 2)]
    b = bytes(v[1])
    return [b.decode("utf-8") if x["k"] == "str" else b]


def replay(beh):
    """A behaviour of MC_Builder: its commands, a snapshot after each of them, and every snapshot once more at the end."""
    b = ak.layout.ArrayBuilder(initial=1 + len(beh) % 2, resize=1.5)
    cmds, snaps = [], []
    for x in beh:
        x = dict(x)
        try:
            getattr(b, CALL[x["k"]])(*pyarg(x))
            x["err"] = False
        except Exception:
            x["err"] = True
        cmds.append(x)
        cmds.append({"k": "len", "n": len(b)})
        s = b.snapshot()
        cmds.append({"k": "snap", "n": dump(s)})
        snaps.append(s)
    for j, s in enumerate(snaps):
        cmds.append({"k": "again", "i": j + 1, "n": dump(s)})
    return {"op": "behaviour", "cmds": cmds}
