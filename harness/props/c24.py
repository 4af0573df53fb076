"""When lazy arrays are generated: sessions with virtual columns, tables of them, and lazily read buffers."""
import collections.abc, copy, gc, json, pickle, weakref
import numpy as np
import awkward as ak
from project import dump, result, val


class Map(dict):
    """a cache that can be referred to weakly"""


class Container(collections.abc.Mapping):
    """buffers that count how often they are read"""

    def __init__(self, d):
        self.d, self.n = d, {k: 0 for k in d}

    def __getitem__(self, k):
        self.n[k] += 1
        return self.d[k]

    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)


class Session(object):
    def __init__(self, cols, forms, cached, source, pick=lambda k: 0):
        """cols: arrays of one length; source: "virtual" (one handle per column), "nested" or "buffers" (one table)"""
        self.cols, self.source, self.pick = cols, source, pick
        n = len(cols[0])
        names = ["c%d" % (i + 1) for i in range(len(cols))]
        self.roots = [{"a": dump(x), "form": bool(f), "cached": bool(k)} for x, f, k in zip(cols, forms, cached)]
        self.maps, self.keys = [None] * len(cols), [None] * len(cols)
        if source == "virtual":
            self.count = [0] * len(cols)
            shared = Map()
            self.hs, self.sh, self.init = [], [], []
            for i, x in enumerate(cols):
                m = None
                if cached[i]:
                    m = shared if pick(2) else Map()
                    self.maps[i], self.keys[i] = weakref.ref(m), "key%d" % i
                def gen(i=i, x=x):
                    self.count[i] += 1
                    return x if i % 2 else x.layout
                self.hs.append(ak.virtual(gen, length=n, form=x.layout.form if forms[i] else None, cache=m, cache_key="key%d" % i))
                self.sh.append(["col", [], list(range(n))])
                self.init.append({"kind": "col", "names": [], "src": [i + 1], "rows": list(range(n))})
            del m, shared
        else:
            tab = ak.zip(dict(zip(names, cols)), depth_limit=1)
            form, length, cont = ak.to_buffers(tab)
            self.cont = Container(cont)
            f = json.loads(form.tojson())

            def under(q):
                return [q["form_key"]] + (under(q["content"]) if "content" in q else [])
            self.nodes = [under(f["contents"][k]) for k in names]
            m = Map() if cached[0] else None
            a = ak.from_buffers(form, length, self.cont, lazy=True, lazy_cache=m)
            if m is not None:
                self.maps = [weakref.ref(m)] * len(cols)
            del m
            self.hs, self.sh = [a], [["tab", names, list(range(n))]]
            self.init = [{"kind": "tab", "names": names, "src": list(range(1, len(cols) + 1)), "rows": list(range(n))}]
        self.cmds = []

    def calls(self):
        if self.source == "virtual":
            return list(self.count)
        return [max(v for k, v in self.cont.n.items() if any(("-%s-" % f) in k for f in fs)) for fs in self.nodes]

    def add(self, h, kind, names, rows):
        self.hs.append(h)
        self.sh.append([kind, names, rows])

    def do(self, c):
        c = dict(c)
        k = c["c"]
        out = None
        if k == "forget":
            for r in c["rs"]:
                m = self.maps[r - 1] and self.maps[r - 1]()
                if m is not None:
                    m.pop(self.keys[r - 1], None)
        elif k == "drop":
            self.hs[c["h"] - 1] = None
            if self.pick(4) == 0: gc.collect()
        else:
            h, (kind, names, rows) = self.hs[c["h"] - 1], self.sh[c["h"] - 1]
            p = self.pick(4)
            if k == "len":
                out = result(len(h))
            elif k == "fields":
                out = ak.fields(h) if p % 2 else list(h.fields)
            elif k == "type":
                t = str(ak.type(h)); out = {"k": "val", "v": ["none"]}
            elif k == "read":
                if p == 0: out = {"k": "val", "v": val(ak.to_list(h))}
                elif p == 1 and kind != "one": out = result(ak.materialized(h))
                elif p == 2: out = result(pickle.loads(pickle.dumps(h)))
                else: out = {"k": "val", "v": val(h.tolist())}
            elif k == "field":
                x = h[c["name"]] if p % 2 else getattr(h, c["name"])
                if kind == "one": out = {"k": "val", "v": val(ak.to_list(x) if isinstance(x, ak.Array) else x)}
                else: self.add(x, "col", [], rows)
            elif k == "pick":
                self.add(h[c["names"]], kind, c["names"], rows)
            elif k == "range":
                a, b = c["a"], c["b"]
                s = slice(a, b) if p else slice(a - len(rows) if a < len(rows) else a, b)
                self.add(h[s], kind, names, rows[a:b])
            elif k == "carry":
                at = c["at"]
                if p == 0 and at == sorted(set(at)):
                    ix = np.array([i in at for i in range(len(rows))], bool)
                else:
                    ix = np.array(at, np.int64)
                self.add(h[ix if p < 2 else ak.Array(ix)], kind, names, [rows[i] for i in at])
            elif k == "at":
                i = c["i"] if p % 2 else c["i"] - len(rows)
                x = h[i]
                if kind == "col": out = {"k": "val", "v": val(ak.to_list(x) if isinstance(x, ak.Array) else x)}
                else: self.add(x, "one", names, [rows[c["i"]]])
            elif k == "zip":
                g = self.hs[c["g"] - 1]
                self.add(ak.zip(dict(zip(c["names"], [h, g])), depth_limit=1), "tab", c["names"], rows)
            elif k in ("withf", "setf"):
                g = self.hs[c["g"] - 1]
                nm = [q for q in names if q != c["name"]] + [c["name"]]
                if k == "withf":
                    self.add(ak.with_field(h, g, c["name"]), "tab", nm, rows)
                else:
                    h[c["name"]] = g
                    self.sh[c["h"] - 1] = ["tab", nm, rows]
        c["calls"] = self.calls()
        if out is not None:
            c["out"] = out
        self.cmds.append(c)

    def event(self, op):
        return {"op": op, "roots": self.roots, "hs": self.init, "cmds": self.cmds}


def column(r, n):
    k = r.choice(["flat", "flat", "jag", "str", "opt"])
    x = [r.randint(-3, 9) for _ in range(n)]
    if k == "flat":
        return ak.Array(np.array(x, r.choice([np.int64, np.int16, np.float64])))
    if k == "jag":
        c = [r.randint(0, 3) for _ in range(n)]
        return ak.Array(ak.layout.ListOffsetArray64(ak.layout.Index64(np.cumsum([0] + c)), ak.layout.NumpyArray(np.arange(sum(c)) * 3)))
    if k == "str":
        o = np.cumsum([0] + [len("s%d" % i) for i in x])
        ch = ak.layout.NumpyArray(np.frombuffer("".join("s%d" % i for i in x).encode(), np.uint8) if n else np.zeros(0, np.uint8), parameters={"__array__": "char"})
        return ak.Array(ak.layout.ListOffsetArray64(ak.layout.Index64(o), ch, parameters={"__array__": "string"}))
    return ak.Array(ak.layout.IndexedOptionArray64(ak.layout.Index64(np.array([i if i > 0 else -1 for i in range(n)], np.int64)), ak.layout.NumpyArray(np.array(x))))


def case(rng, i):
    r = rng
    n, k = r.choice([0, 1, 3, 4, 5, 5]), r.randint(1, 3)
    cols = [column(r, n) for _ in range(k)]
    source = r.choice(["virtual", "virtual", "buffers"])
    if source == "virtual":
        forms, cached = [r.random() < 0.8 for _ in cols], [r.random() < 0.85 for _ in cols]
    else:
        forms, cached = [True] * k, [r.random() < 0.85] * k
    s = Session(cols, forms, cached, source, lambda q: r.randrange(q))
    for _ in range(r.randint(2, 12)):
        live = [j for j, h in enumerate(s.hs) if h is not None]
        if not live:
            break
        j = r.choice(live)
        kind, names, rows = s.sh[j]
        m = len(rows)
        q = r.random()
        if q < 0.07 and source == "virtual": c = {"c": "forget", "rs": [r.randint(1, k)]}
        elif q < 0.17: c = {"c": "drop", "h": j + 1}
        elif q < 0.32: c = {"c": "read", "h": j + 1}
        elif kind == "one":
            c = {"c": "field", "h": j + 1, "name": r.choice(names)} if names else {"c": "fields", "h": j + 1}
        elif q < 0.36: c = {"c": "len", "h": j + 1}
        elif q < 0.40: c = {"c": "type", "h": j + 1}
        elif q < 0.52: c = {"c": "range", "h": j + 1, "a": r.randint(0, m), "b": r.randint(0, m + 1)}
        elif q < 0.62: c = {"c": "carry", "h": j + 1, "at": [r.randrange(m) for _ in range(r.randint(0, 4))] if m else []}
        elif q < 0.68 and m: c = {"c": "at", "h": j + 1, "i": r.randrange(m)}
        elif kind == "tab" and q < 0.85:
            if r.random() < 0.6: c = {"c": "field", "h": j + 1, "name": r.choice(names)}
            elif r.random() < 0.2: c = {"c": "fields", "h": j + 1}
            else: c = {"c": "pick", "h": j + 1, "names": r.sample(names, r.randint(1, len(names)))}
        else:
            g = [x for x in live if s.sh[x][0] == "col" and s.sh[x][2] == rows]
            if not g:
                continue
            if kind == "col": c = {"c": "zip", "h": j + 1, "g": r.choice(g) + 1, "names": ["p", "q"]}
            else: c = {"c": r.choice(["withf", "setf"]), "h": j + 1, "g": r.choice(g) + 1, "name": r.choice(["p", "z"] + names)}
        s.do(c)
    return s.event(source)


def replay(beh):
    """A behaviour of MC_Lazy: its two columns, its commands."""
    L = ak.layout
    cols = [ak.Array(np.array([1, 2, 3])), ak.Array(L.ListOffsetArray64(L.Index64(np.array([0, 2, 2, 3])), L.NumpyArray(np.array([4, 5, 6]))))]
    n = [len(json.dumps(beh["h"]))]

    def pick(k):
        n[0] = (n[0] * 1103515245 + 12345) % (1 << 31)
        return (n[0] >> 8) % k
    s = Session(cols, [True, beh["form"]], [True, beh["cached"]], "virtual", pick)
    for c in beh["h"]:
        s.do(c)
    return s.event("behaviour")
