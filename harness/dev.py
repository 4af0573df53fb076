"""Development aid: run cases and print rejected events compactly.  dev.py PROP N [SEED] [SHOW]"""
import json, os, re, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B, check as C, tlc, importlib


def pv(v):
    t = v[0]
    if t == "none": return "None"
    if t == "b": return "T" if v[1] else "F"
    if t == "n": return "%g" % (v[1] / 2)
    if t == "l": return "[" + ", ".join(map(pv, v[1])) + "]"
    if t == "t": return "(" + ", ".join(map(pv, v[1])) + ")"
    if t == "r": return "{" + ", ".join(k + ":" + pv(x) for k, x in zip(v[1], v[2])) + "}"
    if t == "s": return repr(bytes(v[1]).decode())
    if t == "y": return repr(bytes(v[1]))
    return str(v)


def den(nd):
    c = nd["c"]
    if c == "np":
        flat = nd.get("v") or [["b", bool(x)] if nd["dt"] == "bool" else ["n", x] for x in nd["d"]]
        def nest(f, sh):
            if len(sh) <= 1: return f
            w = 1
            for s in sh[1:]: w *= s
            return [["l", nest(f[i * w:(i + 1) * w], sh[1:])] for i in range(sh[0])]
        return nest(flat, nd["sh"])
    if c == "em": return []
    def al(vs):
        a = nd.get("a")
        return ["s" if a == "string" else "y", [v[1] // 2 for v in vs]] if a in ("string", "bytestring") else ["l", vs]
    if c in ("lo", "l", "reg"):
        xs = den(nd["x"])
        if c == "lo": return [al(xs[a:b]) for a, b in zip(nd["o"], nd["o"][1:])]
        if c == "l": return [al(xs[a:b]) for a, b in zip(nd["s"], nd["e"])]
        return [al(xs[i * nd["n"]:(i + 1) * nd["n"]]) for i in range(nd["len"])]
    if c in ("ix", "io"):
        xs = den(nd["x"]); return [xs[i] if i >= 0 else ["none"] for i in nd["i"]]
    if c == "bm":
        xs = den(nd["x"]); return [x if bool(m) == nd["vw"] else ["none"] for m, x in zip(nd["m"], xs)]
    if c == "bit":
        xs = den(nd["x"])
        return [xs[i] if bool((nd["m"][i // 8] >> (i % 8 if nd["lsb"] else 7 - i % 8)) & 1) == nd["vw"] else ["none"] for i in range(nd["len"])]
    if c == "um": return den(nd["x"])
    if c == "rec":
        xs = [den(x) for x in nd["xs"]]
        return [["t", [x[i] for x in xs]] if nd["tup"] else ["r", nd["k"], [x[i] for x in xs]] for i in range(nd["len"])]
    if c == "un":
        xs = [den(x) for x in nd["xs"]]
        return [xs[t][i] for t, i in zip(nd["t"], nd["i"])]
    if c == "part":
        return [y for x in nd["xs"] for y in den(x)]


def ph(nd):
    c = nd["c"]
    p = "<%s>" % nd["a"] if "a" in nd else ""
    if c == "np": return nd["dt"] + (str(nd["sh"][1:]) if len(nd["sh"]) > 1 else "")
    if "x" in nd: return c + (str(nd["n"]) if c == "reg" else "") + p + "(" + ph(nd["x"]) + ")"
    if "xs" in nd: return c + "(" + ",".join(map(ph, nd["xs"])) + ")"
    return c


def show(x):
    if isinstance(x, dict):
        if "c" in x:
            try: return ph(x) + "  " + pv(["l", den(x)])
            except Exception as e: return "UNDENOTABLE " + json.dumps(x)[:400]
        if x.get("k") == "arr" and "n" in x: return "arr " + show(x["n"])
        if x.get("k") == "row": return "row " + show(x["n"]) + "@%d" % x["at"]
        if x.get("k") == "val" and "v" in x: return "val " + pv(x["v"])
        if x.get("k") == "jag": return "jag " + pv(x["v"])
        return json.dumps(x)
    if isinstance(x, list) and x and isinstance(x[0], str) and x[0] in ("l", "n", "none", "r", "t"):
        try: return pv(x)
        except Exception: pass
    if isinstance(x, list) and x and isinstance(x[0], dict): return " | ".join(map(show, x))
    return json.dumps(x)


def want(s):
    try:
        t = json.loads(s) if s.startswith('"') else s
        t = t.replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
        return pv(json.loads(t))
    except Exception:
        return s


def main():
    prop, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    sh = int(sys.argv[4]) if len(sys.argv) > 4 else 12
    pkg = B.build()
    scratch = tempfile.mkdtemp(prefix="dev-", dir="/tmp")
    conf = importlib.import_module("conf")
    mod = dict(conf.CONF, **conf.DEV)[prop]
    evs, deaths = C.record(pkg, prop, seed, n, scratch)
    print("deaths", deaths[:5])
    bad, st = C.validate(mod, evs, scratch)
    import collections
    print(len(evs), "events", len(bad), "rejected", dict(collections.Counter(e["op"] for e in evs)))
    print("ids", *[e["id"] for e, _ in bad])
    print("rejected by op", dict(collections.Counter(e["op"] for e, _ in bad)))
    for e, w in sorted(bad, key=lambda x: len(json.dumps(x[0])))[:sh]:
        print("--", e["id"])
        for k, v in e.items():
            if k not in ("id", "idx"):
                print("   %-5s %s" % (k, (v[-300:] if k == "err" else show(v))[:int(os.environ.get("W", "300"))]))
        print("   WANT ", want(w)[:300])
    shutil.rmtree(scratch)


if __name__ == "__main__":
    main()
