"""Runs the cases  start, start+stride, ...  of one property and writes one ndjson event per case.

Every case is a function of (property, seed, case number) only.  The case number about to run is
written to a progress file first, so that the parent can attribute a crash or a hang.
"""
import importlib, json, os, random, sys, traceback, warnings

warnings.filterwarnings("ignore")


def load(prop):
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    return importlib.import_module("props." + prop.lower())


BEH0 = 10**8    # cases from here on are behaviours of the specification, one per line of the file $VERIF_BEH
BEH = None


def behaviours():
    global BEH
    if BEH is None:
        path = os.environ.get("VERIF_BEH")
        BEH = open(path).read().splitlines() if path else []
    return BEH


def one(mod, prop, seed, i, extra=None):
    if i >= BEH0:
        return mod.replay(json.loads(behaviours()[i - BEH0]))
    rng = random.Random("%s:%d:%d" % (prop, seed, i))
    ev = mod.case(rng, i) if extra is None else mod.case(rng, i, extra)
    return ev


def main():
    prop, seed, start, stop, stride, out = sys.argv[1], *map(int, sys.argv[2:6]), sys.argv[6]
    only = [int(x) for x in sys.argv[7].split(",")] if len(sys.argv) > 7 else None
    mod = load(prop)
    prog = open(out + ".progress", "w")
    with open(out, "a") as f:
        k = start % stride
        ids = list(range(k, stop, stride)) + [BEH0 + j for j in range(k, len(behaviours()), stride)]
        for i in (only if only is not None else [x for x in ids if x >= start]):
            prog.seek(0); prog.write("%d " % i); prog.flush()
            try:
                evs = one(mod, prop, seed, i)
            except Exception:
                evs = {"op": "_driver", "err": traceback.format_exc()[-1500:]}
            if evs is None:
                continue
            if isinstance(evs, dict):
                evs = [evs]
            for ev in evs:
                ev["id"] = i
                f.write(json.dumps(ev, allow_nan=False) + "\n")
            f.flush()
        f.write('{"op":"_end","id":-1}\n')
    prog.seek(0); prog.write("done           "); prog.close()


if __name__ == "__main__":
    main()
