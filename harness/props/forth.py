"""Random AwkwardForth programs and sessions."""
import mmap, random, re, tempfile
import numpy as np
import awkward as ak
from awkward.forth import ForthMachine32, ForthMachine64

BIN = ["+", "-", "*", "/", "mod", "/mod", "min", "max", "=", "<>", ">", ">=", "<", "<=", "and", "or", "xor", "lshift", "rshift"]
UN = ["negate", "1+", "1-", "abs", "0=", "invert"]
EFFECT = {"dup": (1, 2), "drop": (1, 0), "swap": (2, 2), "over": (2, 3), "rot": (3, 3), "nip": (2, 1), "tuck": (2, 3),
          "false": (0, 1), "true": (0, 1), "i": (0, 1), "j": (0, 1), "k": (0, 1), "/mod": (2, 2)}
for w in BIN:
    EFFECT.setdefault(w, (2, 1))
for w in UN:
    EFFECT.setdefault(w, (1, 1))
DTS = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]
FMT = {"?": 1, "b": 1, "h": 2, "i": 4, "q": 8, "n": 8, "B": 1, "H": 2, "I": 4, "Q": 8, "N": 8, "f": 4, "d": 8}


def item(x):
    x = int(x)
    if -(1 << 30) <= x < (1 << 30):
        return ["n", x]
    return ["B", list((x & 0xffffffffffffffff).to_bytes(8, "little"))]


def outitem(x, dt):
    if dt.startswith("float"):
        y = float(x) * 2
        if y != y or y in (float("inf"), float("-inf")) or y != int(y) or abs(y) >= (1 << 30) or (y == 0 and np.signbit(x)):
            return ["f", repr(float(x))]
        return ["f", int(y)]
    x = int(x)
    if dt == "uint64" and x >= 1 << 63:
        x -= 1 << 64
    return item(x)


class Gen(object):
    def __init__(self, r, io, nwords, nvars, nin, dts, big):
        self.r, self.io, self.nvars, self.nin, self.dts, self.big = r, io, nvars, nin, dts, big
        self.nwords = nwords
        self.word = None        # index of the word being defined; earlier ones can be called
        self.budget = 0
        self.written = set()      # outputs that a program text has probably written before

    def lit(self, lo=-4, hi=9):
        r = self.r
        if self.big and r.random() < 0.1:
            return r.choice([2147483647, -2147483648, 1073741824, -1073741825, 2000000000])
        return r.randint(lo, hi)

    def fuel(self):
        return [["get", 1], ["op", "1-"], ["op", "dup"], ["put", 1], ["lit", ["n", 0]], ["op", "<"], ["if", [["halt"]]]]

    def body(self, d, loops, n, depth):
        """instructions, with an estimate of the stack depth they start from; returns (code, depth after)"""
        r, code = self.r, []
        for _ in range(r.randint(0 if depth else 1, n)):
            if self.budget <= 0:
                break
            self.budget -= 1
            ins, d = self.ins(d, loops, depth)
            code += ins
        return code, d

    def balanced(self, d, loops, depth, want):
        code, d2 = self.body(d, loops, 5, depth)
        while d2 < want:
            code.append(["lit", item(self.lit())])
            d2 += 1
        while d2 > want and self.r.random() < 0.8:
            code.append(["op", "drop"])
            d2 -= 1
        return code, d2

    def ins(self, d, loops, depth):
        r = self.r
        c = r.random()
        if self.io and c < 0.55:
            return self.ioins(d)
        c = r.random()
        if c < 0.3 and depth < 4:
            return self.control(d, loops, depth)
        if c < 0.38:
            v = r.randint(1, self.nvars)
            k = r.choice(["put", "inc", "get"])
            if v == 1:
                k = "get"
            if k == "get":
                return [["get", v]], d + 1
            if d < 1 and r.random() < 0.97:
                return [["lit", item(self.lit())], [k, v]], d
            return [[k, v]], max(d - 1, 0)
        if c < 0.44:
            calls = list(range(1, (self.word or self.nwords + 1)))
            if self.word and r.random() < 0.4:
                calls = [self.word]
            if calls:
                return [["call", r.choice(calls)]], max(d, 0)
        if c < 0.455 and depth:
            return [["exit"]], d
        if c < 0.46:
            return [["halt"]], d
        if c < 0.50:
            return [["pause"]], d
        if c < 0.62 or d < 1:
            return [["lit", item(self.lit())]], d + 1
        ops = [w for w in EFFECT if w not in ("i", "j", "k")]
        ops += ["i", "j", "k"][:loops] * 3
        for _ in range(20):
            w = r.choice(ops)
            if EFFECT[w][0] <= d or r.random() < 0.01:
                break
        else:
            w = "true"
        return [["op", w]], max(0, d - EFFECT[w][0] + EFFECT[w][1])

    def control(self, d, loops, depth):
        r = self.r
        k = r.choice(["if", "if", "ifelse", "ifelse", "do", "do", "do", "plus", "until", "while", "again"])
        pre = []
        if k in ("if", "ifelse"):
            if d < 1 or r.random() < 0.5:
                pre, d = [["lit", item(r.choice([0, -1, 1, 3]))]], d + 1
            elif r.random() < 0.4:
                pre = [["op", r.choice(["0=", "dup"])]]
                d += 1 if pre[0][1] == "dup" else 0
            d -= 1
            a, da = self.balanced(d, loops, depth + 1, d) if r.random() < 0.6 else self.body(d, loops, 4, depth + 1)
            if k == "if":
                return pre + [["if", a]], min(d, da)
            b, db = self.balanced(d, loops, depth + 1, da) if r.random() < 0.6 else self.body(d, loops, 4, depth + 1)
            return pre + [["ifelse", a, b]], min(da, db)
        if k in ("do", "plus"):
            lo = r.randint(-2, 3)
            hi = lo + r.choice([0, 1, 2, 2, 3, 3, 4, -1])
            pre = [["lit", item(hi)], ["lit", item(lo)]]
            if self.big and r.random() < 0.3:
                # a loop around a number that needs more than 32 bits
                pre = [["lit", ["n", 65536]], ["lit", ["n", 65536]], ["op", "*"], ["op", "dup"], ["lit", item(hi)], ["op", "+"],
                       ["op", "swap"], ["lit", item(lo)], ["op", "+"]]
                pre = [["get", 2], ["lit", item(hi)], ["op", "+"], ["get", 2], ["lit", item(lo)], ["op", "+"]]
            a, da = self.balanced(d, loops + 1, depth + 1, d)
            if k == "plus":
                a = a + [["lit", item(r.choice([1, 1, 2, 3]))]]
                if r.random() < 0.15:
                    a += [["op", "i"], ["op", "drop"]]
            return pre + [[k, a]], min(d, da)
        a, da = self.balanced(d, loops, depth + 1, d)
        f = self.fuel()
        v = r.randint(2, self.nvars)
        if k == "until":
            t = r.choice([[["lit", item(-1)]], [["get", v], ["lit", item(1)], ["inc", v], ["lit", item(2)], ["op", ">"]],
                          [["get", 1], ["lit", item(r.randint(5, 30))], ["op", "<"]]])
            return [["until", f + a + t]], min(d, da)
        if k == "again":
            return [["again", f + a + [["get", 1], ["lit", item(r.randint(5, 40))], ["op", "<"], ["if", [r.choice([["exit"], ["exit"], ["pause"], ["halt"]])]]]]], min(d, da)
        b, db = self.balanced(da, loops, depth + 1, d)
        t = r.choice([[["lit", item(0)]], [["get", 1], ["lit", item(r.randint(5, 40))], ["op", ">"]],
                      [["get", v], ["lit", item(1)], ["inc", v], ["lit", item(3)], ["op", "<"]]])
        return [["while", f + a + t, b]], min(d, db)

    def ioins(self, d):
        r = self.r
        c = r.random()
        if c < 0.5 and self.nin:
            n = r.randint(1, self.nin)
            f = r.choice(list(FMT) + ["varint", "zigzag", "bit", "bit", "i", "h", "B"])
            rep = r.random() < 0.4
            out = r.randint(1, len(self.dts)) if self.dts and r.random() < 0.6 else 0
            big = r.random() < 0.35 and f not in ("varint", "zigzag")
            nb = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 20, 24, 30, 31, 32, 33, 40, 48, 56]) if f == "bit" else 0
            pre = []
            k = 1
            if out:
                self.written.add(out)
            if rep:
                k = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 9])
                pre = [["lit", item(k)]]
            return pre + [["read", n, {"f": f, "big": big, "rep": rep, "nb": nb, "out": out}]], d + (k if not out else 0)
        if c < 0.62 and self.nin:
            n, w = r.randint(1, self.nin), r.choice(["len", "pos", "end", "seek", "skip"])
            if w in ("seek", "skip"):
                x = r.randint(0, 12) if w == "seek" else r.choice([-2, -1, 0, 1, 2, 4, 7])
                return [["lit", item(x)], ["in", w, n]], d
            return [["in", w, n]], d + 1
        if self.dts:
            o, w = r.randint(1, len(self.dts)), r.choice(["<-", "<-", "+<-", "+<-", "dup", "dup", "rewind", "len"])
            if w in ("dup", "rewind") and o not in self.written and r.random() < 0.95:
                w = "<-"
            self.written.add(o)
            if w == "len":
                return [["out", w, o]], d + 1
            if w in ("dup", "rewind"):
                return [["lit", item(r.choice([0, 1, 2, 3, 5, 9] if w == "dup" else [0, 1, 1, 1, 2]))], ["out", w, o]], d
            if d < 1:
                return [["lit", item(self.lit(-300, 300))], ["out", w, o]], d
            return [["out", w, o]], d - 1
        return [["lit", item(self.lit())]], d + 1


def source(r, words, main, nvars, nin, dts, nested):
    """the program as text; names in a fixed scheme"""
    out = []

    def ws():
        c = r.random()
        return " " if c < 0.9 else "\n" if c < 0.95 else "  " if c < 0.97 else "  ( a do ( nested ; ) if comment ) " if c < 0.985 else " \\ then ; comment\n"

    def num(v):
        x = v[1] if v[0] == "n" else int.from_bytes(bytes(v[1]), "little", signed=True)
        return str(x) if x < 0 or r.random() < 0.95 else hex(x)

    def seq(code):
        for ins in code:
            k = ins[0]
            if k == "lit": out.append(num(ins[1]))
            elif k == "op": out.append(ins[1])
            elif k == "call": out.append("w%d" % ins[1] if ins[1] != cur[0] else r.choice(["recurse", "w%d" % ins[1]]))
            elif k == "if": out.append("if"); seq(ins[1]); out.append("then")
            elif k == "ifelse": out.append("if"); seq(ins[1]); out.append("else"); seq(ins[2]); out.append("then")
            elif k == "do": out.append("do"); seq(ins[1]); out.append("loop")
            elif k == "plus": out.append("do"); seq(ins[1]); out.append("+loop")
            elif k == "until": out.append("begin"); seq(ins[1]); out.append("until")
            elif k == "again": out.append("begin"); seq(ins[1]); out.append("again")
            elif k == "while": out.append("begin"); seq(ins[1]); out.append("while"); seq(ins[2]); out.append("repeat")
            elif k in ("exit", "halt", "pause"): out.append(k)
            elif k in ("put", "inc", "get"): out.append("v%d %s" % (ins[1], {"put": "!", "inc": "+!", "get": "@"}[k]))
            elif k == "in": out.append("x%d %s" % (ins[2], ins[1]))
            elif k == "out":
                out.append("o%d %s" % (ins[2], ins[1]) + (" stack" if ins[1] in ("<-", "+<-") else ""))
            elif k == "read":
                q = ins[2]
                f = "%dbit" % q["nb"] if q["f"] == "bit" else q["f"]
                out.append("x%d %s%s%s-> %s" % (ins[1], "#" if q["rep"] else "", "!" if q["big"] else "", f,
                                                "o%d" % q["out"] if q["out"] else "stack"))
    cur = [0]
    for i in range(nvars): out.append("variable v%d" % (i + 1))
    for i in range(nin): out.append("input x%d" % (i + 1))
    for i, dt in enumerate(dts): out.append("output o%d %s" % (i + 1, dt))
    for i, w in enumerate(words):
        cur[0] = i + 1
        out.append(": w%d" % (i + 1)); seq(w); out.append(";")
    cur[0] = 0
    seq(main)
    return "".join(t + ws() for t in out)


def data(r):
    b = b""
    for _ in range(r.choice([0, 2, 6, 10, 14, 20])):
        f = r.choice(list("?bhiqBHIQfd") + ["v"])
        x = r.choice([0, 1, 2, 3, r.randint(0, 100), r.randint(0, 100), r.randint(-100, 100)])
        e = r.choice("<<<>")
        if f == "v":
            for _ in range(r.choice([0, 0, 1, 2, 4, 5, 8, 9, 10])):
                b += bytes([r.randint(128, 255)])
            b += bytes([r.randint(0, 127)])
        elif f in "fd":
            b += np.array([x / 2], dtype=e + {"f": "f4", "d": "f8"}[f]).tobytes()
        elif f == "?":
            b += bytes([x & 1])
        else:
            if f in "iIqQ" and r.random() < 0.2:
                x = r.randint(0, (1 << (8 * FMT[f])) - 1)
            b += (x & ((1 << (8 * FMT[f])) - 1)).to_bytes(FMT[f], "little" if e == "<" else "big")
    return b


def session(r, io, big):
    width = r.choice([4, 8])
    nvars = r.randint(2, 4)
    nin = r.randint(1, 2) if io else 0
    dts = [r.choice(DTS) for _ in range(r.randint(1, 3))] if io else []
    nwords = r.randint(0, 3) if not io else r.randint(0, 1)
    g = Gen(r, io, nwords, nvars, nin, dts, big)
    words = []
    for k in range(nwords):
        g.word = k + 1
        g.budget = 8
        words.append(g.fuel() + g.body(r.randint(0, 2), 0, 6, 1)[0])
    g.word = None
    g.budget = 20 if io else 14
    main = [["lit", item(r.randint(20, 80))], ["put", 1]]
    if big and width == 8 and r.random() < 0.4:
        # a number beyond 32 bits in variable 2
        main += [["lit", ["n", 1000000000]], ["op", "dup"], ["op", "+"], ["op", "dup"], ["op", "+"], ["put", 2]]
    main += g.body(0, 0, 16 if io else 10, 0)[0]
    src = source(r, words, main, nvars, nin, dts, False)
    stack = r.choice([1024, 1024, 1024, 16, 8, 6])
    depth = r.choice([1024, 1024, 12, 8, 5])
    cls = ForthMachine32 if width == 4 else ForthMachine64
    m = cls(src, stack_size=stack, recursion_depth=depth, output_initial_size=r.choice([1, 2, 3, 1024]),
            output_resize_factor=r.choice([1.5, 2, 1.1]))
    redo = r.random() < 0.12
    if redo:
        m = cls(m.decompiled, stack_size=stack, recursion_depth=depth, output_initial_size=2, output_resize_factor=1.5)
    ins = [data(r) for _ in range(nin)]
    e = {"op": "redo" if redo else "io" if io else "control", "words": words, "main": main, "nvars": nvars, "dts": dts, "stack": stack,
         "depth": depth, "width": width, "ins": [list(b) for b in ins], "src": src, "cmds": []}
    bufs = {}

    def readonly(b):
        """memory that cannot be written: an attempt ends the process"""
        with tempfile.TemporaryFile() as f:
            f.write(b); f.flush()
            return np.frombuffer(mmap.mmap(f.fileno(), len(b), access=mmap.ACCESS_READ), np.uint8)

    def start(f):
        if ins and all(ins) and r.random() < 0.1:
            bufs.clear()
            try:
                return f({"x%d" % (i + 1): readonly(b) for i, b in enumerate(ins)})
            except (BufferError, ValueError) as ex:
                if "AwkwardForth runtime" in str(ex):
                    raise
        return f(give())

    def give():
        bufs.clear()
        for i, b in enumerate(ins):
            bufs["x%d" % (i + 1)] = np.frombuffer(bytearray(b), np.uint8)
        return dict(bufs)

    def err(f, *a, **k):
        if r.random() < 0.5:
            k.update({"raise_" + x: False for x in ("user_halt", "recursion_depth_exceeded", "stack_underflow", "stack_overflow",
                      "read_beyond", "seek_beyond", "skip_beyond", "rewind_beyond", "division_by_zero", "varint_too_big")})
        try:
            q = f(*a, **k)
            return "none" if q is None else q
        except ValueError as ex:
            mm = re.match(r"'([a-z ]+)' in AwkwardForth runtime", str(ex))
            if mm is None:
                raise
            return mm.group(1)
    started = False
    for _ in range(r.randint(1, 6)):
        c = r.choice(["run", "begin"]) if not started or r.random() < 0.06 else \
            r.choice(["resume", "resume", "resume", "steps", "call", "call", "push", "pop", "clear", "reset"])
        cmd = {"c": c}
        er = "none"
        if c == "run":
            er = err(lambda **k: start(lambda x: m.run(x, **k))); started = True
        elif c == "begin":
            start(m.begin); started = True
        elif c == "reset":
            if r.random() < 0.7: continue
            m.reset()
        elif c == "resume":
            er = err(m.resume)
        elif c == "steps":
            n = 0
            while True:
                er = err(m.step)
                n += 1
                if er != "none" or m.is_done or n > 60000:
                    break
            if n > 60000:
                er = "never done"
        elif c == "call":
            if redo or not words: continue
            cmd["w"] = r.randint(1, len(words))
            er = err(m.call, "w%d" % cmd["w"])
        elif c == "push":
            x = g.lit()
            cmd["v"] = item(x)
            try: m.stack_push(x)
            except ValueError: pass
        elif c == "pop":
            try: m.stack_pop()
            except ValueError: pass
        else:
            m.stack_clear()
        o = {"err": er, "st": [item(x) for x in m.stack], "vs": [item(m.variables["v%d" % (i + 1)]) for i in range(nvars)],
             "done": m.is_done, "ready": m.is_ready, "pos": [], "outs": []}
        if started and c != "reset" and m.is_ready:
            o["pos"] = [m.input_position("x%d" % (i + 1)) for i in range(nin)]
        if started and c != "reset":
            for i, dt in enumerate(dts):
                a = np.asarray(m.outputs["o%d" % (i + 1)] if r.random() < 0.5 else m.output_NumpyArray("o%d" % (i + 1)))
                if str(a.dtype) != dt:
                    raise AssertionError("output type")
                o["outs"].append([outitem(x, dt) for x in a])
        for i, b in enumerate(ins):
            if "x%d" % (i + 1) in bufs and bufs["x%d" % (i + 1)].tobytes() != b:
                o["err"] = "input changed"
        cmd["out"] = o
        e["cmds"].append(cmd)
        if c == "reset":
            break
    return e


RUNERR = re.compile(r"'([a-z ]+)' in AwkwardForth runtime")


def replay(beh):
    """A behaviour of MC_Forth: its program in a machine, its commands, what is seen after each of them."""
    words, main = [w or [] for w in beh["words"]], beh["main"] or []
    rnd = random.Random(0)
    src = source(rnd, words, main, 1, 0, [], False)
    m = ForthMachine64(src, stack_size=beh["stack"], recursion_depth=beh["depth"])
    e = {"op": "behaviour", "words": words, "main": main, "nvars": 1, "dts": [], "stack": beh["stack"], "depth": beh["depth"], "width": 8,
         "ins": [], "src": src, "cmds": []}

    def err(f, *a):
        try:
            q = f(*a)
            return "none" if q is None else q
        except ValueError as ex:
            mm = RUNERR.match(str(ex))
            if mm is None:
                raise
            return mm.group(1)
    for cmd in beh["h"]:
        cmd, c, er = dict(cmd), cmd["c"], "none"
        if c in ("run", "resume"):
            er = err(getattr(m, c))
        elif c == "begin":
            m.begin()
        elif c == "steps":
            n = 0
            while er == "none" and not m.is_done or n == 0:
                er = err(m.step)
                n += 1
                if n > 60000:
                    er = "never done"
        elif c == "call":
            er = err(m.call, "w%d" % cmd["w"])
        elif c == "pop":
            try: m.stack_pop()
            except ValueError: pass
        cmd["out"] = {"err": er, "st": [item(x) for x in m.stack], "vs": [item(m.variables["v1"])], "done": m.is_done, "ready": m.is_ready,
                      "pos": [], "outs": []}
        e["cmds"].append(cmd)
    return e
