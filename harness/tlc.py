"""Running TLC and reading its verdicts."""
import json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    def __init__(self, msg, out=""):
        Exception.__init__(self, msg)
        self.out = out


def run(module, cfg, scratch, env=None, workers=8, timeout=800, args=(), heap="6g", ok=(0,)):
    """Runs TLC on spec/<module>.tla with the configuration text cfg; returns (exit code, output)."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cfgp = os.path.join(d, module + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-config", cfgp] + list(args) + \
          [os.path.join(SPEC, module + ".tla")]
    outp = os.path.join(d, "out")
    try:
        with open(outp, "wb") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout)
        out = open(outp, errors="replace").read()
        return p.returncode, out
    except subprocess.TimeoutExpired:
        raise TLCError("TLC timed out on " + module)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def model(module, cfg, scratch, env=None, timeout=800, workers=8, args=()):
    """Exhaustive check of a model; raises TLCError unless TLC finishes without an error."""
    rc, out = run(module, cfg, scratch, env, workers, timeout, args)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise TLCError("the model %s does not check (exit %d)" % (module, rc), out)
    gen, dist = states(out)
    return {"model": module, "states": dist, "transitions": gen}


BEHRE = re.compile(r'^<<"BEH", ("(?:[^"\\]|\\.)*")>>$', re.M)


def behaviours(module, cfg, scratch, env=None, timeout=800, workers=8, args=()):
    """Checks a model exhaustively; returns its statistics and the behaviours it prints (as JSON texts, sorted)."""
    rc, out = run(module, cfg, scratch, env, workers, timeout, args)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise TLCError("the model %s does not check (exit %d)" % (module, rc), out)
    gen, dist = states(out)
    behs = sorted(json.loads(x) for x in BEHRE.findall(out))
    return {"model": module, "states": dist, "transitions": gen, "behaviours": len(behs)}, behs


FAILRE = re.compile(r'<<\s*"FAIL",\s*(-?\d+),\s*(.*?)>>\s*(?=<<|$|\n[A-Z]|\nModel|\nProgress|\nFinished|\n\d)', re.S)


def fails(out):
    """[(id, wanted)] for the FAIL lines; PrintT may wrap a tuple over lines."""
    res = []
    lines = out.split("\n")
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('<<"FAIL"') or ln.startswith('<< "FAIL"'):
            buf = ln
            while not buf.rstrip().endswith(">>") and i + 1 < len(lines):
                i += 1
                buf += " " + lines[i].strip()
            m = re.match(r'<<\s*"FAIL",\s*(-?\d+),\s*(.*)>>\s*$', buf, re.S)
            if not m:
                raise TLCError("unreadable verdict: " + buf[:200])
            res.append((int(m.group(1)), m.group(2).strip()))
        i += 1
    return res


def validate(module, trace, n, scratch, nc=64, extra_env=None, timeout=850, cfg=None):
    """Validates an ndjson trace of n events.  Returns (fails, states, evalerrors): an event on which
    the specification's operators are not even defined is in evalerrors, by position."""
    import json
    env = {"TRACE": trace}
    env.update(extra_env or {})
    cfg = cfg or "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    rc, out = run(module, cfg, scratch, env, 8, timeout)
    gen, dist = states(out)
    if rc == 0 and "Model checking completed. No error has been found." in out:
        if dist != n + nc:
            raise TLCError("TLC consumed %d of %d events" % (dist - nc, n), out)
        return fails(out), (gen, dist), None
    m = re.findall(r"/\\ c = (\d+)\s*\n\s*/\\ l = (\d+)", out)
    if m and rc in (10, 11, 12, 13, 75, 150, 151, 255, 1):
        c, l = map(int, m[-1])
        if os.environ.get("VERIF_DEBUG"):
            print(out[out.find("Error:"):][:1500])
        return fails(out), (gen, dist), l * nc + c
    raise TLCError("TLC failed on %s (exit %d)" % (module, rc), out)
