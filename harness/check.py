#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--n N]

build -> record events from the real code -> validate them with TLC against the specification.
"""
import argparse, collections, hashlib, importlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import tlc

VERIF = os.path.dirname(HERE)
NPROC = 8
CASE_TIMEOUT = 60
BEH0 = 10**8
MALLOC_DEBUG = "/lib/x86_64-linux-gnu/libc_malloc_debug.so.0"


class Died(Exception):
    pass


def env(pkg):
    e = dict(os.environ)
    e.update(PYTHONPATH=pkg, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONDONTWRITEBYTECODE="1", PYTHONFAULTHANDLER="1", NUMBA_NUM_THREADS="1",
             MALLOC_PERTURB_="165")       # memory that nobody wrote to does not happen to be zero
    if os.path.exists(MALLOC_DEBUG):      # writes beyond the end of a block end the process
        e.update(LD_PRELOAD=MALLOC_DEBUG, MALLOC_CHECK_="3")
    return e


def spawn(pkg, prop, seed, start, stop, stride, out, only=None):
    cmd = [B.PY, os.path.join(HERE, "worker.py"), prop, str(seed), str(start), str(stop), str(stride), out]
    if only is not None:
        cmd.append(",".join(map(str, only)))
    return subprocess.Popen(cmd, env=env(pkg), stdout=open(out + ".log", "ab"), stderr=subprocess.STDOUT)


def progress(out):
    try:
        s = open(out + ".progress").read().split()[0]
        return s
    except (OSError, IndexError):
        return ""


def record(pkg, prop, seed, n, scratch):
    """Runs the cases in NPROC processes.  Returns (events, deaths), deaths: [(case, how)]."""
    procs, deaths = [], []
    for k in range(NPROC):
        out = os.path.join(scratch, "ev%d" % k)
        open(out, "w").close()
        procs.append([spawn(pkg, prop, seed, k, n, NPROC, out), out, k, "", time.time()])
    live = list(procs)
    while live:
        time.sleep(0.1)
        for p in list(live):
            rc = p[0].poll()
            cur = progress(p[1])
            if rc is None:
                if cur != p[3]:
                    p[3], p[4] = cur, time.time()
                    continue
                elif time.time() - p[4] > CASE_TIMEOUT and cur:
                    p[0].kill(); p[0].wait()
                    rc = "hang"
                else:
                    continue
            if rc == 0:
                live.remove(p)
                continue
            if rc != "hang" and rc > 0 and rc not in (134, 139):
                log = open(p[1] + ".log", errors="replace").read()[-3000:]
                raise Died("the driver of %s failed on case %s (exit %s):\n%s" % (prop, cur, rc, log))
            if not cur or cur == "done":
                raise Died("worker ended with %s outside a case" % rc)
            i = int(cur)
            deaths.append((i, "hang" if rc == "hang" else "signal %s" % (-rc if rc < 0 else rc)))
            if len(deaths) > 16 or sum(h == "hang" for _, h in deaths) > 3:
                for q in live:
                    q[0].kill()
                return collect(procs), deaths
            p[0] = spawn(pkg, prop, seed, i + NPROC, n, NPROC, p[1])
            p[3], p[4] = "", time.time()
    return collect(procs), deaths


def collect(procs):
    evs = []
    for p in procs:
        for ln in open(p[1]):
            if ln.endswith("\n") and '"op":"_end"' not in ln:
                evs.append(json.loads(ln))
    evs.sort(key=lambda e: e["id"])
    return evs


def rerun(pkg, prop, seed, ids, scratch):
    """Runs single cases again in a fresh process: (events, death)."""
    out = os.path.join(scratch, "re")
    for f in (out, out + ".log", out + ".progress"):
        if os.path.exists(f):
            os.unlink(f)
    open(out, "w").close()
    p = spawn(pkg, prop, seed, 0, 0, 1, out, ids)
    try:
        rc = p.wait(timeout=CASE_TIMEOUT * max(1, min(2, len(ids))))
    except subprocess.TimeoutExpired:
        p.kill(); p.wait()
        rc = "hang"
    return collect([[None, out]]), (None if rc == 0 else rc)


def validate(mod, evs, scratch):
    """[(event, wanted)] for the rejected events, plus TLC's state counts."""
    bad, total = [], [0, 0]
    # a case in which the recorder itself met an exception has no outcome to judge: always rejected
    bad += [(e, "an outcome that can be observed") for e in evs if e["op"] == "_driver"]
    evs = [dict(e, idx=i) for i, e in enumerate(e for e in evs if e["op"] != "_driver")]
    # each event is judged under its position so that a case with several events stays distinguishable
    step = getattr(mod, "BATCH", 40000)
    for b in range(0, len(evs), step):
        part = evs[b:b + step]
        for attempt in range(6):
            path = os.path.join(scratch, "trace.ndjson")
            with open(path, "w") as f:
                for e in part:
                    f.write(json.dumps(dict(e, id=e["idx"])) + "\n")
            if not part:
                break
            fs, st, everr = tlc.validate(mod.TRACE, path, len(part), scratch, extra_env=getattr(mod, "ENV", None))
            if everr is None:
                for i, want in fs:
                    bad.append((evs[i], want))
                total[0] += st[0]; total[1] += st[1]
                break
            if everr > len(part):
                raise tlc.TLCError("evaluation failed outside the trace")
            bad.append((part[everr - 1], "the specification does not define this outcome"))
            part = part[:everr - 1] + part[everr:]
        else:
            break       # enough: the remaining events of this run are not judged
    return bad, total


def key(e):
    return json.dumps({k: v for k, v in e.items() if k not in ("id", "idx")}, sort_keys=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--nomodel", action="store_true")
    ap.add_argument("--show", type=int, default=3)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    try:
        pkg = B.build()
    except B.BuildError as e:
        print(str(e)[-3000:])
        print("ERROR: the tree does not build")
        return 2
    tb = time.time() - t0
    os.makedirs(os.path.join(B.BUILD, "run"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(B.BUILD, "run"))
    try:
        return go(a, prop, pkg, scratch, t0, tb)
    except Died as e:
        print(str(e)); print("ERROR: driver failure")
        return 2
    except tlc.TLCError as e:
        print(str(e)); print(e.out[-3000:]); print("ERROR: specification failure")
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def go(a, prop, pkg, scratch, t0, tb):
    mod = importlib.import_module("conf").CONF[prop]
    seed = a.seed
    if a.replay:
        r = json.load(open(a.replay))
        seed = r["seed"]
        if r.get("behaviour"):
            os.environ["VERIF_BEH"] = os.path.join(scratch, "behaviours")
            with open(os.environ["VERIF_BEH"], "w") as f:
                f.write(r["behaviour"] + "\n")
            r["case"] = BEH0
        evs, death = rerun(pkg, prop, seed, [r["case"]], scratch)
        if death:
            print("case %d: process ended with %s" % (r["case"], death))
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        bad, _ = validate(mod, evs, scratch)
        for e, want in bad:
            print("recorded:", json.dumps(e)[:3000]); print("specified:", want[:3000])
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1 if bad else 0
    n = a.n or mod.N[a.tier]
    models, behs = [], []
    if not a.nomodel:
        for m in mod.MODELS.get(a.tier, []):
            st, bs = tlc.behaviours(m["module"], m["cfg"], scratch, m.get("env"), m.get("timeout", 800))
            models.append(st)
            behs += bs
    if behs:
        os.environ["VERIF_BEH"] = os.path.join(scratch, "behaviours")
        with open(os.environ["VERIF_BEH"], "w") as f:
            f.write("".join(x + "\n" for x in behs))
    t1 = time.time()
    evs, deaths = record(pkg, prop, seed, n, scratch)
    t2 = time.time()
    bad, st = validate(mod, evs, scratch)
    t3 = time.time()
    findings = [f for f in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
                if f["property"] == prop]
    known = {f["id"]: f for f in findings}
    hit = collections.Counter()
    viol, unconfirmed = [], 0
    # confirm: the same case again, in a fresh process, has to be rejected again
    real = []
    for e, want in bad:
        if e.get("kf") in known:
            hit[e["kf"]] += 1
        else:
            real.append((e, want))
    for e, want in real[:40]:
        evs2, death = rerun(pkg, prop, seed, [e["id"]], scratch)
        if death is None:
            bad2, _ = validate(mod, evs2, scratch)
            if not any(not (x.get("kf") in known) for x, _ in bad2):
                unconfirmed += 1
                continue
        viol.append((e["id"], e, want))
        if len(viol) >= 5:
            break
    for i, how in sorted(deaths, key=lambda d: d[1] == "hang"):
        if len(viol) >= 2:
            break
        evs2, death = rerun(pkg, prop, seed, [i], scratch)
        if death is None:       # perhaps it needs what ran before it in the same process
            evs2, death = rerun(pkg, prop, seed, list(range(i % NPROC, i + 1, NPROC)), scratch)
        if death is None:
            unconfirmed += 1
            continue
        viol.append((i, {"case": i}, "an outcome, not the end of the process (%s)" % how))
    rdir = os.path.join(VERIF, "evidence", "replay")
    lines = []
    for i, e, want in viol:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d-%d.json" % (prop, seed, i))
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "case": i, "behaviour": behs[i - BEH0] if i >= BEH0 else None, "recorded": e, "specified": want}, f, indent=1)
        if len(lines) < a.show:
            print("case %d recorded:  %s" % (i, json.dumps(e)[:1500]))
            print("case %d specified: %s" % (i, want[:1500]))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for f in findings:
        if hit[f["id"]]:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    nontriv = set()
    ops = collections.Counter()
    errs = 0
    for e in evs:
        ops[e.get("op", "")] += 1
        if isinstance(e.get("out"), dict) and e["out"].get("k") == "err":
            errs += 1
        if mod.nontrivial(e):
            nontriv.add(hashlib.md5(key(e).encode()).digest())
    samples = []
    for e in evs:
        if mod.nontrivial(e) and len(samples) < 3 and len(key(e)) < 1500:
            samples.append({k: v for k, v in e.items() if k != "idx"})
    cov = {
        "states": st[1] + sum(m["states"] for m in models),
        "transitions": st[0] + sum(m["transitions"] for m in models),
        "traces_validated_against_impl": len(evs),
        "evaluations": len(evs), "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
        "samples": samples or [{k: v for k, v in evs[0].items()}] if evs else [],
        "by_operation": dict(ops), "outcomes_that_are_errors": errs, "models": models, "behaviours_replayed": len(behs),
        "process_deaths": len(deaths), "unconfirmed": unconfirmed, "known_findings_seen": dict(hit),
        "seconds": {"build": round(tb, 1), "models": round(t1 - t0 - tb, 1), "record": round(t2 - t1, 1), "validate": round(t3 - t2, 1)},
    }
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUME, "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for ln in lines:
        print(ln)
    print("%s %s: %d events (%d distinct non-trivial), %d errors, %d states, %d rejected, %d violations, %.1f s %s"
          % (prop, a.tier, len(evs), len(nontriv), errs, cov["states"], len(bad), len(viol), ev["wall_s"], cov["seconds"]))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
