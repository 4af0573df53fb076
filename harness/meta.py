"""Writes properties.jsonl and MANIFEST.json from one list.  Run after adding a property."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                   anchors={"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                            "observe_at": list(observe), "hook_needed": hook}), note))


exec(open(os.path.join(V, "harness", "proplist.py")).read())


def main():
    import conf
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p, note in P:
        if p["id"] not in conf.CONF:
            continue
        c = conf.CONF[p["id"]]
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 harness/check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 harness/check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "TLA+ specification (%s) checked by TLC: %straces recorded from the real code validated against it"
                         % (", ".join(["spec/%s.tla" % c.TRACE] + ["spec/%s.tla" % m["module"] for m in c.MODELS.get("quick", [])]),
                            "laws model-checked exhaustively at small scope, " if c.MODELS.get("quick") else ""),
            "level": c.LEVEL,
            "level_note": note or ("TLC judges every recorded event of seeded random sessions against the specification; "
                                   "sound for what is explored, not a proof; trusts the recorder (harness/project.py) and TLC."),
        })
    na = [{"property": p["id"], "reason": note} for p, note in P if p["id"] not in conf.CONF]
    m = {"version": 1, "setup_cmd": "python3 harness/build.py", "checks": checks, "not_applicable": na,
         "notes": "Specification language: TLA+ (TLC). See DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, os.path.join(V, "harness"))
    main()
