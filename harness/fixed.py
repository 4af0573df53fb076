"""Rewrites the "fixed" part of known_findings.json from /repo's fix: commits (development aid; no check runs it)."""
import json, subprocess, sys
NEW = iter(sys.argv[1:])   # the property of each fix that is not listed yet (the last one repeats)
last = None


def new():
    global last
    last = next(NEW, last)
    assert last
    return last


log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "e41e5c5..HEAD"], capture_output=True, text=True).stdout.splitlines()
old = json.load(open("/verif/known_findings.json"))
known = {x.split(" ", 3)[3]: x.split(" ", 3)[1].split("=")[1] for x in old["fixed"]}
out = []
for ln in log:
    h, s = ln.split(" ", 1)
    assert s.startswith("fix: "), s
    p = known.get(s[5:]) or new()
    out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
old["fixed"] = out
json.dump(old, open("/verif/known_findings.json", "w"), indent=1)
print(len(out), "fixed")
