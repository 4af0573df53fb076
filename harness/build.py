"""Builds henryiii/awkward-1.0 from /repo's current working tree, outside /repo.

/verif/.build/src   content-synchronised mirror of the sources the build reads
/verif/.build/obj   CMake/Ninja build tree of that mirror (incremental)
/verif/.build/pkg   the importable package (same layout as /repo/_build/pkg)

The mirror is compared by content, not by mtime, so whatever changed in /repo since the last build
is always rebuilt, and a file that is only touched is not.
"""
import fcntl, filecmp, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC, OBJ, PKG = (os.path.join(BUILD, x) for x in ("src", "obj", "pkg"))
PY = "/opt/vp/venv/bin/python"
TOPFILES = ["CMakeLists.txt", "VERSION_INFO", "setup.py", "setup.cfg", "pyproject.toml", "README-pypi.md",
            "kernel-specification.yml", "requirements.txt", "requirements-test.txt", "requirements-dev.txt"]
TOPDIRS = ["src", "include", "pybind11", "rapidjson", "dlpack"]


def _walk(root):
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ("__pycache__", ".git")]
        for f in files:
            if not f.endswith(".pyc"):
                yield os.path.relpath(os.path.join(d, f), root)


def sync():
    changed = 0
    os.makedirs(SRC, exist_ok=True)
    for t in TOPDIRS:
        a, b = os.path.join(REPO, t), os.path.join(SRC, t)
        os.makedirs(b, exist_ok=True)
        want = set(_walk(a)) if os.path.isdir(a) else set()
        have = set(_walk(b))
        for f in have - want:
            os.unlink(os.path.join(b, f)); changed += 1
        for f in sorted(want):
            changed += _copy(os.path.join(a, f), os.path.join(b, f))
    for f in TOPFILES:
        a, b = os.path.join(REPO, f), os.path.join(SRC, f)
        if os.path.exists(a):
            changed += _copy(a, b)
        elif os.path.exists(b):
            os.unlink(b); changed += 1
    return changed


def _copy(a, b):
    if os.path.exists(b) and filecmp.cmp(a, b, shallow=False):
        return 0
    os.makedirs(os.path.dirname(b), exist_ok=True)
    shutil.copyfile(a, b)
    return 1


class BuildError(Exception):
    pass


def _run(cmd, log):
    with open(log, "ab") as f:
        p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        tail = open(log, errors="replace").read()[-4000:]
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))


def build():
    """Returns the directory to put on PYTHONPATH."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t0 = time.time()
        changed = sync()
        stamp = os.path.join(BUILD, "ok")
        if not changed and os.path.exists(stamp):
            return PKG
        if os.path.exists(stamp):
            os.unlink(stamp)
        log = os.path.join(BUILD, "build.log")
        open(log, "w").close()
        env = os.environ
        env.pop("LD_LIBRARY_PATH", None)
        env["CC"], env["CXX"] = "gcc", "g++"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        if not os.path.exists(os.path.join(OBJ, "build.ninja")):
            shutil.rmtree(OBJ, ignore_errors=True)
        _run(["cmake", "-S", SRC, "-B", OBJ, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=None",
              "-DBUILD_TESTING=OFF", "-DPYBUILD=ON", "-DPYTHON_EXECUTABLE=" + PY,
              "-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=OFF",
              "-DCMAKE_CXX_FLAGS=-O1 -w -Wno-error -I/opt/vp/cmake/include",
              "-DCMAKE_PROJECT_awkward_INCLUDE=/opt/vp/cmake/system-pybind11.cmake"], log)
        _run(["ninja", "-C", OBJ, "-j8", "_ext", "awkward", "awkward-cpu-kernels"], log)
        shutil.rmtree(PKG, ignore_errors=True)
        shutil.copytree(os.path.join(SRC, "src", "awkward"), os.path.join(PKG, "awkward"))
        for f in os.listdir(OBJ):
            if f.endswith(".so"):
                os.symlink(os.path.join(OBJ, f), os.path.join(PKG, "awkward", f))
        _run(["bash", "-c", "cd %s && %s -W ignore setup.py -q egg_info --egg-base %s" % (SRC, PY, PKG)], log)
        open(stamp, "w").write("%.1f\n" % (time.time() - t0))
        return PKG


if __name__ == "__main__":
    t = time.time()
    try:
        print(build(), "%.1f s" % (time.time() - t))
    except BuildError as e:
        print(e); sys.exit(2)
