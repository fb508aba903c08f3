"""Builds the cshogi package from /repo's current working tree, outside /repo.

The sources setup.py needs are copied to a scratch directory under /verif/.cache and built there by the
repository's own setup.py (with the C++ files compiled in parallel).  A finished build is kept under a name
derived from the content of every input file, so that it is reused only for an identical tree.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
PY = "/opt/vp/venv/bin/python"

DRIVER = r'''
import os, sys, runpy
from concurrent.futures import ThreadPoolExecutor
import setuptools
from distutils.ccompiler import CCompiler
from distutils.command.build_ext import build_ext as _be
serial_compile = CCompiler.compile
def parallel_compile(self, sources, *args, **kwargs):
    def key(s):
        try: return -os.path.getsize(s)
        except OSError: return 0
    order = sorted(sources, key=key)
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        jobs = {s: pool.submit(serial_compile, self, [s], *args, **kwargs) for s in order}
    return [obj for s in sources for obj in jobs[s].result()]
CCompiler.compile = parallel_compile
sys.argv = ["setup.py", "build_ext", "--inplace", "--force", "--parallel=3"]
sys.path.insert(0, os.getcwd())
runpy.run_path("setup.py", run_name="__main__")
'''


class BuildError(Exception):
    pass


def _inputs():
    out = []
    for top in ("src", "cshogi"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, REPO)
                if f.endswith((".so", ".pyc", ".o")):
                    continue
                # Cython's own output, ignored by git
                if f.endswith((".cpp", ".c")) and rel.startswith("cshogi") and os.path.exists(os.path.splitext(p)[0] + ".pyx"):
                    continue
                out.append(rel)
    for f in ("setup.py", "pyproject.toml", "README.rst", "MANIFEST.in"):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return out


def tree_hash(files=None):
    h = hashlib.sha256()
    h.update(open(os.path.abspath(__file__), "rb").read())
    for rel in files or _inputs():
        h.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def build(verbose=True):
    """Returns the directory to put on PYTHONPATH."""
    files = _inputs()
    key = tree_hash(files)
    root = os.path.join(CACHE, "build")
    os.makedirs(root, exist_ok=True)
    dest = os.path.join(root, key)
    t0 = time.time()
    with open(os.path.join(root, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, ".done")):
            os.utime(dest)
            return dest
        for old in os.listdir(root):            # keep the few most recent builds only
            if old.startswith("tmp"):
                shutil.rmtree(os.path.join(root, old), ignore_errors=True)
        done = sorted((os.path.getmtime(os.path.join(root, o)), o) for o in os.listdir(root) if o != ".lock")
        for _, o in done[:-4]:
            shutil.rmtree(os.path.join(root, o), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp", dir=root)
        for rel in files:
            d = os.path.join(tmp, rel)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, rel), d)
        env = dict(os.environ)
        env["PATH"] = "/opt/vp/venv/bin:" + env.get("PATH", "")
        env.update(LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", CYTHON_FORCE_REGEN="1", CFLAGS="-fno-strict-overflow -DNDEBUG -O2 -g0 -w", CXXFLAGS="-fno-strict-overflow -DNDEBUG -O2 -g0 -w",
                   CC="gcc", CXX="g++")
        env.pop("PYTHONPATH", None)
        r = subprocess.run([PY, "-c", DRIVER], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == 0
        if ok:
            chk = subprocess.run([PY, "-c", "import cshogi,sys; assert cshogi.__file__.startswith(%r), cshogi.__file__; "
                                  "import cshogi.gym_shogi" % tmp],
                                 cwd="/", env=dict(env, PYTHONPATH=tmp), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ok = chk.returncode == 0
            r.stdout += chk.stdout
        if not ok:
            log = r.stdout[-4000:]
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildError(log)
        shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
        open(os.path.join(tmp, ".done"), "w").close()
        os.rename(tmp, dest)
    if verbose:
        print("built %s in %.1fs" % (key, time.time() - t0), file=sys.stderr)
    return dest


if __name__ == "__main__":
    print(build())
