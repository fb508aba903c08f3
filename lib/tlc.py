"""Runs TLC and reads its verdict."""
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ModelError(Exception):
    """TLC could not evaluate the specification: an error of the check, never a violation."""
    out = ""


class Result:
    def __init__(self, ok, states, distinct, depth, out, wall):
        self.ok, self.states, self.distinct, self.depth, self.out, self.wall = ok, states, distinct, depth, out, wall
        self.mismatch = [m for m in re.findall(r'^"?(MISMATCH .*?)"?$', out, re.M)]


def run(module, cfg=None, env=None, workers=None, heap="6g", timeout=3000, extra=(), simulate=None, seed=None, keep=None):
    """module: name of a .tla file in spec/.  Returns a Result; raises ModelError if TLC gives no verdict."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-Dfile.encoding=UTF-8", "-Xss16m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC", "-config", cfg or module + ".cfg",
           "-metadir", meta, "-workers", str(workers or os.cpu_count() or 4), "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", simulate]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        raise ModelError("TLC timed out on %s after %ds" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    wall = time.time() - t0
    m = re.findall(r"([\d,]+) states generated,? ?\(?.*?([\d,]+) distinct states found", out)
    st, ds = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    if simulate:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            st = ds = int(m[-1].replace(",", ""))
    m = re.findall(r"depth of the complete state graph search is (\d+)", out)
    depth = int(m[-1]) if m else 0
    if rc == 0:
        return Result(True, st, ds, depth, out, wall)
    if rc in (12, 13, 10, 11):        # safety, liveness, assumption, deadlock
        return Result(False, st, ds, depth, out, wall)
    e = ModelError("TLC exit %d on %s\n%s" % (rc, module, out[-3000:]))
    e.out, e.rc = out, rc
    raise e
