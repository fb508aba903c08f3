"""Record sessions against the real library, validate them with TLC, confirm and report violations."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import build
import tlc

VERIF = build.VERIF
PY = build.PY


def scratch():
    d = tempfile.mkdtemp(prefix="verif-", dir="/tmp")
    return d


class Recorder:
    """Runs rec/<name>.py in worker processes; a worker that dies is restarted after the fatal session."""

    def __init__(self, pkg, name, seed, tier, tmp, hang=240, env=None):
        self.pkg, self.name, self.seed, self.tier, self.tmp, self.hang = pkg, name, seed, tier, tmp, hang
        self.env = dict(os.environ)
        self.env.update(PYTHONPATH=pkg + ":" + os.path.join(VERIF, "rec"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                        LANG="C.UTF-8", OMP_NUM_THREADS="1", VERIF_PKG=pkg)
        self.env.update(env or {})

    def _spawn(self, shard, shards, start, n, out, only=None):
        cmd = [PY, "-m", "common", self.name, str(self.seed), self.tier, str(shard), str(shards), str(start), str(n), out]
        if only is not None:
            cmd.append(str(only))
        return subprocess.Popen(cmd, env=self.env, cwd=self.tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                start_new_session=True)

    @staticmethod
    def _read(path):
        sess, begin, end = [], None, False
        if os.path.exists(path):
            with open(path, encoding="utf-8") as f:
                for line in f:
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "begin" in d:
                        begin = d["begin"]
                    elif "end" in d:
                        end = True
                    else:
                        sess.append(d)
        done = {d["i"] for d in sess}
        return sess, (begin if begin is not None and begin not in done else None), end

    def record(self, n, shards=8):
        """All sessions 0..n-1; a session that killed its process becomes one with a 'crash' or 'hang' event."""
        sessions = []
        work = [(k, 0) for k in range(min(shards, n))]
        crashes = 0
        while work:
            procs = []
            for k, start in work:
                out = os.path.join(self.tmp, "%s.%d.%d.ndjson" % (self.name, k, start))
                if os.path.exists(out):
                    os.unlink(out)
                procs.append((k, start, out, self._spawn(k, min(shards, n), start, n, out)))
            work = []
            last = {p[2]: (None, time.time()) for p in procs}
            pending = list(procs)
            why = {}
            while pending:
                time.sleep(0.05)
                for p in list(pending):
                    if p[3].poll() is not None:
                        pending.remove(p)
                        continue
                    try:
                        sz = os.path.getsize(p[2])
                    except OSError:
                        sz = 0
                    if last[p[2]][0] != sz:
                        last[p[2]] = (sz, time.time())
                    elif time.time() - last[p[2]][1] > self.hang:
                        why[p[2]] = "hang"
                        _killpg(p[3])
            for k, start, out, pr in procs:
                text = pr.stdout.read().decode("utf-8", "replace")
                sess, fatal, end = self._read(out)
                sessions += sess
                if end:
                    continue
                if fatal is None:
                    raise RuntimeError("recorder %s failed to start:\n%s" % (self.name, text[-2000:]))
                crashes += 1
                sessions.append({"i": fatal, "ev": [{"op": why.get(out, "crash"), "rc": pr.returncode,
                                                    "msg": text[-300:]}]})
                if crashes < 24:
                    work.append((k, fatal + 1))
        sessions.sort(key=lambda d: d["i"])
        return sessions

    def upto(self, i, shards):
        """Session i again, after the sessions that ran before it in its process."""
        out = os.path.join(self.tmp, "%s.upto.ndjson" % self.name)
        if os.path.exists(out):
            os.unlink(out)
        p = self._spawn(i % shards, shards, 0, i + 1, out)
        why = "crash"
        try:
            text = p.communicate(timeout=self.hang + 300)[0].decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            why = "hang"
            _killpg(p)
            text = p.communicate()[0].decode("utf-8", "replace")
        sess, fatal, end = self._read(out)
        if not end and fatal is not None:
            sess.append({"i": fatal, "ev": [{"op": why, "rc": p.returncode, "msg": text[-300:]}]})
        return sess[-1:]

    def one(self, i):
        out = os.path.join(self.tmp, "%s.only.ndjson" % self.name)
        if os.path.exists(out):
            os.unlink(out)
        p = self._spawn(0, 1, 0, i + 1, out, only=i)
        why = "crash"
        try:
            text = p.communicate(timeout=self.hang)[0].decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            why = "hang"
            _killpg(p)
            text = p.communicate()[0].decode("utf-8", "replace")
        sess, fatal, end = self._read(out)
        if end:
            return sess
        return [{"i": i, "ev": [{"op": why, "rc": p.returncode, "msg": text[-300:]}]}]


def _killpg(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def write_sessions(path, sessions):
    with open(path, "w", encoding="utf-8") as f:
        for d in sessions:
            f.write(json.dumps({"i": d["i"], "ev": d["ev"]}, ensure_ascii=True) + "\n")


def validate(module, sessions, tmp, tag="t", heap="8g", cfg=None, workers=None):
    """TLC verdict on recorded sessions.  Returns (Result, index of the failing session or None, text)."""
    path = os.path.join(tmp, "%s.ndjson" % tag)
    write_sessions(path, sessions)
    try:
        r = tlc.run(module, cfg=cfg, env={"TRACE_FILE": path}, heap=heap, workers=workers)
    except tlc.ModelError as e:
        # a recorded value outside the specification's universe (a string where a square belongs, say) stops the
        # evaluation: the session that does it is one the specification does not allow
        at = re.findall(r"^(?:/\\ )?s = (\d+)", e.out, re.M)
        if getattr(e, "rc", 0) not in (75, 76, 77) or not at or int(at[-1]) > len(sessions):
            raise
        why = re.findall(r"^(?:Error: )?(.*(?:Attempted|tried to|not in the domain|evaluat).*)$", e.out, re.M)
        res = tlc.Result(False, 0, 0, 0, e.out, 0)
        return res, sessions[int(at[-1]) - 1]["i"], "UNINTERPRETABLE session %d: %s" % (sessions[int(at[-1]) - 1]["i"], why[:2])
    expect = sum(len(d["ev"]) + 1 for d in sessions)
    if r.ok:
        if r.distinct != expect:
            raise tlc.ModelError("TLC consumed %d of %d trace states in %s\n%s" % (r.distinct, expect, module, r.out[-1500:]))
        return r, None, ""
    if not r.mismatch:
        raise tlc.ModelError("TLC rejected %s without a mismatch report\n%s" % (module, r.out[-2500:]))
    m = re.match(r"MISMATCH <<\s*(\d+),\s*(\d+)", r.mismatch[0])
    if not m:
        raise tlc.ModelError("unreadable mismatch: %r" % r.mismatch[0])
    return r, int(m.group(1)), r.mismatch[0]


class Outcome:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.violations = []
        self.notes = []
        self.extra = {}


def check_property(out, prop, parts, tier, seed, only=None, scale=1.0):
    """Runs every part of a property's check.  A part is one of
         dict(rec=..., mod=..., n=(quick, thorough))      record sessions of the real code, validate them with TLC
         dict(design=..., cfg=..., env=..., tiers=...)    exhaustive model checking of the specification
         dict(gen=..., cfg=..., env=..., rec=..., mod=..., n=(quick, thorough))
                                                          behaviours printed by TLC (at most n of them) replayed on the
                                                          real code by a recorder; the recording is validated as above"""
    t = 0 if tier == "quick" else 1
    for part in parts:
        if only and part.get("rec") != only.split(":")[0]:
            continue
        env = {k: v if isinstance(v, str) else v[t] for k, v in part.get("env", {}).items()}
        part = dict(part)
        if isinstance(part.get("cfg"), tuple):
            part["cfg"] = part["cfg"][t]
        env = {k: os.path.join(tlc.SPEC, v) for k, v in env.items()}
        if "design" in part:
            if tier not in part.get("tiers", ("quick", "thorough")):
                continue
            r = tlc.run(part["design"], cfg=part.get("cfg"), heap=part.get("heap", "8g"), env=env, extra=part.get("extra", ()))
            if not r.ok:
                raise tlc.ModelError("the specification itself violates its invariants: %s\n%s" % (part, r.out[-3000:]))
            out.states += r.distinct
            out.transitions += r.states
            out.notes.append("%s (%s): %d distinct states, %d generated, depth %d, exhaustive" %
                             (part["design"], part.get("cfg") or "default", r.distinct, r.states, r.depth))
            print("[%s] %s: %d states of the model in %.1fs" % (prop, part["design"], r.distinct, r.wall), file=sys.stderr)
            continue
        n = max(1, int(part["n"][t] * scale))
        behaviours = None
        if "gen" in part:
            r, behaviours = generate(part, env, n, seed)
            out.states += r.distinct
            out.transitions += r.states
            out.notes.append("%s (%s): every behaviour within the bounds generated (%d states, depth %d); %d of %d replayed on the real code" %
                             (part["gen"], part["cfg"], r.distinct, r.depth, len(behaviours), r.total))
            print("[%s] %s: %d behaviours (%d states) generated in %.1fs, %d replayed" % (prop, part["gen"], r.total, r.distinct, r.wall, len(behaviours)),
                  file=sys.stderr)
            n = len(behaviours)
        conformance(out, prop, part["rec"], part["mod"], n, tier, seed, heap=part.get("heap", "12g"), cfg=part.get("tcfg"),
                    hang=part.get("hang", 240), shards=part.get("shards", 8), batch=part.get("batch", 4000),
                    only=int(only.split(":")[1]) if only else None, env=env, behaviours=behaviours, screen=part.get("screen", (1, 1))[t])


def generate(part, env, n, seed):
    """The behaviours a model prints, in a fixed order; a seeded choice of n if there are more."""
    r = tlc.run(part["gen"], cfg=part["cfg"], heap=part.get("heap", "8g"), env=env)
    if not r.ok:
        raise tlc.ModelError("the specification itself violates its invariants: %s\n%s" % (part, r.out[-3000:]))
    got = sorted(set(re.findall(r'^"BEHAVIOUR (.*)"$', r.out, re.M)))
    got = [x.replace('\\"', '"').replace("\\\\", "\\") for x in got]
    if not got:
        raise tlc.ModelError("no behaviour printed by %s" % part)
    r.total = len(got)
    if len(got) > n:
        import random
        keep = random.Random(seed).sample(range(len(got)), n)
        got = [got[i] for i in sorted(keep)]
    return r, got


def conformance(out, prop, recname, module, n, tier, seed, heap="12g", cfg=None, hang=240, shards=8, batch=4000, only=None, env=None,
                behaviours=None, screen=1):
    """Record n sessions with rec/<recname>, validate them, confirm a rejection by re-recording it."""
    pkg = build.build()
    tmp = scratch()
    try:
        env = dict(env or {})
        if behaviours is not None:
            env["VERIF_BEHAVIOURS"] = os.path.join(tmp, "behaviours.ndjson")
            with open(env["VERIF_BEHAVIOURS"], "w", encoding="utf-8") as f:
                f.write("".join(x + "\n" for x in behaviours))
        if screen > 1:
            env["VERIF_SCREEN"] = str(screen)
        rec = Recorder(pkg, recname, seed, tier, tmp, hang=hang, env=env)
        t0 = time.time()
        sessions = rec.record(n, shards=shards) if only is None else rec.one(only)
        t1 = time.time()
        nev = sum(len(d["ev"]) for d in sessions)
        out.events += nev
        out.traces += len(sessions)
        for d in sessions[:2]:
            out.samples.append({"recorder": recname, "session": d["i"], "events": json.loads(json.dumps(d["ev"][:2])[:100000])})
        if screen > 1:
            more = sum(d.get("tries", 1) for d in sessions) - len(sessions)
            odd = sum(1 for d in sessions if d.get("odd"))
            out.notes.append("%s: %d more sessions recorded and screened, %d of them put before the specification" % (recname, more, odd))
        bad, states = None, 0
        for a in range(0, len(sessions), batch):
            part = sessions[a:a + batch]
            r, bad, text = validate(module, part, tmp, heap=heap, cfg=cfg)
            states += r.distinct
            out.states += r.distinct
            out.transitions += max(0, r.states - len(part))
            if bad is not None:
                break
        print("[%s] %s: %d sessions%s, %d events recorded in %.1fs, validated in %.1fs (%d states)" %
              (prop, recname, len(sessions), " (+%d screened, %d odd)" % (more, odd) if screen > 1 else "", nev, t1 - t0, time.time() - t1, states), file=sys.stderr)
        if bad is None:
            return
        for attempt in range(3):
            # alone first; then after the sessions that preceded it, for state that is carried from one to the next
            again = rec.one(bad) if attempt != 1 else rec.upto(bad, min(shards, n))
            r2, bad2, text2 = validate(module, again, tmp, tag="again", heap="4g", cfg=cfg)
            if bad2 is not None:
                replay = save_replay(prop, recname, module, seed, tier, bad, text2, again[0])
                out.violations.append({"what": "%s: %s" % (recname, text2[:600]), "replay": replay, "session": bad, "recorder": recname})
                return
        raise tlc.ModelError("mismatch not repeated on re-recording session %d of %s: %s" % (bad, recname, text))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def save_replay(prop, recname, module, seed, tier, idx, text, sess):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (prop, recname, idx))
    with open(path, "w") as f:
        json.dump({"property": prop, "recorder": recname, "spec": module, "seed": seed, "tier": tier, "session": idx,
                   "mismatch": text, "rerun": "VERIF_SEED=%s python3 /verif/check.py %s --tier %s --only %s:%d" %
                   (seed, prop, tier, recname, idx), "events": sess["ev"]}, f, indent=1)
    return path
