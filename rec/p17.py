"""The USI client and its listeners, against scripted engines that answer, chatter, and die at chosen points."""
import contextlib
import io
import json
import os
import shutil
import signal
import stat
import sys

from cshogi.usi import Engine, InfoListener, MultiPVListener

HERE = os.path.dirname(os.path.abspath(__file__))
MOVES = ["7g7f", "3c3d", "2g2f", "8h2b+", "P*5e", "6i7h"]


HUNG = []                                # a call that hangs is reported once; further sessions of this process talk to no engine


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


def place(d):
    """A directory with the scripted engine in it."""
    os.makedirs(d)
    exe = os.path.join(d, "engine")
    with open(os.path.join(HERE, "fake", "engine.py"), encoding="utf-8") as f:
        src = f.read()
    with open(exe, "w", encoding="utf-8") as f:
        f.write("#!%s -IS\n" % sys.executable + src)
    os.chmod(exe, 0o755)
    return os.path.abspath(exe)


def info(rng, first=None):
    q = ["info"]
    keys = ["depth", "seldepth", "nodes", "time", "nps", "hashfull", "multipv", "score", "currmove"]
    for k in rng.sample(keys, rng.choice([0, 1, 2, 3, 5, 6])):
        if k == "score":
            q += ["score"] + (["cp", rng.choice(["0", "-35", "120", "30000"])] if rng.random() < 0.5 else
                              ["mate", rng.choice(["1", "5", "-3", "+", "-", "+5", "0", "-12"])])
            if rng.random() < 0.2:
                q.append(rng.choice(["lowerbound", "upperbound"]))
        elif k == "currmove":
            q += [k, rng.choice(MOVES)]
        elif k == "multipv":
            q += [k, str(rng.choice([1, 1, 2, 3, 10, 11]))]
        else:
            q += [k, str(rng.randrange(5000))]
    if rng.random() < 0.85 or first:
        q += ["pv"] + ([first] if first else []) + [rng.choice(MOVES) for _ in range(rng.choice([1, 1, 2, 4]))]
    return q if len(q) > 1 else ["info", "depth", "1"]


def chatter(rng, n):
    out = []
    for _ in range(n):
        out.append(rng.choice([info(rng), info(rng), ["info", "string"] + rng.choice([["hello", "world"], ["bestmove", "7g7f"], ["readyok"], ["usiok"], ["checkmate", "nomate"], ["id", "name", "Y"], ["pv", "2g2f"]]), [""], ["option", "name", "USI_Hash", "type", "spin", "default", "16"],
                               ["readyok", "?"], ["bestmoves"], ["id", "author", "someone"]]))
    return [x for x in out if x[0] != "bestmoves"]


def reply(rng, f):
    """What the engine prints after a command, and whether it dies then."""
    r = rng.random()
    if r < 0.025:
        return chatter(rng, rng.randrange(3)), 1
    n = rng.choice([0, 0, 1, 3])
    if f in ("connect", "usi"):
        q = chatter(rng, n) + [["id", "name", rng.choice(["X", "Engine", "Some"]), rng.choice(["1.0", "X Y"]).split()[0]]] + chatter(rng, rng.randrange(2)) + [["usiok"]]
    elif f == "isready":
        q = chatter(rng, n) + [["readyok"]]
    elif f == "go":
        q = chatter(rng, n) + [["bestmove"] + rng.choice([["7g7f"], ["resign"], ["win"], ["2g2f", "ponder", "8c8d"], ["3c3d", "ponder", "7g7f"], ["5e5d", "ponder"], ["5e5d", "draw", "4c4d"]])]
    elif f == "go_mate":
        q = chatter(rng, n) + [["checkmate"] + rng.choice([["nomate"], ["timeout"], ["notimplemented"], ["G*5b"], ["2g2f", "5a4a", "G*4b"]])]
    else:
        q = chatter(rng, rng.choice([0, 0, 0, 1]))
    if rng.random() < 0.06:
        q += chatter(rng, 2)            # left in the pipe for the next call
    return q, int(rng.random() < 0.02)


def args(rng, f):
    """<<keyword arguments, the same as strings>>"""
    if f == "setoption":
        k = dict(name=rng.choice(["USI_Hash", "Threads", "Book File", "USI_Ponder"]), value=rng.choice([1, 256, "true", "a b", "", "book.db"]))
    elif f == "position":
        k = {}
        if rng.random() < 0.8:
            k["moves"] = [rng.choice(MOVES) for _ in range(rng.choice([0, 1, 2, 9]))]
        if rng.random() < 0.4:
            k["sfen"] = rng.choice(["startpos", "sfen 4k4/9/9/9/9/9/9/9/4K4 w 2Pr 7"])
        return k, dict(moves=k.get("moves", []), sfen=k.get("sfen", "None"))
    elif f == "go":
        k = {}
        for n in ("btime", "wtime", "byoyomi", "binc", "winc", "nodes"):
            if rng.random() < 0.45:
                k[n] = rng.choice([0, 0, 1, 1000, 60000])
        if rng.random() < 0.3:
            k["ponder"] = rng.random() < 0.7
        d = {n: str(k.get(n, "None")) for n in ("btime", "wtime", "byoyomi", "binc", "winc", "nodes")}
        d["ponder"] = int(k.get("ponder", False))
        return k, d
    elif f == "go_mate":
        k = {} if rng.random() < 0.4 else dict(byoyomi=rng.choice([0, 1000, 30000]))
        return k, dict(byoyomi=str(k.get("byoyomi", "None")))
    elif f == "gameover":
        k = {} if rng.random() < 0.4 else dict(result=rng.choice(["win", "lose", "draw"]))
        return k, dict(result=k.get("result", "None"))
    else:
        k = {}
    return k, {a: str(v) for a, v in k.items()}


def client(s, rng, d):
    rel = rng.random() < 0.3
    debug = rng.random() < 0.25
    fs = ["usi", "setoption", "setoption", "isready", "usinewgame", "position", "position", "go", "go", "go", "go_mate", "ponderhit", "stop", "gameover"]
    plan = []                                        # connections, each a list of (call, reply, die)
    for _ in range(rng.choice([1, 1, 2])):
        seq = ["connect"] + [rng.choice(fs) for _ in range(rng.choice([0, 3, 8, 16]))] + ["quit"]
        conn = []
        for f in seq:
            q, die = ([], 0) if f == "quit" else reply(rng, f)
            conn.append((f, q, die))
        plan.append(conn)
    talk(s, rng, d, plan, rng.choice(["", "", "\r"]), rel, debug)


def talk(s, rng, d, plan, eol, rel, debug):
    """Makes the calls of plan on an engine that replies as it says; arguments and listeners at random."""
    exe = place(d)
    with open(os.path.join(d, "play.json"), "w", encoding="utf-8") as g:
        json.dump([[[[" ".join(w) + eol for w in q], 0, die] for _, q, die in conn] for conn in plan], g)
    cmd = os.path.relpath(exe) if rel else exe
    eng = None
    for n, conn in enumerate(plan):
        for f, q, die in conn:
            k, rec = args(rng, f)
            mode = "fn" if rng.random() < 0.6 else "none"
            heard = []
            if mode == "fn":
                k["listener"] = heard.append
            exc, ret = "", None
            cap = io.StringIO()
            signal.setitimer(signal.ITIMER_REAL, 15)
            try:
                with contextlib.redirect_stdout(cap):
                    if f == "connect" and n == 0 and mode == "none" and rng.random() < 0.5:
                        eng = Engine(cmd, debug=debug) if debug else Engine(cmd)
                    else:
                        if eng is None:
                            eng = Engine(cmd, connect=False, debug=debug)
                        ret = getattr(eng, f)(**k)
                signal.setitimer(signal.ITIMER_REAL, 0)
            except Hang:
                exc = "hang"
                HUNG.append(1)
            except (EOFError, OSError) as e:
                exc = type(e).__name__
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if debug:
                mode, heard = "debug", cap.getvalue().split("\n")[:-1]
            ret = [] if ret is None else [ret] if isinstance(ret, str) else ["None" if x is None else x for x in ret]
            if eng is None:                                # construction failed: nothing to talk to
                s.emit("call", f=f, mode=mode, out=q, die=die, heard=heard, ret=[], exc=exc, ename="None", alive=1, **rec)
                break
            s.emit("call", f=f, mode=mode, out=q, die=die, heard=heard, ret=ret, exc=exc, ename=str(getattr(eng, "name", None)),
                   alive=int(eng.proc is not None), **rec)
            if exc == "hang" or f == "connect" and exc:
                if eng.proc is not None:
                    eng.proc.kill()
                break
        else:
            with open(os.path.join(d, "log.%d" % n)) as g:
                rows = [json.loads(x) for x in g]
            got = [x["line"] for x in rows if "line" in x]
            s.emit("log", lines=[x[:-1] if x.endswith("\n") else x + "<no newline>" for x in got], cwd=int(rows[0]["cwd"]), argv=rows[0]["argv"])
            continue
        break


def pairs(d):
    return [[k, str(v)] for k, v in d.items() if k != "pv"]


def listener(s, rng):
    inner = []
    kind = rng.choice(["info", "info", "multi"])
    ms = rng.choice([100000, 32000])
    if kind == "info":
        lis = InfoListener(ms, inner.append) if rng.random() < 0.6 else InfoListener(listner=inner.append)
        ms = lis.mate_score
    else:
        lis = MultiPVListener(inner.append)
    for _ in range(rng.choice([1, 2, 3])):
        assert lis.listen() is lis
        s.emit("listen")
        best = rng.choice(MOVES + ["resign"])
        for _ in range(rng.choice([0, 1, 3, 8])):
            w = info(rng, best if rng.random() < 0.4 else None) if rng.random() < 0.85 else rng.choice([["info", "string", "a", "b"], ["go", "byoyomi", "1000"], [""]])
            lis(" ".join(w))
            s.emit("feed", w=w, line=" ".join(w), inner=inner.pop())
        w = ["bestmove", best] + rng.choice([[], ["ponder", "8c8d"]])
        lis(" ".join(w))
        s.emit("feed", w=w, line=" ".join(w), inner=inner.pop())
        if kind == "info":
            order = ["best", "info", "score", "pv"]
            rng.shuffle(order)
            d = dict(matescore=str(ms))
            for k in order:
                if k == "best":
                    d["best"] = lis.bestmove
                elif k == "info":
                    x = lis.info
                    d.update(fields=[] if x is None else pairs(x), ipv=[] if x is None else list(x["pv"]))
                elif k == "score":
                    d["score"] = str(lis.score)
                else:
                    d["pv"] = lis.pv or []
            s.emit("ask", **d)
        else:
            s.emit("ask", multi=[dict(fields=pairs(x), pv=list(x["pv"])) for x in lis.info])


def session(s, i, rng, tier):
    signal.signal(signal.SIGALRM, _alarm)
    if i % 3 == 2 or HUNG:
        listener(s, rng)
        return
    d = os.path.abspath("usi%d" % i)
    try:
        client(s, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
