"""The web server: matches of engines and humans, replay of CSA records, and the board the page draws."""
import io
import contextlib
import json
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import threading
import time

import p18                                  # noqa: sets up the clock before the package reads it
from p18 import NOW, Brain, Hang, REAL, clock
import gen                                  # noqa
import p16                                  # noqa
from cshogi import Board, move_to_usi, move_to_csa

p18.pretend()
try:
    from cshogi.web import app
finally:
    p18.pretend(False)

NODE = shutil.which("node")
DRIVER = """
const fs = require('fs');
const src = fs.readFileSync(process.argv[1], 'utf8');
const games = JSON.parse(fs.readFileSync(0, 'utf8'));
const Board = new Function(src + '; return Board;')();
const out = games.map(g => { const b = new Board(); const r = [b.to_svg(1.5)]; for (const m of g) { b.move(m); r.push(b.to_svg(1.5)); } b.reset(); r.push(b.to_svg(1.0)); return r; });
process.stdout.write(JSON.stringify(out));
"""


def drawn(moves):
    """What the page's board looks like at the start, after each move, and after a reset."""
    js = os.path.join(os.path.dirname(app.__file__), "static", "board.js")
    r = subprocess.run([NODE, "-e", DRIVER, js], input=json.dumps([moves]).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if r.returncode:
        raise RuntimeError("board.js: " + r.stderr.decode()[-500:])
    return [p16.read_svg(x if x.rstrip().endswith("</svg>") else x + "</svg>", 0) for x in json.loads(r.stdout)[0]]


class FakeProcess(threading.Thread):
    """A process of the server, run as a thread of the recorder."""

    def __init__(self, target=None, args=()):
        super().__init__(daemon=True)
        self.target, self.args, self.exc = target, args, ""

    def run(self):
        try:
            self.target(*self.args)
        except Exception as e:               # noqa: an outcome the specification refuses
            self.exc = type(e).__name__ + " " + str(e)


class FakeManager:
    def list(self, x=()):
        return list(x)

    def dict(self, x=()):
        return dict(x)


def show(rows):
    return [[str(r[k]) for k in ("number", "kif_move", "time", "move", "eval", "pv")] for r in rows]


def page(html):
    """The names, the moves and the switches in the page's script."""
    names = re.search(r'let names = \["(.*?)", "(.*?)"\];', html)
    rows = re.findall(r'\{number:(.*?),kif_move:"(.*?)",time:(.*?),move:(.*?),eval:(.*?),pv:"(.*?)"\},', html)
    return [list(names.groups()), [list(r) for r in rows], re.findall(r'let (?:isMatch|autoupdate|human) = "?(.*?)"?;', html)]


class Serve:
    """Stands in for the HTTP server: what a browser would do, then back."""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, host, port, a):
        self.app = a
        return self

    def serve_forever(self):
        self.fn(self.app.test_client())


def serve(fn, **kw):
    procs = []

    def proc(target=None, args=()):
        procs.append(FakeProcess(target, args))
        return procs[-1]
    old = multiprocessing.Process, multiprocessing.Manager, app.make_server, time.sleep
    multiprocessing.Process, multiprocessing.Manager, app.make_server = proc, FakeManager, Serve(lambda c: fn(c, procs))
    time.sleep = lambda x: old[3](min(x, 0.002))
    p18.pretend()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            app.run(**kw)
    finally:
        multiprocessing.Process, multiprocessing.Manager, app.make_server, time.sleep = old
        p18.pretend(False)
    return procs


def match(s, rng, d):
    exes = p18.engines(d)
    one = rng.choice
    humans = one([[0, 0], [0, 0], [1, 0], [0, 1], [1, 1]])
    byo, tim, inc = one([None, 1000, 10000]), one([None, 1000, 5000, 20000]), one([None, None, 0, 2000])
    names = [one([None, None, "Name A", "B"]), one([None, "C"])]
    cfg = dict(idn=["Human" if h else "Engine %d" % k for k, h in enumerate(humans)], names=[x or "" for x in names], humans=humans,
               byo=[-1 if byo is None else byo] * 2, tim=[-1 if tim is None else tim] * 2, inc=[-1 if inc is None else inc] * 2, draw=one([3, 12, 40, 60]),
               resign=-1, matewin=0, ponder=0, noswap=0, opmoves=0, csa=one(["none", "multi"]),
               opts=[[] if humans[0] or rng.random() < 0.5 else [["USI_Hash", "64"]], []])
    s.emit("wmatch", **cfg)
    brain = Brain(d, rng, cfg, [])
    brain.web = True
    kw = dict(engine1="human" if humans[0] else exes[0], engine2="human" if humans[1] else exes[1], options1=dict(cfg["opts"][0]), options2={},
              name1=names[0], name2=names[1], draw=cfg["draw"])
    for k, v in (("byoyomi", byo), ("time", tim), ("inc", inc)):
        if v is not None:
            kw[k] = v
    if cfg["csa"] != "none":
        kw["csa"] = os.path.join(d, "out.csa")
    got = {}
    seen = []                                # (moves on the page, whose turn the page says it is)
    pages = []                               # (moves on the page, the page) at turns of a human

    def browse(c, procs):
        p = procs[0]
        t0 = REAL["monotonic"]()
        n, before, noted = -1, -1, -1
        while p.is_alive() and REAL["monotonic"]() - t0 < 40 and not brain.hung:
            x = c.get("/update").get_json()
            k = len(x["moves"])
            if k and x["moves"][-1]["move"] == 0:
                p.join(1)
                continue
            if not humans[k % 2]:
                if k == before and k != noted:         # as many moves before and after: what it says is of this turn
                    noted = k
                    seen.append([k, x["human"]])
                before = k
                REAL_SLEEP(0.0005)
                continue
            if k == n:
                REAL_SLEEP(0.002)
                continue
            n = k
            seen.append([k, x["human"]])
            if k and rng.random() < 0.3:
                auto = rng.choice(["", "?autoupdate=false", "?autoupdate=true"])
                pages.append([k, auto[12:], page(c.get("/" + auto).get_data(as_text=True))])
            b = Board()
            for r in x["moves"]:
                b.push(r["move"])
            ev = brain.human(b, k)
            if rng.random() < 0.4:           # things that must not be played
                for bad in rng.sample([(k + 1, brain.illegal(b)), (k, ev["best"]), (k + 2, ev["best"]), (k + 1, "resign")], 2):
                    x = c.get("/move?move=%s&number=%d" % (bad[1].replace("+", "%2B"), bad[0])).get_json()
                    seen.append([k, x["human"] if len(x["moves"]) == k else "played"])
                    REAL_SLEEP(0.008)
            c.get("/move?move=%s&number=%d" % (ev["best"].replace("+", "%2B"), k + 1))
            t1, x = REAL["monotonic"](), []
            while len(x) <= k and p.is_alive() and REAL["monotonic"]() - t1 < 15:
                x = c.get("/update").get_json()["moves"]
                REAL_SLEEP(0.001)
            if len(x) <= k:
                x = c.get("/update").get_json()["moves"]
            if len(x) == k + 1 and x[k]["move"] == 0:        # the game had ended before anybody asked
                brain.events.remove(ev)
                while seen and seen[-1][0] == k:
                    seen.pop()
                while pages and pages[-1][0] == k:
                    pages.pop()
        p.join(5)
        if p.is_alive():
            got["exc"] = "hang"
            return
        x = c.get("/update").get_json()
        got.update(exc=p.exc, rows=show(x["moves"]), names=x["names"], page=page(c.get("/").get_data(as_text=True)))

    brain.start()
    try:
        serve(browse, **kw)
    finally:
        brain.finish()
    if brain.hung:
        got["exc"] = "hang"
    if got.get("exc") == "hang":
        p18.HUNG.append(1)
    if brain.error:
        raise RuntimeError(brain.error)
    for ev in brain.events:
        s.emit(**ev)
    text = ""
    if cfg["csa"] != "none" and os.path.exists(kw["csa"]):
        with open(kw["csa"], newline="") as f:
            text = f.read()
    svgs = []
    if not got["exc"] and NODE and rng.random() < 0.5:
        svgs = drawn([int(r[3]) for r in got["rows"][:-1]])
    s.emit("wend", exc=got["exc"], rest=brain.lines, rows=got.get("rows", []), names=got.get("names", []), page=got.get("page", [[], [], []]), csa=text,
           seen=seen, pages=pages, svgs=svgs)


def replay(s, rng, d):
    """A CSA record shown by the server."""
    os.makedirs(d)
    b, q = Board(), []
    names = [rng.choice(["A", "Black Player"]), "B"]
    text = "V2.2\nN+%s\nN-%s\nPI\n+\n" % tuple(names)
    style = rng.choice(["any", "sharp", "shuffle"])
    for _ in range(rng.choice([0, 1, 5, 20, 60])):
        lm = list(b.legal_moves)
        if not lm:
            break
        m = gen.choose(rng, lm, style) or rng.choice(lm)
        t = rng.randrange(100)
        text += "+-"[b.turn] + move_to_csa(m) + "\nT%d\n" % t
        b.push(m)
        ev, pv = "null", []
        if rng.random() < 0.6:
            ev = rng.randrange(-3000, 3000)
            b2 = b.copy()
            for _ in range(rng.choice([0, 0, 1, 3])):
                l2 = list(b2.legal_moves)
                if not l2:
                    break
                x = rng.choice(l2)
                pv.append("+-"[b2.turn] + move_to_csa(x))
                b2.push(x)
            if rng.random() < 0.1:
                pv.append(rng.choice(["+9999OU", "+5555FU", "-1119HI"]))
            text += "'** " + " ".join([str(ev)] + pv) + "\n"
        q.append(dict(m=m, t=t, ev=str(ev), pv=pv))
    end = rng.choice(["%TORYO", "%CHUDAN", "%SENNICHITE", "%TIME_UP", "%ILLEGAL_MOVE", "%JISHOGI", "%KACHI", "%+ILLEGAL_ACTION", "%-ILLEGAL_ACTION"])
    path = os.path.join(d, "in.csa")
    with open(path, "w") as f:
        f.write(text + end + "\n")
    got = {}

    def browse(c, procs):
        got["page"] = page(c.get("/").get_data(as_text=True))
    try:
        serve(browse, csa=path)
    except Exception as e:                   # noqa
        got["exc"] = type(e).__name__ + " " + str(e)
    svgs = drawn([x["m"] for x in q]) if NODE and rng.random() < 0.5 else []
    s.emit("replay", q=q, end=end, names=names, exc=got.get("exc", ""), page=got.get("page", [[], [], []]), svgs=svgs)


REAL_SLEEP = time.sleep


def session(s, i, rng, tier):
    signal.signal(signal.SIGALRM, p18._alarm)
    NOW[0] = 0
    d = os.path.abspath("w%d" % i)
    try:
        if i % 3 == 2 or p18.HUNG:
            replay(s, rng, d)
        else:
            match(s, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
