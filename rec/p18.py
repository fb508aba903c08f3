"""Matches between two engines played by the recorder: every time control, pondering, openings, swaps, endings and records."""
import datetime
import io
import contextlib
import os
import random
import re
import runpy
import select
import shutil
import signal
import socket
import sys
import threading
import time
import warnings

NOW = [0]                                   # the only clock the match runner can see, in 1024ths of a second (exact in binary)


def clock(*_):
    return 1000.0 + NOW[0] / 1024.0


def clock_ns(*_):
    return 1000 * 10 ** 9 + NOW[0] * 10 ** 9 // 1024


REAL = {f: getattr(time, f) for f in ("perf_counter", "monotonic", "time", "perf_counter_ns", "monotonic_ns", "time_ns")}
SLEEP = time.sleep


def pretend(on=True):
    """Every clock of the time module is the recorder's, or the real one again."""
    for f in REAL:
        setattr(time, f, (clock_ns if f.endswith("ns") else clock) if on else REAL[f])


def think(rng, pace):
    """Lets up to pace eighths of a second go by; how many milliseconds that was, counting the last one begun."""
    while True:
        n = 128 * rng.randrange(0, pace + 1)
        if pace and rng.random() < 0.3:
            n = max(0, n + rng.choice([-1, 1, rng.randrange(-127, 128)]))
        ms = -(-n * 125 // 128)
        if ms // 1000 == n // 1024:         # so that whole seconds can be told from whole milliseconds
            NOW[0] += n
            return ms


class FakeDate(datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2024, 1, 1) + datetime.timedelta(seconds=NOW[0] / 1024)


import concurrent.futures                   # noqa: with the real clock
import concurrent.futures.thread            # noqa
import subprocess                           # noqa
pretend()
RealDate, datetime.datetime = datetime.datetime, FakeDate
try:
    from cshogi import cli
finally:
    pretend(False)
    datetime.datetime = RealDate
from cshogi import Board, move_to_usi       # noqa
import gen                                  # noqa
import p19                                  # noqa

HERE = os.path.dirname(os.path.abspath(__file__))
HUNG = []
PERP = """9g9f 8b7b 9f9e 9a9b 7i6h 7b8b 8h9g 5c5d 9g3a+ 4a4b S*6b|5a5b 6b5c 5b5a 5c6b
5i4h 5c5d 3g3f 9c9d 7g7f 8b4b 8h7g 4b9b 7g3c|5a6b 3c4d 6b5a 4d3c
2h3h 8b5b 5i5h 7a7b 9g9f 4c4d 8h9g 5b3b 9g5c+ 9c9d|5c6b 5a4b 6b5c 4b5a
2h1h 6c6d 7g7f 4c4d 8h4d 8b6b 4d3e 6b6c 9i9h 4a3b 3e5c 6d6e|5c4b 5a6b 4b5c 6b5a
2h7h 8b5b 7h3h 6a7b 6i5h 3c3d 5i6h 1c1d 3i4h 2b7g+ 8i7g 5c5d B*4b|5a6b 4b5c 6b5a 5c4b
5i6h 8c8d 2h1h 4a5b 7g7f 8b9b 8h3c 2b3c 6g6f B*9d 1h4h 4c4d 4h1h 9d7f 1h5h 7f8g+ 5h3h|8g8f 6h7h 8f8g 7h6h
2h3h 8b6b 5i6h 1c1d 3h5h 4a3b 3g3f 8c8d 2g2f 6b4b 5h1h 2b1c 6h5i 7c7d 1h4h 1c5g 4g4f 4b4a 4h7h|5g6h 5i4h 6h5g 4h5i
3i3h 8b5b 9g9f 6a7b 3g3f 5b4b 5i5h 7b8b 8g8f 4b3b 8h9g 3c3d 9g8h 4a4b 5h4h 4b4a 6i5i 2b7g+ 4h3g 7g5e|3g2f 5e4d 2f3g 4d5e
1i1h 8b5b 2h7h 7a8b 7h2h 1c1d 6i6h 3a4b 6h7h 5b6b 2h5h 2c2d 5h6h 7c7d 6h4h 6b7b 3g3f 2d2e 4h6h 8b7c 6h4h 7b7a 2g2f 5c5d 4h2h 7c6b 2i3g 2b1c 5i6h 1c5g+|6h5i 5g4h 5i6h 4h5g
2h7h 4a3b 9g9f 5a4a 7h6h 8b4b 8h9g 4b9b 7i7h 7c7d 6h2h 6a5b 9g5c+ 3a4b 5i5h 9b7b 5c7a 7b7c 3g3f 5b5c 7a5c 2b3a S*2f 7c7b 5c6c|4a5a 6c6b 5a4a 6b6c""".split("\n")
# repetitions ending in check in which not every move was one
MIXED = """5i4h 5c5d 3g3f 9c9d 7g7f 8b4b 8h7g 4b9b 7g3c|5a5b 3c4d 5b5a 4d3c
2h3h 8b5b 5i5h 7a7b 9g9f 4c4d 8h9g 5b3b 9g5c+ 9c9d 5c6b|5a4b 6b7a 4b5a 7a6b
2h1h 6c6d 7g7f 4c4d 8h4d 8b6b 4d3e 6b6c 9i9h 4a3b 3e5c 6d6e 5c4b|5a4a 4b5c 4a5a 5c4b
2h7h 8b5b 7h3h 6a7b 6i5h 3c3d 5i6h 1c1d 3i4h 2b7g+ 8i7g 5c5d B*4b|5a6a 4b5c 6a5a 5c4b
5i6h 8c8d 2h1h 4a5b 7g7f 8b9b 8h3c 2b3c 6g6f B*9d 1h4h 4c4d 4h1h 9d7f 1h5h 7f8g+ 5h3h 8g8f|6h5h 8f6d 5h6h 6d8f
2h3h 8b6b 5i6h 1c1d 3h5h 4a3b 3g3f 8c8d 2g2f 6b4b 5h1h 2b1c 6h5i 7c7d 1h4h 1c5g 4g4f 4b4a 4h7h 5g6h|5i5h 6h5g 5h5i 5g6h
3i3h 8b5b 9g9f 6a7b 3g3f 5b4b 5i5h 7b8b 8g8f 4b3b 8h9g 3c3d 9g8h 4a4b 5h4h 4b4a 6i5i 2b7g+ 4h3g 7g5e|3g2f 5e2b 2f3g 2b5e
1i1h 8b5b 2h7h 7a8b 7h2h 1c1d 6i6h 3a4b 6h7h 5b6b 2h5h 2c2d 5h6h 7c7d 6h4h 6b7b 3g3f 2d2e 4h6h 8b7c 6h4h 7b7a 2g2f 5c5d 4h2h 7c6b 2i3g 2b1c 5i6h 1c5g+|6h5i 5g5f 5i6h 5f5g
2h7h 4a3b 9g9f 5a4a 7h6h 8b4b 8h9g 4b9b 7i7h 7c7d 6h2h 6a5b 9g5c+ 3a4b 5i5h 9b7b 5c7a 7b7c 3g3f 5b5c 7a5c 2b3a S*2f 7c7b 5c6c|4a5a 6c4e 5a4a 4e6c""".split("\n")
SHUFFLE = ["2h3h 8b7b 3h2h 7b8b", "5i5h 5a5b 5h5i 5b5a", "3i4h 7a6b 4h3i 6b7a"]


def scripts(rng):
    """A game plan in USI: moves to follow while they fit, after which anything goes."""
    r = rng.random()
    if r < 0.3:
        a, c = rng.choice(PERP if r < 0.2 else MIXED).split("|")
        return a.split() + c.split() * 4
    if r < 0.43:
        return rng.choice(p19.QUICK).split()
    if r < 0.6:
        pre = rng.choice([[], ["7g7f", "3c3d"], ["2g2f", "8c8d", "2f2e", "8d8e"]])
        return pre + rng.choice(SHUFFLE).split() * 4
    return []


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang()


class Brain(threading.Thread):
    """Plays both engines, keeps the clock, and writes down every turn."""

    def __init__(self, d, rng, cfg, openings):
        super().__init__(daemon=True)
        self.rng, self.cfg, self.openings = rng, cfg, openings
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.bind(os.path.join(d, "sock"))
        self.sock.listen(8)
        self.conns = {}                      # socket -> dict
        self.lines = [[], []]                # unreported commands per engine
        self.events = []
        self.stop = False
        self.wake = socket.socketpair()
        self.error, self.hung = None, False
        self.begun, self.game = [0, 0], 0    # games each engine was told about; games in which somebody had a turn
        self.plan, self.guess = [], None

    def run(self):
        try:
            while not self.stop or self.conns:
                ready = select.select([self.sock] + list(self.conns) + ([] if self.stop else [self.wake[0]]), [], [], 0.2 if self.stop else 20)[0]
                if not ready and not self.stop:              # nobody says anything for 20 s: cut the engines off
                    self.hung = True
                    break
                if self.stop and not ready:
                    break
                for f in ready:
                    if f is self.wake[0]:
                        continue
                    if f is self.sock:
                        c, _ = f.accept()
                        self.conns[c] = dict(e=None, buf=b"", pos="", pon=False)
                        continue
                    try:
                        data = f.recv(65536)
                    except OSError:
                        data = b""
                    if not data:
                        f.close()
                        del self.conns[f]
                        continue
                    st = self.conns[f]
                    st["buf"] += data
                    while b"\n" in st["buf"] and f in self.conns:
                        line, st["buf"] = st["buf"].split(b"\n", 1)
                        self.line(f, st, line.decode("utf-8", "replace"))
        except Exception as e:               # noqa: reported by the session
            import traceback
            self.error = repr(e) + traceback.format_exc()
        finally:
            for f in list(self.conns):
                f.close()
            self.sock.close()

    def finish(self):
        self.stop = True
        self.wake[1].send(b"x")
        self.join(20)
        self.wake[0].close()
        self.wake[1].close()

    def put(self, f, *lines):
        try:
            f.sendall("".join(x + "\n" for x in lines).encode())
        except OSError:
            pass

    def line(self, f, st, line):
        rng = self.rng
        if st["e"] is None:
            st["e"] = int(line[-1])
            return
        e = st["e"]
        self.lines[e - 1].append(line)
        w = line.split(" ")
        if line == "usi":
            self.put(f, "id name " + self.cfg["idn"][e - 1], "option name USI_Hash type spin default 16", "usiok")
        elif line == "isready":
            NOW[0] += 128 * rng.randrange(8, 80)
            self.put(f, *(["info string ready"] if rng.random() < 0.3 else []) + ["readyok"])
        elif line == "usinewgame":
            self.begun[e - 1] += 1
        elif w[0] == "position":
            st["pos"] = line
        elif line.startswith("go ponder"):
            st["pon"] = True
        elif w[0] in ("go", "ponderhit"):
            st["pon"] = False
            self.turn(f, st, e)
        elif line == "stop" and st["pon"]:
            st["pon"] = False
            NOW[0] += rng.randrange(0, 5000)
            self.put(f, "info score cp 777 pv 7g7f", "bestmove " + rng.choice(["7g7f", "resign", "1c1d ponder 9g9f"]))
        elif line == "quit":
            f.close()
            del self.conns[f]

    def board(self, pos):
        b, w = Board(), pos.split(" ")
        moves = []
        if w[:2] == ["position", "startpos"] and len(w) > 3:
            moves = w[3:]
        for u in moves:
            m = b.move_from_usi(u)
            if not b.is_legal(m):
                return None, []
            b.push(m)
        return b, moves

    def which(self, moves):
        k = self.cfg["opmoves"]
        for i, o in enumerate(self.openings):
            if moves == o[:k]:
                return i + 1
        return 0

    def turn(self, f, st, e):
        rng = self.rng
        b, moves = self.board(st["pos"])
        ev = dict(op="turn", e=e, lines=self.lines[e - 1], ply=0, opening=0)
        self.lines[e - 1] = []
        if b is None:
            ev.update(best="resign", pond="None", ms=0, kind="none", v=0, pv=[])
            self.events.append(ev)
            self.put(f, "bestmove resign")
            return
        if self.begun[e - 1] > self.game:                    # a new game
            self.game = self.begun[e - 1]
            self.fresh()
            ev["opening"] = self.which(moves)
        n = len(moves)
        ev["ply"] = b.move_number
        best = self.pick(b, moves)
        # the search report
        legal = best not in ("resign", "win") and b.is_legal(b.move_from_usi(best))
        r = rng.random()
        kind, v, pv, out = "none", 0, [], []
        must = ev["lines"][-1:] == ["ponderhit"]
        if must or r < 0.75:
            if rng.random() < (0.97 if self.mild else 0.8):
                kind = "cp"
                v = rng.randrange(-900, 900) if self.mild else rng.choice([0, 35, -80, 250, -999, -1000, -1001, -2500, 3000, rng.randrange(-3000, 3000)])
                sc = "cp %d" % v
            else:
                kind = "mate"
                z = rng.choice(["3", "+"] if self.mild and not self.cfg["matewin"] else ["3", "-3", "+", "-", "+7", "-12"])
                v = -1 if z[0] == "-" else 1
                sc = "mate " + z
            pv = [best] if legal and rng.random() < 0.9 else [self.illegal(b)] if rng.random() < 0.5 else [best]
            b2 = b.copy()
            if legal and pv == [best]:
                b2.push_usi(best)
                for _ in range(rng.choice([0, 1, 2, 4])):
                    l2 = list(b2.legal_moves)
                    if not l2:
                        break
                    m = rng.choice(l2)
                    pv.append(move_to_usi(m))
                    b2.push(m)
                if rng.random() < 0.15:
                    pv += [self.illegal(b2), "7g7f"]
            pre = rng.choice(["", "depth 5 ", "depth 12 seldepth 20 nodes 1000 time 33 ", "multipv 1 "])
            post = rng.choice(["", "", " lowerbound", " nodes 33 nps 1000"])
            out.append("info " + pre + "score " + sc + post + " pv " + " ".join(pv))
        elif r < 0.9:
            out.append(rng.choice(["info depth 1", "info string score something", "info score cp 55", "info pv 7g7f"]))
        if out and rng.random() < 0.4:
            out.insert(0, rng.choice(["info score cp -32000 pv 7g7f 3c3d", "info string hello", "info depth 3 score mate -1 pv 9g9f"]))
        # what it expects next
        pond = "None"
        self.guess = None
        if rng.random() < 0.7 and legal:
            b2 = b.copy()
            b2.push_usi(best)
            l2 = list(b2.legal_moves)
            if l2:
                pond = move_to_usi(rng.choice(l2))
                if n + 1 < len(self.plan) and self.plan[:n + 1] == moves + [best] and rng.random() < 0.6:
                    pond = self.plan[n + 1]
                if rng.random() < 0.6:
                    self.guess = pond
                both = [x for x in map(move_to_usi, l2) if x[-1] == "+" and b2.is_legal(b2.move_from_usi(x[:-1]))]
                if both and rng.random() < 0.3:              # right but for the promotion
                    x = rng.choice(both)
                    pond, self.guess = rng.choice([(x, x[:-1]), (x[:-1], x)])
        if getattr(self, "web", False) and rng.random() < 0.5:
            SLEEP(0.006)                                     # time for the page to be asked in this turn
        ms = think(rng, self.pace)
        ev.update(best=best, pond=pond, ms=ms, kind=kind, v=v, pv=pv)
        self.events.append(ev)
        self.put(f, *out, "bestmove " + best + (" ponder " + pond if pond != "None" else ""))

    def fresh(self):
        rng = self.rng
        self.plan, self.guess = scripts(rng), None
        self.style = rng.choice(["any", "cycle", "mate", "any"])
        self.player = p19.Player(rng)
        self.player.style = self.style
        self.wild = rng.random() < 0.35                      # odd bestmoves allowed
        self.pace = rng.choice([0, 0, 4, 8, 16, 80])
        self.mild = rng.random() < 0.7

    def pick(self, b, moves, human=False):
        rng, n = self.rng, len(moves)
        lm = list(b.legal_moves)
        if not lm:
            return "resign"
        if n < len(self.plan) and self.plan[:n] == moves and b.is_legal(b.move_from_usi(self.plan[n])):
            best = self.plan[n]
        elif self.guess and b.is_legal(b.move_from_usi(self.guess)) and rng.random() < 0.6:
            best = self.guess
        else:
            self.player.plan = self.player.plan if n else []
            m = self.player.move(b)
            best = move_to_usi(m) if m else move_to_usi(lm[0])
        if self.wild and not human and rng.random() < 0.05:
            x = rng.random()
            best = "resign" if x < 0.3 else "win" if x < 0.55 else self.illegal(b)
        return best

    def human(self, b, k):
        """A human's turn, on board b after k moves."""
        if not hasattr(self, "player"):
            self.fresh()
        h = [move_to_usi(m) for m in b.history]
        ev = dict(op="turn", e=k % 2 + 1, lines=[], ply=k + 1, opening=0, best=self.pick(b, h, True), pond="None", ms=0, kind="none", v=0, pv=[])
        self.events.append(ev)
        return ev

    def illegal(self, b):
        rng = self.rng
        for _ in range(50):
            r = rng.random()
            if r < 0.4:
                u = "%d%s%d%s%s" % (rng.randrange(1, 10), rng.choice("abcdefghi"), rng.randrange(1, 10), rng.choice("abcdefghi"), rng.choice(["", "", "+"]))
            elif r < 0.7:
                u = rng.choice("PLNSGBR") + "*%d%s" % (rng.randrange(1, 10), rng.choice("abcdefghi"))
            else:
                l = list(b.legal_moves)
                if not l:
                    continue
                u = move_to_usi(rng.choice(l))
                u = u[:-1] if u.endswith("+") else u + "+" if "*" not in u else "K" + u[1:]
            if u not in [move_to_usi(m) for m in b.legal_moves]:
                return u
        return "1a1b+"


def opt(rng, vals, none=0.5):
    """<<value passed, [engine 1, engine 2]>>; -1: not given"""
    if rng.random() < none:
        return None, [-1, -1]
    r = rng.random()
    a, b = rng.choice(vals), rng.choice(vals)
    if r < 0.4:
        return a, [a, a]
    if r < 0.6:
        return rng.choice([[a], (a,)]), [a, a]
    return rng.choice([[a, b], (a, b)]), [a, b]


def choose_options(rng):
    r = rng.random()
    return [[["USI_Hash", "256"]], []] if r < 0.4 else [[], [["Threads", "1"], ["Book", "a b"]]] if r < 0.6 else \
        [[["EvalDir", "C:\\x:y"]], [["A", "0"]]] if r < 0.8 else [[], []]


def argv(exes, opts, kw):
    """The command line that asks for this match (or league)."""
    a = list(exes)
    for k, o in enumerate(opts):
        if o:
            a += ["--options%d" % (k + 1), ",".join("%s:%s" % (x, y) for x, y in o)]
    for k, v in kw.items():
        if k == "names":
            for j, x in enumerate(v):
                if x is not None:
                    a += ["--name%d" % (j + 1), x]
            continue
        k = "--" + {"is_display": "display"}.get(k, k).replace("_", "-")
        if v is True:
            a.append(k)
        elif v is False:
            pass
        elif isinstance(v, (list, tuple)):
            a += [k] + [str(x) for x in v]
        else:
            a += [k, str(v)]
    return a


def command_line(a):
    """What happens when the module is run with arguments a."""
    old = sys.argv
    sys.argv = ["cli.py"] + a
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("cshogi.cli", run_name="__main__", alter_sys=False)
    finally:
        sys.argv = old


def printed(text):
    """The lines printed; a board is one line, Elo figures and the engines' traffic are left out."""
    lines, board, end = [], None, False
    for x in text.split("\n")[:-1]:
        if board is not None:
            board += x + "\n"
            if x in ("+", "-"):
                lines.append(board)
                board, end = None, True
        elif x.startswith("'  9  8"):
            board = x + "\n"
        elif x[:2] not in ("1:", "2:") and not (end and x == ""):
            lines.append("Elo" if x.startswith("Elo difference: ") else x)
            end = False
    return lines + ([board] if board else [])


def ratings(text):
    """The rating figures printed, in tenths (no margin: -1)."""
    q = []
    for x in re.findall(r"^Elo difference: (.*)$", text, re.M):
        m = re.fullmatch(r"(\S+) \+/- (\S+), LOS: (\S+) %, DrawRatio: (\S+) %", x)
        q.append([-1 if y == "nan" else int(round(10 * float(y))) for y in m.groups()] if m else [])
    return q


def engines(d, ks="12"):
    """Two engines played by the recorder, in directory d."""
    os.makedirs(d)
    with open(os.path.join(HERE, "fake", "relay.py"), encoding="utf-8") as f:
        src = f.read()
    exes = []
    for k in ks:
        os.makedirs(os.path.join(d, "e" + k))
        exe = os.path.join(d, "e" + k, "engine")
        with open(exe, "w", encoding="utf-8") as f:
            f.write("#!%s -IS\n" % sys.executable + src)
        os.chmod(exe, 0o755)
        exes.append(exe)
    return exes


def match(s, rng, d, args=False):
    """A match with random settings; args: by way of the command line."""
    exes = engines(d)
    byo, byo2 = opt(rng, [0, 1000, 3000, 10000])
    tim, tim2 = opt(rng, [0, 1000, 5000, 20000, 60000], 0.35)
    inc, inc2 = opt(rng, [0, 1000, 2000])
    games = rng.choice([1, 1, 2, 2, 3, 4])
    kw = dict(games=games)
    names = rng.choice([None, None, ["", ""], ["A", "B"], ["X", None], [None, "Y one"]])
    idn = ["First 1.0", "Second"]
    cfg = dict(games=games, names=[x or "" for x in (names or ["", ""])], idn=idn, byo=byo2, tim=tim2, inc=inc2)
    if names is not None:
        kw["names"] = names
    for k, v in (("byoyomi", byo), ("time", tim), ("inc", inc)):
        if v is not None:
            kw[k] = v
    resign = rng.choice([None, None, None, 1000, 2500, 0])
    if resign is not None:
        kw["resign"] = resign
    cfg["resign"] = -1 if resign is None else resign
    for k, p in (("mate_win", 0.3), ("ponder", 0.45), ("no_swap", 0.3), ("keep_process", 0.4), ("no_pgn_moves", 0.3)):
        kw[k] = rng.random() < p
        cfg[k.replace("_", "")] = int(kw[k])
    cfg["draw"] = rng.choice([2, 4, 12, 20, 36, 60, 60, 60])
    kw["draw"] = cfg["draw"]
    mode = rng.choice(["none", "none", "index", "shuffle"])
    openings = []
    cfg["opmoves"] = rng.choice([24, 24, 1, 3])
    if mode != "none":
        for _ in range(rng.choice([1, 2, 3])):
            b, q = Board(), []
            src = rng.choice(p19.QUICK).split()[:-1] if rng.random() < 0.4 else []
            for j in range(rng.choice([0, 1, 2, 5, 9])):
                m = b.move_from_usi(src[j]) if j < len(src) else rng.choice(list(b.legal_moves))
                q.append(move_to_usi(m))
                b.push(m)
            if q[:cfg["opmoves"]] not in [o[:cfg["opmoves"]] for o in openings]:
                openings.append(q)
        path = os.path.join(d, "op.txt")
        with open(path, "w") as f:
            for q in openings:
                f.write("startpos moves " + " ".join(q) + "\n" if q else rng.choice(["startpos\n", "startpos moves\n"]))
        kw["opening"] = path
        kw["opening_moves"] = cfg["opmoves"]
        if mode == "index":
            kw["opening_index"] = rng.randrange(len(openings))
        else:
            cfg["draw"] = kw["draw"] = max(cfg["draw"], 30)
            if rng.random() < 0.7:
                kw["opening_seed"] = rng.randrange(100)
    cfg.update(mode=mode, index=kw.get("opening_index", -1) + 1, openings=openings)
    csa = rng.choice(["none", "none", "multi", "dir"])
    cfg.update(csa=csa)
    cfg["pgn"] = int(rng.random() < 0.5)
    cfg["opts"] = choose_options(rng)
    cfg["display"] = int(rng.random() < 0.15)
    kw["is_display"] = bool(cfg["display"])
    kw["debug"] = rng.random() < 0.1 and not kw["ponder"]     # what two engines at once print would run together
    cfg["via"] = "args" if args else "main"
    cfg["stop"] = rng.choice([-1, -1, 0, 1, 2])                # -1: no callback; 0: a callback that always goes on; n: stops after game n
    cfg["summary"] = int(rng.random() < 0.8)
    if args:
        cfg.update(stop=-1, summary=1)
    random.seed(rng.random())                                  # shuffling without a seed, but repeatably
    run(s, d, exes, cfg, kw, Brain(d, rng, cfg, openings))


def run(s, d, exes, cfg, kw, brain):
    """Plays the match with settings cfg, passed to the runner as kw, and records it."""
    csa, opts, cbs = cfg["csa"], cfg["opts"], []
    if csa == "multi":
        kw.update(csa=os.path.join(d, "out.csa"), multi_csa=True)
    elif csa == "dir":
        os.makedirs(os.path.join(d, "csa"))
        kw.update(csa=os.path.join(d, "csa"))
    if cfg["pgn"]:
        kw["pgn"] = os.path.join(d, "out.pgn")
    if cfg["stop"] >= 0:
        def cb(x):
            cbs.append(dict(x))
            return len(cbs) != cfg["stop"] or (None if cfg["games"] % 2 else False)
        kw["callback"] = cb
    if not cfg["summary"]:
        kw["print_summary"] = False
    s.emit("match", **cfg)
    ret = {}

    def call():
        if cfg.get("via") == "args":
            command_line(argv(exes, opts, kw))
        else:
            ret.update(cli.main(exes[0], exes[1], {k: v for k, v in opts[0]}, {k: v for k, v in opts[1]}, **kw))
    out, exc = perform(brain, call)
    for ev in brain.events:
        s.emit(**ev)

    def stat(x):
        return [x[k] for k in ("engine1_name", "engine2_name")] + [x[k] for k in ("engine1_won", "engine2_won", "black_won", "white_won", "draw", "total")]
    texts = []
    if csa == "multi" and os.path.exists(os.path.join(d, "out.csa")):
        with open(os.path.join(d, "out.csa"), newline="") as f:
            texts.append(["", f.read()])
    elif csa == "dir":
        texts = csa_files(os.path.join(d, "csa"))
    s.emit("end", exc=exc, rest=brain.lines, out=printed(out), csa=texts, pgn=pgn_text(kw["pgn"]) if cfg["pgn"] else "",
           elos=ratings(out), cbs=[[str(y) for y in stat(x)] for x in cbs], ret=[str(y) for y in stat(ret)] if ret else [])


def perform(brain, call):
    """<<what was printed, how it failed>> when call is made with engines played by brain"""
    brain.start()
    exc, out = "", io.StringIO()
    signal.setitimer(signal.ITIMER_REAL, 60)
    datetime.datetime = FakeDate
    pretend()
    try:
        with contextlib.redirect_stdout(out):
            call()
        signal.setitimer(signal.ITIMER_REAL, 0)
    except Hang:
        exc = "hang"
        HUNG.append(1)
    except (Exception, SystemExit) as e:     # noqa: an outcome the specification refuses
        exc = type(e).__name__ + " " + str(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        pretend(False)
        datetime.datetime = RealDate
        brain.finish()
    if brain.hung:
        exc = "hang"
        HUNG.append(1)
    if brain.error:
        raise RuntimeError(brain.error)
    return out.getvalue(), exc


def csa_files(d):
    """<<name without the time, text>> of the records in a directory, in order of time"""
    import gc
    gc.collect()
    texts = []
    for x in sorted(os.listdir(d) if os.path.isdir(d) else [], key=lambda x: x[-18:]):
        with open(os.path.join(d, x), newline="") as f:
            texts.append([re.sub(r"[0-9]{14}\.csa$", "#.csa", x), f.read()])
    return texts


def pgn_text(path):
    if not os.path.exists(path):
        return ""
    with open(path, newline="") as f:
        return re.sub(r'\[Date "[0-9]{4}\.[0-9]{2}\.[0-9]{2}"\]', '[Date "D"]', f.read())


def session(s, i, rng, tier):
    signal.signal(signal.SIGALRM, _alarm)
    if HUNG:
        return
    NOW[0] = 0
    d = os.path.abspath("m%d" % i)
    try:
        match(s, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
