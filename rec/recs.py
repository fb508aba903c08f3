"""Shared parts of the record recorders: games to write, texts to put in, results to log."""
import datetime
import os

import cshogi
from cshogi import Board
import gen

END = ["%TORYO", "%SENNICHITE", "%JISHOGI", "%KACHI", "%TIME_UP", "%ILLEGAL_MOVE", "%+ILLEGAL_ACTION", "%-ILLEGAL_ACTION", "%CHUDAN", "%ERROR", "%HIKIWAKE", "%TSUMI", "%FUZUMI"]
WIN = {cshogi.BLACK_WIN: "BLACK", cshogi.WHITE_WIN: "WHITE", cshogi.DRAW: "DRAW", None: "None"}
WORDS = ["abc", "Engine X 1.0", "先手太郎", "a", "後手 花子", "x:y", "100%", "-5", "王将 竜馬", "まで", "名人戦 第1局", "+7776FU", "T5", "tab\tin", "Ünïcode", "a,b"]
CP932 = [w for w in WORDS if "Ü" not in w]


def game(rng, pos, n, style=None):
    """A legal game of up to n moves from pos, as a list of moves."""
    b = Board(gen.sfen(pos))
    style = style or rng.choice(["sharp", "sharp", "uniform", "drops", "shuffle"])
    out = []
    for _ in range(n):
        lm = list(b.legal_moves)
        if not lm:
            break
        if out and rng.random() < 0.3:        # recaptures: "the same square"
            same = [m for m in lm if gen.mv_to(m) == gen.mv_to(out[-1])]
            lm = same or lm
        m = gen.choose(rng, lm, style)
        b.push(m)
        out.append(m)
    return out


def length(rng):
    k = rng.random()
    return 0 if k < 0.06 else rng.randint(1, 6) if k < 0.4 else rng.randint(5, 25) if k < 0.9 else rng.randint(40, 120)


def word(rng, words=WORDS):
    return rng.choice(words)


class Tail:
    """The text a writer adds to a file, call by call."""

    def __init__(self, path, enc):
        self.path, self.enc, self.at = path, enc, 0

    def new(self, f):
        f.flush()
        with open(self.path, "rb") as g:
            g.seek(self.at)
            d = g.read()
        self.at += len(d)
        return d.decode(self.enc)


def date(rng):
    return datetime.datetime(rng.choice([1999, 2015, 2024]), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), rng.randrange(60), rng.randrange(60))


def dtext(d):
    return "None" if d is None else "%04d/%02d/%02d %02d:%02d:%02d" % (d.year, d.month, d.day, d.hour, d.minute, d.second)


def at(pos):
    return dict(ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
