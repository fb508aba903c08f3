#!/usr/bin/env python3
"""Writes spec/matches.quick.ndjson and spec/matches.thorough.ndjson: the settings of MatchModel and its engines' alphabets."""
import itertools
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = dict(games=1, names=["", ""], idn=["First 1.0", "Second"], byo=[-1, -1], tim=[-1, -1], inc=[-1, -1], resign=-1, matewin=0, ponder=0, noswap=0,
            keepprocess=0, nopgnmoves=0, draw=3, mode="none", index=0, openings=[], opmoves=100, csa="none", pgn=0, opts=[[], []], stop=-1, summary=1,
            bests=["7g7f", "3c3d", "2g2f", "8c8d"], ponds=[], mss=[0], evals=[["none", 0]])
CYCLE = "5i5h 5a5b 5h5i 5b5a".split()
PERP = [("2h3h 8b5b 5i5h 7a7b 9g9f 4c4d 8h9g 5b3b 9g5c+ 9c9d", "5c6b 5a4b 6b5c 4b5a"),
        ("5i6h 8c8d 2h1h 4a5b 7g7f 8b9b 8h3c 2b3c 6g6f B*9d 1h4h 4c4d 4h1h 9d7f 1h5h 7f8g+ 5h3h", "8g8f 6h7h 8f8g 7h6h"),
        ("2h7h 8b5b 7h3h 6a7b 6i5h 3c3d 5i6h 1c1d 3i4h 2b7g+ 8i7g 5c5d B*4b", "5a6b 4b5c 6b5a 5c4b")]
MATE = "4g4f 5a4b 2h4h 4b3b 4f4e 8b5b 4e4d 6a6b 4d4c+".split()


def settings(deep):
    out = []

    def add(**kw):
        assert set(kw) <= set(BASE), set(kw) - set(BASE)
        out.append(dict(BASE, **kw))
    # pondering: guessed, not guessed, no guess, and games that end meanwhile
    add(ponder=1, bests=["7g7f", "3c3d", "8c8d", "2g2f", "resign"], ponds=["3c3d", "8c8d", "2g2f"], draw=4 if deep else 3, evals=[["cp", 30]])
    add(ponder=1, bests=["7g7f", "3c3d", "win", "1a1b"], ponds=["3c3d", "8c8d"], draw=2, games=2, keepprocess=1, evals=[["cp", 30]])
    add(ponder=1, bests=["7g7f", "3c3d", "resign"], ponds=["3c3d", "2g2f"], draw=3, games=2 if deep else 1, mss=[0, 3000], tim=[1000, 2000],
        inc=[0, 1000], evals=[["cp", 30]])
    add(ponder=1, bests=["7g7f", "3c3d"], ponds=["3c3d", "8c8d"], draw=2, games=2, resign=500, matewin=1, csa="multi", pgn=1,
        evals=[["cp", -500], ["mate", 1], ["cp", 499]])
    # clocks: exactly used up, the forgiven second, byoyomi, increments, one side without a clock
    for tim, byo, inc in itertools.product(([1000, 1000], [0, 2000], [-1, 1000]), ([-1, -1], [0, 0], [1000, -1]), ([-1, -1], [1000, 0])):
        add(tim=tim, byo=byo, inc=inc, bests=["7g7f", "3c3d", "2g2f"], draw=3, mss=[0, 1000, 1875, 2000, 3000] if deep else [0, 1875, 2000, 3000],
            games=1, csa="multi")
    # evaluations: resignation and mate announcements
    for resign, mw in ((1000, 0), (1000, 1), (-1, 1), (0, 0)):
        add(resign=resign, matewin=mw, bests=["7g7f", "3c3d", "1a1b"], draw=2, csa="dir", games=2 if deep else 1,
            evals=[["none", 0], ["cp", -1000], ["cp", -999], ["mate", 1], ["mate", -1]])
    # endings over several games: colours, processes, records, callbacks
    for noswap, keep, stop, csa in itertools.product((0, 1), (0, 1), (-1, 0, 2), ("dir", "multi")):
        if (noswap, keep, stop, csa) in ((1, 1, 2, "dir"), (1, 0, 0, "multi")) or deep:
            add(games=3, noswap=noswap, keepprocess=keep, stop=stop, csa=csa, pgn=1, bests=["7g7f", "resign", "win", "1a1b"], draw=1,
                names=["A", ""] if keep else ["", ""], opts=[[["USI_Hash", "256"]], []])
    add(games=3, bests=["7g7f", "resign", "win"], draw=1, pgn=1, csa="multi", keepprocess=1)
    add(games=4, bests=["7g7f", "resign"], draw=1, nopgnmoves=1, pgn=1, stop=3)
    add(games=2, bests=["7g7f", "3c3d", "2g2f", "8c8d", "resign", "win", "1a1b"], draw=2, csa="dir", pgn=1)
    # mate on the board; the move limit reached by the opening, or by the mate itself
    for draw in (8, 9, 10, 11):
        add(mode="index", index=1, openings=[MATE[:8]], draw=draw, bests=["4d4c+", "4d4c", "3b4c", "7g7f", "8c8d", "resign"], csa="dir", pgn=1,
            games=2 if draw == 9 else 1)
    # repetition, by moves of the opening and of the game
    for n, draw in ((11, 13), (10, 13), (12, 20), (7, 20)):
        add(mode="index", index=1, openings=[(CYCLE * 3)[:n]], draw=draw, bests=["5i5h", "5a5b", "5h5i", "5b5a", "resign"] if not deep else
            ["5i5h", "5a5b", "5h5i", "5b5a", "7g7f", "8c8d", "resign"] if n > 9 else ["5i5h", "5a5b", "5h5i", "5b5a", "resign"], csa="multi",
            games=2 if n == 11 else 1)
    for pre, cyc in PERP:
        a, c = pre.split(), cyc.split()
        for cut in (0, 2) if deep else (0, 1):
            op = (a + c * 3)[:len(a) + 12 - 2 + cut]
            add(mode="index", index=1, openings=[op], draw=len(op) + 6, bests=c + ["resign"], csa="dir", pgn=1, ponder=cut % 2,
                evals=[["cp", 5]], ponds=c[:2])
    return out


for tier in ("quick", "thorough"):
    with open(os.path.join(HERE, "..", "spec", "matches.%s.ndjson" % tier), "w") as f:
        for s in settings(tier == "thorough"):
            f.write(json.dumps(s) + "\n")
