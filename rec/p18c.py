"""The match runner by way of its command line: matches of two engines, and leagues of three."""
import contextlib
import io
import os
import random
import re
import shutil
import signal

import p18
import p19
from cshogi import Board, move_to_usi
from cshogi.CSA import Parser

PAIRS = ((0, 1), (0, 2), (1, 2))


class League(p18.Brain):
    """Plays all three engines; the matches follow each other, two games each."""

    def __init__(self, d, rng, cfgs, openings):
        super().__init__(d, rng, cfgs[0], openings)
        self.cfgs, self.k, self.over = cfgs, 0, 0
        self.done = []                       # <<events, unread commands>> of the matches that are over

    def turn_page(self):
        self.done.append((self.events, self.lines))
        self.events, self.lines, self.begun, self.game, self.over = [], [[], []], [0, 0], 0, 0
        self.k += 1
        self.cfg = self.cfgs[min(self.k, len(self.cfgs) - 1)]

    def line(self, f, st, line):
        if st["e"] is None:
            if self.over >= 4:
                self.turn_page()
            pair, e = PAIRS[self.k % 3], int(line[-1]) - 1
            line = "e1" if e == pair[0] else "e2"
            if e not in pair:                # an engine that has no part in this match
                self.lines[1].append("engine %d" % (e + 1))
        elif line == "gameover":
            self.over += 1
        super().line(f, st, line)


def triple(rng, vals, none=0.5):
    """<<values passed, [engine 1, engine 2, engine 3]>>; -1: not given"""
    if rng.random() < none:
        return None, [-1] * 3
    if rng.random() < 0.4:
        a = rng.choice(vals)
        return [a], [a] * 3
    q = [rng.choice(vals) for _ in range(3)]
    return q, q


def league(s, rng, d):
    exes = p18.engines(d, "123")
    kw = dict(games=rng.choice([2, 2, 4]))
    byo, byo3 = triple(rng, [0, 1000, 3000, 10000])
    tim, tim3 = triple(rng, [0, 1000, 5000, 20000, 60000], 0.35)
    inc, inc3 = triple(rng, [0, 1000, 2000])
    for k, v in (("byoyomi", byo), ("time", tim), ("inc", inc)):
        if v is not None:
            kw[k] = v
    names = [rng.choice([None, "A%d" % k]) for k in (1, 2, 3)]
    kw["names"] = names
    idn = ["First 1.0", "Second", "Third x"]
    opts = [p18.choose_options(rng)[0], p18.choose_options(rng)[1], rng.choice([[], [["Z", "3"]]])]
    cfg = dict(games=2, noswap=0, stop=-1, summary=0, via="args", display=0)
    cfg["resign"] = rng.choice([-1, -1, 1000])
    if cfg["resign"] >= 0:
        kw["resign"] = cfg["resign"]
    for k, p in (("mate_win", 0.3), ("ponder", 0.3), ("keep_process", 0.4), ("no_pgn_moves", 0.3)):
        kw[k] = rng.random() < p
        cfg[k.replace("_", "")] = int(kw[k])
    kw["no_swap"] = rng.random() < 0.3       # means nothing here
    cfg["draw"] = kw["draw"] = rng.choice([30, 36, 40])
    mode = rng.choice(["none", "index", "shuffle"])
    cfg["opmoves"] = rng.choice([24, 24, 1, 3])
    openings = []
    if mode != "none":
        for _ in range(rng.choice([1, 2, 3])):
            b, q = Board(), []
            for j in range(rng.choice([1, 2, 5, 9])):
                m = rng.choice(list(b.legal_moves))
                q.append(move_to_usi(m))
                b.push(m)
            if q[:cfg["opmoves"]] not in [o[:cfg["opmoves"]] for o in openings]:
                openings.append(q)
        kw["opening"] = os.path.join(d, "op.txt")
        kw["opening_moves"] = cfg["opmoves"]
        with open(kw["opening"], "w") as f:
            for q in openings:
                f.write("startpos moves " + " ".join(q) + "\n")
        if mode == "index":
            kw["opening_index"] = rng.randrange(len(openings))
        elif rng.random() < 0.7:
            kw["opening_seed"] = rng.randrange(100)
    cfg.update(mode="none" if mode == "none" else "index", openings=openings)
    cfg["csa"] = rng.choice(["none", "dir"])
    if cfg["csa"] == "dir":
        kw["csa"] = os.path.join(d, "new", "csa")            # made by the runner
    cfg["pgn"] = int(rng.random() < 0.5)
    if cfg["pgn"]:
        kw["pgn"] = os.path.join(d, "out.pgn")
    cfgs = []
    for _ in range(kw["games"] // 2):
        for a, b in PAIRS:
            cfgs.append(dict(cfg, names=[names[a] or "", names[b] or ""], idn=[idn[a], idn[b]], byo=[byo3[a], byo3[b]], tim=[tim3[a], tim3[b]],
                             inc=[inc3[a], inc3[b]], opts=[opts[a], opts[b]]))
    random.seed(rng.random())
    brain = League(d, rng, cfgs, openings)
    out, exc = p18.perform(brain, lambda: p18.command_line(p18.argv(exes, opts, kw)))
    brain.turn_page()
    s.emit("league", games=kw["games"], mode=mode, index=kw.get("opening_index", -1) + 1, n=len(openings), names=[x or y for x, y in zip(names, idn)])
    lines = p18.printed(out)
    files = p18.csa_files(kw["csa"]) if cfg["csa"] == "dir" else []
    pgn = p18.pgn_text(kw["pgn"]) if cfg["pgn"] else ""
    games = ["[Event " + x for x in pgn.split("[Event ")[1:]]
    for k, (events, rest) in enumerate(brain.done):
        c = dict(cfgs[min(k, len(cfgs) - 1)])
        c["index"] = next((e["opening"] for e in events), 0)
        s.emit("match", **c)
        for ev in events:
            s.emit(**ev)
        last = k == len(brain.done) - 1
        s.emit("end", exc=exc if last else "", rest=rest, out=lines[:4], csa=files[:2], pgn="".join(games[:2]), elos=[], cbs=[], ret=[])
        lines, files, games = lines[4:], files[2:], games[2:]
        if k % 3 == 2:
            s.emit("table", out=lines[:4])
            lines = lines[4:]
    s.emit("over", out=lines, files=len(files), games=len(games))


def orders(s, rng, d):
    """Twice the same: games that are over before anybody moves, from shuffled openings."""
    exes = p18.engines(d, "123")
    n = rng.choice([1, 2, 3, 5, 5])
    openings = [" ".join(q) for q in rng.sample([["7g7f"], ["2g2f"], ["2g2f", "8c8d"], ["7g7f", "3c3d", "6g6f"], ["5i5h"], ["9g9f"]], n)]
    path, csa = os.path.join(d, "op.txt"), os.path.join(d, "out.csa")
    with open(path, "w") as f:
        f.write("".join("startpos moves " + x + "\n" for x in openings))
    kind = rng.choice(["main", "args", "league"])
    kw = dict(games=rng.choice([1, 2, 5, 8, 12] if kind != "league" else [2, 4, 8]), draw=0, opening=path, csa=csa, multi_csa=True, keep_process=True)
    if rng.random() < 0.8:
        kw["opening_seed"] = rng.choice([0, 0, 1, rng.randrange(1000)])
    got, exc = [], ""
    for k in range(2):
        random.seed(rng.random())
        brain = p18.Brain(d, rng, dict(idn=["a", "b", "c"], opmoves=24, matewin=0), [])
        brain.lines, brain.begun = [[], [], []], [0, 0, 0]
        if kind == "main":
            r = p18.perform(brain, lambda: p18.cli.main(exes[0], exes[1], **kw))
        else:
            r = p18.perform(brain, lambda: p18.command_line(p18.argv(exes[:2] if kind == "args" else exes, [], kw)))
        exc = exc or r[1]
        os.unlink(os.path.join(d, "sock"))
        texts = []
        if os.path.exists(csa):
            for g in Parser.parse_file(csa):
                texts.append(" ".join(move_to_usi(m) for m in g.moves))
            os.unlink(csa)
        got.append([openings.index(x) + 1 if x in openings else 0 for x in texts])
    s.emit("orders", kind=kind, games=kw["games"], n=n, seeded=int("opening_seed" in kw), got=got, exc=exc)


def session(s, i, rng, tier):
    signal.signal(signal.SIGALRM, p18._alarm)
    if p18.HUNG:
        return
    p18.NOW[0] = 0
    d = os.path.abspath("c%d" % i)
    try:
        if i % 4 == 0:
            orders(s, rng, d)
        elif i % 2:
            p18.match(s, rng, d, args=True)
        else:
            league(s, rng, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
