"""Matches of spec/MatchModel, printed by TLC, replayed on the real match runner by engines that give the answers they contain."""
import json
import os
import random
import shutil
import signal

import p18

BEH = [json.loads(x) for x in open(os.environ["VERIF_BEHAVIOURS"], encoding="utf-8")]
SETTINGS = [json.loads(x) for x in open(os.environ["MATCHES"], encoding="utf-8")]
FIELDS = ["games", "names", "idn", "byo", "tim", "inc", "resign", "matewin", "ponder", "noswap", "keepprocess", "nopgnmoves", "draw", "mode", "index",
          "openings", "opmoves", "csa", "pgn", "opts", "stop", "summary"]


class Scripted(p18.Brain):
    def __init__(self, d, rng, cfg, answers):
        super().__init__(d, rng, cfg, cfg["openings"])
        self.answers = answers

    def turn(self, f, st, e):
        if not self.answers:                                  # a turn the specification does not have
            best, pond, ms, kind, v = "resign", "None", 0, "none", 0
        else:
            best, pond, ms, kind, v = self.answers.pop(0)
        ev = dict(op="turn", e=e, lines=self.lines[e - 1], ply=0, opening=0, best=best, pond=pond, ms=ms, kind=kind, v=v, pv=[best])
        self.lines[e - 1] = []
        p18.NOW[0] += ms * 128 // 125
        self.events.append(ev)
        out = []
        if kind != "none":
            out.append("info depth 3 score %s pv %s" % ("cp %d" % v if kind == "cp" else "mate 3" if v > 0 else "mate -3", best))
        self.put(f, *out, "bestmove " + best + (" ponder " + pond if pond != "None" else ""))


def session(s, i, rng, tier):
    signal.signal(signal.SIGALRM, p18._alarm)
    if p18.HUNG:
        return
    p18.NOW[0] = 0
    cfg = {k: v for k, v in SETTINGS[BEH[i]["k"] - 1].items() if k in FIELDS}
    d = os.path.abspath("mm%d" % i)
    try:
        exes = p18.engines(d)
        kw = dict(games=cfg["games"], draw=cfg["draw"], mate_win=bool(cfg["matewin"]), ponder=bool(cfg["ponder"]), no_swap=bool(cfg["noswap"]),
                  keep_process=bool(cfg["keepprocess"]), no_pgn_moves=bool(cfg["nopgnmoves"]))
        if any(cfg["names"]):
            kw["names"] = [x or None for x in cfg["names"]]
        for k, v in (("byoyomi", "byo"), ("time", "tim"), ("inc", "inc")):
            if cfg[v] != [-1, -1]:
                kw[k] = [None if x < 0 else x for x in cfg[v]]
        if cfg["resign"] >= 0:
            kw["resign"] = cfg["resign"]
        if cfg["mode"] == "index":
            kw.update(opening=os.path.join(d, "op.txt"), opening_moves=cfg["opmoves"], opening_index=cfg["index"] - 1)
            with open(kw["opening"], "w") as f:
                for q in cfg["openings"]:
                    f.write("startpos moves " + " ".join(q) + "\n")
        random.seed(i)
        p18.run(s, d, exes, cfg, kw, Scripted(d, rng, cfg, list(BEH[i]["log"])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
