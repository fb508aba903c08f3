"""Behaviours of spec/BoardModel, printed by TLC, replayed on real boards."""
import json
import os

import gen
import obs
import p01
from obs import REP

BEH = [json.loads(x) for x in open(os.environ["VERIF_BEHAVIOURS"], encoding="utf-8")]
SCENES = [json.loads(x) for x in open(os.environ["SCENES"], encoding="utf-8")]


def look(b, last):
    d = obs.full(b)
    d["rep"] = [dict(n=q, r=REP[b.is_draw(q) if q else b.is_draw()]) for q in ((0, 4, 5, 6, 8) if last else (0,))]
    if last:
        lm = list(b.legal_moves)
        d.update(lm=lm, go=b.is_game_over(), nyu=b.is_nyugyoku(), bk=obs.limbs(b.book_key()),
                 mrep=[dict(n=q, m=m, r=REP[b.move_is_draw(m, q or None)]) for m in lm[:6] for q in (0, 5)])
    return d


def session(s, i, rng, tier):
    beh = BEH[i]
    sc = SCENES[beh["k"] - 1]
    pos = gen.Pos()
    pos.b, pos.h, pos.t, pos.ply = sc["b"], sc["h"], sc["t"], sc["ply"]
    boards = {1: p01.setup(s, rng, pos)}
    s.emit("set", o=1, ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply, **look(boards[1], not beh["log"]))
    for j, (op, o, x) in enumerate(beh["log"]):
        last = j == len(beh["log"]) - 1
        f = {}
        if op == "push":
            boards[o].push(x)
            f["m"] = x
        elif op == "pop":
            f["ret"] = boards[o].pop()
        elif op == "pass":
            boards[o].push_pass()
        elif op == "unpass":
            boards[o].pop_pass()
        else:
            boards[o] = boards[x].copy()
            f["from"] = x
        s.emit(op, o=o, **f, **look(boards[o], last))
    for o in sorted(boards):
        s.emit("obs", o=o, **look(boards[o], True))
