"""Histories of spec/EnvModel, printed by TLC, replayed on the real environments."""
import json
import os

import gen
from p19 import ShogiEnv, ShogiVecEnv, outcome, show

BEH = [json.loads(x) for x in open(os.environ["VERIF_BEHAVIOURS"], encoding="utf-8")]
SCENES = [json.loads(x) for x in open(os.environ["SCENES"], encoding="utf-8")]


def session(s, i, rng, tier):
    beh = BEH[i]
    sc = SCENES[beh["k"] - 1]
    pos = gen.Pos(sc["b"], sc["h"], sc["t"], sc["ply"])
    if sc["envs"] == 2:
        v = ShogiVecEnv(2)
        s.emit("vnew", n=2)
        for _, a, b in beh["log"]:
            r, d, w = v.step([a, b])
            s.emit("vstep", q=[a, b], out=[outcome(x) for x in zip(r, d, w)], lens=[len(r), len(d), len(w)])
            s.emit("vrender", sfens=v.render())
        return
    env = ShogiEnv()
    s.emit("new")

    def restart():
        env.reset(sfen=gen.sfen(pos))
        s.emit("reset", o=1, ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
        show(s, rng, env, 1)
    restart()
    for op, m in beh["log"]:
        if op == "reset":
            restart()
            continue
        try:
            out = outcome(env.step(m))
        except AssertionError:
            s.emit("step", o=1, m=m, exc="AssertionError")
        else:
            s.emit("step", o=1, m=m, exc="", out=out)
        show(s, rng, env, 1)
