"""Environments: single ones and vectors of them, through resets, repetitions, perpetual checks, mates and resignations."""
import warnings
warnings.filterwarnings("ignore")
import io
import contextlib
with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
    from cshogi.gym_shogi.envs import ShogiEnv, ShogiVecEnv
import numpy as np
import cshogi
from cshogi import Board
import gen
import p05
import p16
from obs import REP

DRAW = dict(REP)
DRAW[None] = "None"


def outcome(r):
    return [repr(float(r[0])), int(bool(r[1])), DRAW[r[2]]]


QUICK = ["4g4f 5a4b 2h4h 4b3b 4f4e 8b5b 4e4d 6a6b 4d4c+", "6i6h 8b9b 1g1f 3c3d 4i3h 2b7g 8g8f 7g6h+ 5i4i G*5h",
         "3i4h 4a3b 7g7f 6a7b 8h7g 5c5d 7g8f 3b4b 8f4b+ 5a6b G*5b", "8g8f 1a1b 7g7f 6c6d 8h3c 2b3c 2g2f B*4h 5i5h 3c6f 7i7h 6f5g+"]


class Player:
    """Chooses moves for one game: mates, cycles, perpetual checks, or anything."""

    def __init__(self, rng):
        self.rng = rng
        self.restart()

    def restart(self):
        self.plan, self.seen = [], set()
        self.style = self.rng.choice(["check", "check", "any", "cycle", "cycle", "mate"])

    def move(self, b):
        rng = self.rng
        k = b.sfen().rsplit(" ", 1)[0]
        self.seen.add(k)
        self.seen.add(k.split(" ")[0])
        if b.move_number == 1 and not self.plan and rng.random() < 0.3:
            self.plan = rng.choice(QUICK).split()
        if self.plan:
            m = self.plan.pop(0)
            m = b.move_from_usi(m) if isinstance(m, str) else m
            if m in list(b.legal_moves):
                return m
            self.plan = []
        if rng.random() < 0.5 and not b.is_check():
            m = b.mate_move_in_1ply()
            if m:
                return m
        if self.style in ("cycle", "check") and rng.random() < 0.5:
            cyc = p05.chase4(rng, b) if self.style == "check" else p05.cycle4(rng, b)
            if cyc:
                self.plan = cyc * 4
                return self.move(b)
        return p05.seek(rng, b, self.seen, "check" if self.style == "check" else "any") if self.style != "mate" else gen.choose(rng, list(b.legal_moves), "sharp")


def show(s, rng, env, o):
    d = dict(o=o, sfen=env.render("sfen"), moves=list(env.moves))
    if rng.random() < 0.3:
        d["ansi"] = env.render("ansi")
        d["marks"] = p16.read_svg(str(env.render("svg")), 0)["marks"]
        assert env.render() is env.board
    s.emit("render", **d)


def single(s, rng):
    n = rng.choice([1, 1, 2])
    envs, players = [], []
    for o in range(n):
        envs.append(ShogiEnv())
        players.append(Player(rng))
        s.emit("new")
    over = [False] * n
    for j in range(rng.choice([20, 40, 80])):
        k = rng.randrange(n)
        env, o = envs[k], k + 1
        if over[k] or rng.random() < 0.03 or j < n and rng.random() < 0.9:
            over[k] = False
            players[k].restart()
            how = rng.random()
            if how < 0.2:
                env.reset()
                s.emit("reset", o=o)
            else:
                while True:
                    pos = gen.parse_sfen(rng.choice(p05.PERPETUAL + p05.CHASE * 2)) if rng.random() < 0.7 else gen.any_position(rng)
                    if rng.random() < 0.5:
                        pos = pos.rot()
                    pos.ply = rng.choice([1, 1, 50])
                    if gen.ok(pos) and 8 in pos.b and 24 in pos.b and not Board(gen.sfen(pos)).is_game_over():
                        break
                env.reset(sfen=gen.sfen(pos))
                s.emit("reset", o=o, ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
            show(s, rng, env, o)
        b = env.board
        r = rng.random()
        if r < 0.02:
            m = 0
        elif r < 0.05:
            m = rng.choice([rng.randrange(1, 1 << 24), rng.choice(list(b.legal_moves)) ^ (1 << rng.randrange(20))])
        else:
            m = players[k].move(b)
        try:
            out = env.step(m)
        except AssertionError:
            s.emit("step", o=o, m=m, exc="AssertionError")
            show(s, rng, env, o)
            continue
        out = outcome(out)
        over[k] = bool(out[1])
        s.emit("step", o=o, m=m, exc="", out=out)
        show(s, rng, env, o)


def packed(s, rng):
    """A start position given in packed form."""
    env = ShogiEnv()
    s.emit("new")
    b = Board()
    for _ in range(rng.randrange(40)):
        if b.is_game_over():
            break
        b.push(rng.choice(list(b.legal_moves)))
    if b.is_game_over():
        b.pop()
    pos = gen.parse_sfen(b.sfen())
    h = np.zeros(1, cshogi.HuffmanCodedPos)
    b.to_hcp(h)
    env.reset(hcp=h)
    s.emit("reset", o=1, ab=pos.b, ah=pos.h, at=pos.t, aply=1)
    show(s, rng, env, 1)
    pl = Player(rng)
    for _ in range(20):
        m = pl.move(env.board)
        out = outcome(env.step(m))
        s.emit("step", o=1, m=m, exc="", out=out)
        show(s, rng, env, 1)
        if out[1]:
            break


def vector(s, rng):
    n = rng.choice([1, 2, 3, 5])
    v = ShogiVecEnv(n)
    s.emit("vnew", n=n)
    players = [Player(rng) for _ in range(n)]
    for j in range(rng.choice([10, 20, 40])):
        if rng.random() < 0.02:
            v.reset()
            for p in players:
                p.restart()
            s.emit("vreset")
        k = n if rng.random() < 0.9 else rng.randint(1, n)
        q = [0 if rng.random() < 0.02 else players[i].move(v.envs[i].board) for i in range(k)]
        r, d, w = v.step(q)
        out = [outcome(x) for x in zip(r, d, w)]
        for i in range(k):
            if i < len(out) and out[i][1]:
                players[i].restart()
        s.emit("vstep", q=q, out=out, lens=[len(r), len(d), len(w)])
        s.emit("vrender", sfens=v.render())


def session(s, i, rng, tier):
    (single, vector, single, packed)[i % 4](s, rng)
