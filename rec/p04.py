"""Undo, passes, copies, re-set boards: any interleaving over several Board objects."""
import copy
import numpy as np
import gen
import obs
import p01
import cshogi
from cshogi import Board


def back(rng, b, lm, hist):
    """A move that takes the mover's last move back over the board, or one that can be taken back."""
    if len(hist) >= 2 and rng.random() < 0.85:
        m = hist[-2]
        r = [x for x in lm if gen.mv_from(x) == gen.mv_to(m) and gen.mv_to(x) == gen.mv_from(m) and not gen.mv_pro(x)]
        if r:
            return r[0]
    q = [x for x in lm if gen.mv_from(x) < 81 and not gen.mv_cap(x) and not gen.mv_pro(x) and gen.mv_pt(x) >= 4]
    return rng.choice(q or lm)


def session(s, i, rng, tier):
    boards, base = {}, {}
    cyclic = i % 3 == 0

    def look(b):
        d = obs.full(b)
        if rng.random() < (0.6 if cyclic else 0.15):
            d["rep"] = [dict(n=q, r=obs.REP[b.is_draw(q) if q else b.is_draw()]) for q in (0, rng.randint(4, 20))]
        return d

    def new(o):
        pos = gen.any_position(rng) if rng.random() < 0.7 else gen.parse_sfen(gen.START)
        line = []
        if o in boards and rng.random() < 0.6:
            b = boards[o]
            k = rng.randrange(7)
            packed = obs.pack(Board(gen.sfen(pos)), "hcp" if k == 4 else "psf") if k in (4, 5) else []
            if k in (4, 5) and not packed:
                k = 1
            if k == 0:
                b.reset()
                pos = gen.parse_sfen(gen.START)
            elif k == 1:
                b.set_sfen(gen.sfen(pos))
            elif k == 2:
                b.set_position("sfen " + gen.sfen(pos))
            elif k in (4, 5):
                (b.set_hcp if k == 4 else b.set_psfen)(np.array(packed, np.uint8))
                pos.ply = 1
            elif k == 6:
                t = Board(gen.sfen(pos))
                for _ in range(rng.randint(1, 4)):
                    lm = list(t.legal_moves)
                    if not lm:
                        break
                    line.append(rng.choice(lm))
                    t.push(line[-1])
                b.set_position("sfen " + gen.sfen(pos) + "".join((" moves " if z == 0 else " ") + cshogi.move_to_usi(m) for z, m in enumerate(line)))
            else:
                b.set_pieces(list(pos.b), (list(pos.h[0]), list(pos.h[1])))
                pos.t, pos.ply = b.turn, b.move_number
                if not gen.ok(pos):
                    b.set_sfen(gen.sfen(gen.parse_sfen(gen.START)))
                    pos = gen.parse_sfen(gen.START)
        else:
            b = p01.setup(s, rng, pos)
        boards[o] = b
        base[o] = list(line)
        s.emit("set", o=o, ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply, **({} if line else look(b)))
        for z, m in enumerate(line):    # moves given along with the position, seen from the outside only at the end
            s.emit("push", o=o, m=m, **(look(b) if z == len(line) - 1 else {}))

    new(1)
    big = i % 7 == 0
    for _ in range(rng.randint(150, 300) if big else rng.randint(10, 60)):
        o = rng.choice(sorted(boards))
        b = boards[o]
        k = rng.random()
        deep = big and k < 0.75
        if k < 0.45 or deep:
            lm = list(b.legal_moves)
            if not lm:
                continue
            m = back(rng, b, lm, base[o]) if cyclic and rng.random() < 0.9 else gen.choose(rng, lm, rng.choice(["sharp", "uniform", "drops", "shuffle"]))
            b.push(m)
            base[o].append(m)
            s.emit("push", o=o, m=m, **look(b))
        elif k < 0.78:
            for _ in range(rng.choice([1, 1, 2, 5, 30])):
                if not base[o]:
                    break
                m = base[o].pop()
                if m == 129:
                    b.pop_pass()
                    s.emit("unpass", o=o, **look(b))
                else:
                    r = b.pop()
                    s.emit("pop", o=o, ret=r, **look(b))
            if rng.random() < 0.3:
                s.emit("obs", o=o, lm=list(b.legal_moves))
        elif k < 0.84:
            if not b.is_check():
                b.push_pass()
                base[o].append(129)
                s.emit("pass", o=o, **look(b))
        elif k < 0.94:
            n = rng.randint(1, 3)
            how = rng.randrange(3)
            c = b.copy() if how == 0 else copy.copy(b) if how == 1 else Board(board=b)
            boards[n] = c
            base[n] = list(base[o])
            s.emit("copy", o=n, **{"from": o}, **look(c))
            s.emit("obs", o=o, **look(b))
        elif k < 0.97:
            new(rng.randint(1, 3))
        else:
            b.move_number = v = rng.randint(1, 400)
            s.emit("ply", o=o, v=v, **look(b))
    # every board is what it should be, and unwinds to where it began
    for o in sorted(boards):
        b = boards[o]
        s.emit("obs", o=o, lm=list(b.legal_moves), **look(b))
        while base[o]:
            m = base[o].pop()
            if m == 129:
                b.pop_pass()
                s.emit("unpass", o=o, **look(b))
            else:
                s.emit("pop", o=o, ret=b.pop(), **look(b))
