"""Legal move generation: walks from every kind of position, legal moves observed at each."""
import cshogi
import gen
from cshogi import Board


def setup(s, rng, pos, via=None, o=1):
    via = via or rng.choice(["sfen", "set_sfen", "pieces", "position"])
    sf = gen.sfen(pos)
    if via == "sfen":
        b = Board(sf)
    elif via == "set_sfen":
        b = Board()
        b.set_sfen(sf)
    elif via == "position":
        b = Board()
        b.set_position("sfen " + sf)
    else:
        b = Board()
        b.turn = pos.t
        b.move_number = pos.ply
        b.set_pieces(list(pos.b), (list(pos.h[0]), list(pos.h[1])))
    return b


def state(b):
    return dict(b=b.pieces, h=[list(x) for x in b.pieces_in_hand], t=b.turn)


def session(s, i, rng, tier):
    if i % 6 == 0:
        pos, n = gen.parse_sfen(gen.START), rng.randint(30, 90)
    elif i % 6 == 1:
        pos, n = gen.motif(rng), rng.choice([1, 1, 2, 3])
    else:
        pos, n = gen.any_position(rng), rng.choice([1, 1, 2, 3, 5, 8])
    b = setup(s, rng, pos)
    lm = list(b.legal_moves)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply, lm=lm, go=b.is_game_over(), chk=b.is_check())
    style = rng.choice(["uniform", "sharp", "shuffle", "kingwalk", "drops"])
    for _ in range(n):
        if not lm:
            break
        m = gen.choose(rng, lm, style)
        b.push(m)
        lm = list(b.legal_moves)
        s.emit("push", m=m, lm=lm, go=b.is_game_over(), chk=b.is_check())
