"""Playing moves: the whole visible state after every move, entered by every route."""
import gen
import obs
import p01
import cshogi


def checking(rng, b, lm):
    """A move that gives check, best a double one, if a few tries find one."""
    c = cshogi.Board(b.sfen())
    best = 0
    for m in rng.sample(lm, min(len(lm), 12)):
        c.push(m)
        k = c.is_check()
        two = k and len(gen.attackers(c.pieces, c.king_square(c.turn), 1 - c.turn)) > 1
        c.pop()
        if two:
            return m
        best = m if k or not best else best
    return best


def unveiling(rng):
    """A position with a move that gives double check, if a few tries find one."""
    for _ in range(15):
        pos = gen.battery(rng)
        if pos is None or not gen.ok(pos):
            continue
        pos = pos if rng.random() < 0.5 else pos.rot()
        b = cshogi.Board(gen.sfen(pos))
        lm = list(b.legal_moves)
        if not lm:
            continue
        b.push(checking(rng, b, lm))
        if len(gen.attackers(b.pieces, b.king_square(b.turn), 1 - b.turn)) > 1:
            return pos
    return gen.motif(rng)


def see(rng, b):
    d = obs.full(b)
    if d["chk"] or rng.random() < 0.1:
        d.update(lm=list(b.legal_moves), go=b.is_game_over())
    return d


def session(s, i, rng, tier):
    if i % 3 == 2:                           # double checks and other answers to lines of fire
        pos, n = unveiling(rng), rng.choice([1, 1, 2])
    elif i % 6 == 0:
        pos, n = gen.parse_sfen(gen.START), rng.randint(40, 160)
    else:
        pos, n = gen.motif(rng) if i % 9 == 1 else gen.any_position(rng), rng.choice([2, 4, 8, 20])
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply, **see(rng, b))
    style = "check" if i % 3 == 2 else rng.choice(["uniform", "sharp", "sharp", "kingwalk", "drops", "check", "check"])
    for _ in range(n):
        lm = list(b.legal_moves)
        if not lm:
            break
        m = checking(rng, b, lm) if style == "check" else gen.choose(rng, lm, style)
        k = rng.randrange(6)
        if k == 0:
            r = b.push_usi(cshogi.move_to_usi(m))
        elif k == 1:
            r = b.push_csa(cshogi.move_to_csa(m))
        elif k == 2:
            r = b.push_move16(cshogi.move16(m))
        elif k == 3:
            r = b.push_psv(cshogi.move16_to_psv(cshogi.move16(m)))
        else:
            b.push(m)
            r = m
        s.emit("push", m=m, **see(rng, b))
        if r != m:
            s.emit("wrong-return", m=m, r=r)
