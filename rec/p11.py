"""Move encodings and accessors, for every legal move."""
import cshogi
import gen
import obs
import p01


def session(s, i, rng, tier):
    pos = gen.any_position(rng) if i % 4 else gen.parse_sfen(gen.START)
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    for _ in range(rng.choice([1, 2, 4]) if i % 4 else rng.randint(5, 30)):
        lm = list(b.legal_moves)
        if not lm:
            break
        q = rng.sample(lm, min(len(lm), 60))
        s.emit("obs", mattr=[obs.mattr(b, m) for m in q], usi=[dict(m=m, s=cshogi.move_to_usi(m)) for m in q],
               csa=[dict(m=m, s=cshogi.move_to_csa(m)) for m in q])
        m = gen.choose(rng, lm, "sharp")
        b.push(m)
        s.emit("push", m=m)
