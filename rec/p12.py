"""Feature planes."""
import numpy as np
import cshogi
import gen
import obs
import p01
import p07


def session(s, i, rng, tier):
    pos = p07.entering(rng) if i % 4 == 1 else gen.any_position(rng) if i % 4 else gen.parse_sfen(gen.START)
    if i % 4 == 1 and rng.random() < 0.5:
        pos = pos.rot()
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    for j in range(rng.choice([1, 2, 4]) if i % 4 else rng.randint(5, 40)):
        if i % 4 or j % 5 == 0:
            pp = np.zeros((28, 9, 9), np.float32)
            b.piece_planes(pp)
            pr = np.zeros((28, 9, 9), np.float32)
            b.piece_planes_rotate(pr)
            f1 = np.full((62, 9, 9), 0.5, np.float32)
            f2 = np.full((57, 9, 9), 0.5, np.float32)
            cshogi._cshogi._dlshogi_use_nyugyoku_features(False)
            n1 = cshogi._cshogi._dlshogi_FEATURES1_NUM
            b._dlshogi_make_input_features(f1, f2)
            cshogi._cshogi._dlshogi_use_nyugyoku_features(True)
            f2n = np.zeros((57 + 62, 9, 9), np.float32)
            f1n = np.zeros((62, 9, 9), np.float32)
            b._dlshogi_make_input_features(f1n, f2n)
            cshogi._cshogi._dlshogi_use_nyugyoku_features(False)
            s.emit("obs", pp=obs.ones(pp), ppr=obs.ones(pr), f1=obs.ones(f1), f2=obs.whole(f2), f2n=obs.whole(f2n))
        lm = list(b.legal_moves)
        if not lm:
            break
        m = gen.choose(rng, lm, "sharp")
        b.push(m)
        s.emit("push", m=m)
