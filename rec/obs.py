"""Observations of a real Board, one function per observed field."""
import cshogi
import numpy as np
from cshogi import Board
from gen import *
import gen
from common import h64

REP = {cshogi.REPETITION_DRAW: "DRAW", cshogi.REPETITION_WIN: "WIN", cshogi.REPETITION_LOSE: "LOSE",
       cshogi.REPETITION_SUPERIOR: "SUPERIOR", cshogi.REPETITION_INFERIOR: "INFERIOR", cshogi.NOT_REPETITION: "NONE"}


def limbs(x):
    return [(x >> 48) & 0xffff, (x >> 32) & 0xffff, (x >> 16) & 0xffff, x & 0xffff]


def basic(b):
    return dict(b=b.pieces, h=[list(x) for x in b.pieces_in_hand], t=b.turn, ply=b.move_number, chk=b.is_check(),
                ks=[b.king_square(0), b.king_square(1)])


def full(b):
    d = basic(b)
    d.update(hist=list(b.history), peek=b.peek(), pc=[b.piece(s) for s in range(81)], sfen=b.sfen(), hash=h64(b.zobrist_hash()))
    return d


def pack(b, what):
    a = np.zeros(1, dtype=cshogi.HuffmanCodedPos if what == "hcp" else cshogi.PackedSfen)
    guard = np.full(64, 0xA5, np.uint8)
    buf = guard[16:48]
    buf[:] = 0x5A
    try:
        (b.to_hcp if what == "hcp" else b.to_psfen)(buf)
    except RuntimeError:
        if not (np.all(guard[:16] == 0xA5) and np.all(guard[48:] == 0xA5)):
            return [-1]
        return []
    if not (np.all(guard[:16] == 0xA5) and np.all(guard[48:] == 0xA5)):
        return [-1]
    return buf.tolist()


def mattr(b, m):
    drop = cshogi.move_is_drop(m)
    m16 = cshogi.move16(m)
    psv = cshogi.move16_to_psv(m16)
    built = (b.drop_move(cshogi.move_to(m), cshogi.move_from(m) - 80) if drop else
             b.move(cshogi.move_from(m), cshogi.move_to(m), cshogi.move_is_promotion(m)))
    return [m, cshogi.move_to(m), cshogi.move_from(m), cshogi.move_cap(m), int(cshogi.move_is_promotion(m)), int(drop),
            cshogi.move_from_piece_type(m), cshogi.move_drop_hand_piece(m) if drop else -1, m16, psv,
            cshogi.move16_from_psv(psv), cshogi.move_rotate(m), cshogi._cshogi._dlshogi_make_move_label(m, 0),
            cshogi._cshogi._dlshogi_make_move_label(m, 1), b.move_from_move16(m16), b.move_from_psv(psv), built]


def ones(a):
    """Flat indexes of the ones; -1 marks any value other than 0 and 1."""
    f = np.asarray(a).reshape(-1)
    r = np.nonzero(f == 1)[0].tolist()
    if np.count_nonzero(f) != len(r):
        r.append(-1)
    return r


def whole(a):
    """Indexes of planes that are all 1; -1 marks a plane that is neither all 0 nor all 1."""
    out = []
    for i, p in enumerate(a.reshape(a.shape[0], 81)):
        if np.all(p == 1):
            out.append(i)
        elif np.any(p != 0):
            out.append(-1)
    return out


def candidates(rng, b):
    """Moves that look like moves here: pieces of both sides along their lines (promoting or not), drops anywhere."""
    pcs = b.pieces
    hands = b.pieces_in_hand
    t = b.turn
    out = []
    for s, p in enumerate(pcs):
        if not p:
            continue
        c = 1 if p > 16 else 0
        if c != t and rng.random() < 0.9:
            continue
        pt = p & 15
        f, r = divmod(s, 9)
        sign = 1 if c == 0 else -1
        tos = []
        for df, dr in STEP.get(pt, ()):
            tos.append((f + df * sign, r + dr * sign))
        for df, dr in SLIDE.get(pt, ()):
            ff, rr = f + df * sign, r + dr * sign
            hits = 0
            while 0 <= ff < 9 and 0 <= rr < 9 and hits < 2:
                tos.append((ff, rr))
                hits += bool(pcs[9 * ff + rr])
                ff += df * sign
                rr += dr * sign
        tos.append((rng.randrange(9), rng.randrange(9)))
        for ff, rr in tos:
            if 0 <= ff < 9 and 0 <= rr < 9:
                for pro in (0, 1):
                    out.append((s, 9 * ff + rr, pro))
    for pt in range(1, 8):
        have = hands[t][SLOT[pt]]
        for s in range(81):
            if have or rng.random() < 0.02:
                out.append((80 + pt, s, 0))
    return out


USI_PT = " PLNSBRG"


def usq(s):
    return "123456789"[s // 9] + "abcdefghi"[s % 9]


def csq(s):
    return "123456789"[s // 9] + "123456789"[s % 9]


def cand_usi(c):
    return USI_PT[c[0] - 80] + "*" + usq(c[1]) if c[0] >= 81 else usq(c[0]) + usq(c[1]) + ("+" if c[2] else "")


CSA_PT = ["", "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY", "XX", "XX", "XX", "XX", "XX", "XX", "XX", "XX"]


def cand_csa(c, pcs):
    if c[0] >= 81:
        return "00" + csq(c[1]) + CSA_PT[c[0] - 80]
    pt = pcs[c[0]] & 15
    return csq(c[0]) + csq(c[1]) + CSA_PT[pt + (8 if c[2] else 0)]


def cand_int(c, pcs):
    if c[0] >= 81:
        return c[1] + 128 * c[0]
    return c[1] + 128 * c[0] + (1 << 14) * c[2] + ((pcs[c[0]] & 15) << 16) + ((pcs[c[1]] & 15) << 20)
