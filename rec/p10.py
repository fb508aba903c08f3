"""Position formats: writing, reading back, and malformed input."""
import numpy as np
import gen
import obs
import p01
import cshogi
from cshogi import Board


def shuffle_hand(rng, sf):
    f = sf.split(" ")
    if f[2] == "-":
        return sf
    toks, cur = [], ""
    for ch in f[2]:
        cur += ch
        if not ch.isdigit():
            toks.append(cur)
            cur = ""
    rng.shuffle(toks)
    f[2] = "".join(toks)
    return " ".join(f)


def mangle_sfen(rng, sf):
    k = rng.randrange(9)
    i = rng.randrange(len(sf))
    if k == 0: return sf[:i] + rng.choice("xyzXQ?*#_.,") + sf[i + 1:]
    if k == 1: return sf.replace(" b ", " x ").replace(" w ", " x ")
    if k == 2: return rng.choice(["", " ", "abc", "startpos", "sfen " + sf, "9/9", "9/9/9/9/9/9/9/9/9 b"])
    if k == 3: return sf[:i]
    if k == 4: return sf[:i] + sf[i + 1:]
    if k == 5: return sf[:i] + rng.choice("PLNSGBRKplnsgbrk+/19 -") + sf[i:]
    if k == 6: return sf.split("/")[0] + "P" * rng.randint(1, 9) + "/" + "/".join(sf.split("/")[1:])
    if k == 7: return shuffle_hand(rng, sf)
    f = sf.split(" ")
    if len(f) == 4:
        f[3] = rng.choice(["1", "17", "250", "0", "x", "-3", ""])
    return " ".join(f)


def bits(a):
    return [(a[i // 8] >> (i % 8)) & 1 for i in range(256)]


def unbits(q):
    return np.array([sum(q[8 * i + k] << k for k in range(8)) for i in range(32)], np.uint8)


def session(s, i, rng, tier):
    if i % 3 == 2:      # malformed and unusual input
        b = Board()
        for _ in range(12):
            pos = gen.any_position(rng)
            sf = gen.sfen(pos)
            if rng.random() < 0.6:
                t = mangle_sfen(rng, sf)
                exc = ""
                how = rng.randrange(2)
                try:
                    if how == 0:
                        b.set_sfen(t)
                    else:
                        b = Board(t)
                except Exception as e:
                    exc = type(e).__name__
                d = dict(rb=b.pieces, rh=[list(x) for x in b.pieces_in_hand], rt=b.turn, rply=b.move_number) if not exc else {}
                s.emit("raw", fmt="sfen", **{"in": list(t)}, rexc=exc, **d)
            else:
                fmt = rng.choice(["hcp", "psf"])
                src = Board(sf)
                q = obs.pack(src, fmt)
                if not q:
                    continue
                q = bits(q)
                k = rng.randrange(4)
                if k == 0:
                    v = rng.randrange(81, 128)
                    o = rng.choice([1, 8])
                    q[o:o + 7] = [(v >> z) & 1 for z in range(7)]
                elif k == 1:
                    q[8:15] = q[1:8]
                elif k == 2:
                    for _ in range(rng.randint(1, 6)):
                        z = rng.randrange(15, 256)
                        q[z] ^= 1
                else:
                    q = [rng.randrange(2) for _ in range(256)]
                a = unbits(q)
                exc = ""
                try:
                    (b.set_hcp if fmt == "hcp" else b.set_psfen)(a)
                except Exception as e:
                    exc = type(e).__name__
                s.emit("raw", fmt=fmt, **{"in": a.tolist()}, rexc=exc)
            b = Board()
        return
    pos = gen.any_position(rng) if i % 3 else gen.parse_sfen(gen.START)
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    hist = []
    sf0 = b.sfen()
    for j in range(rng.choice([1, 3, 6]) if i % 3 else rng.randint(10, 60)):
        if i % 3 or j % 6 == 0:
            sf = b.sfen()
            s.emit("obs", sfen=sf, csapos=b.csa_pos(), hcp=obs.pack(b, "hcp"), psf=obs.pack(b, "psf"), rot=cshogi.rotate_sfen(sf),
                   b=b.pieces, h=[list(x) for x in b.pieces_in_hand])
            st = dict(ab=b.pieces, ah=[list(x) for x in b.pieces_in_hand], at=b.turn)
            via = rng.randrange(7)
            c = Board() if rng.random() < 0.5 else Board(gen.sfen(gen.any_position(rng)))
            ply = b.move_number
            q = obs.pack(b, "hcp")
            if via in (0, 1) and not q:
                via = 2
            if via == 0:
                a = np.array(obs.pack(b, "hcp"), np.uint8); c.set_hcp(a); ply = 1
            elif via == 1:
                a = np.array(obs.pack(b, "psf"), np.uint8); c.set_psfen(a); ply = 1
            elif via == 2:
                c.set_sfen(shuffle_hand(rng, sf))
            elif via == 3:
                c = Board(sf)
            elif via == 4:
                c.turn = b.turn; c.move_number = ply
                c.set_pieces(b.pieces, b.pieces_in_hand)
            elif via == 5:
                c.set_position("sfen " + sf0 + (" moves " + " ".join(cshogi.move_to_usi(m) for m in hist) if hist else ""))
                # the same game, so the same history
                s.emit("obs", hist=list(c.history), **obs.basic(c))
                c = Board(sf)
            else:
                c.set_sfen(cshogi.rotate_sfen(cshogi.rotate_sfen(sf)))
            s.emit("set", o=2, aply=ply, lm=list(c.legal_moves), **st, **obs.basic(c))
        lm = list(b.legal_moves)
        if not lm:
            break
        m = gen.choose(rng, lm, "sharp")
        b.push(m)
        hist.append(m)
        s.emit("push", m=m)
