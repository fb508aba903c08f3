"""Which move texts and move numbers are accepted."""
import gen
import p01
import obs


def mangle(rng, s):
    k = rng.randrange(8)
    if k == 0: return s + rng.choice(["+", "x", " ", "1", "=", "++", "\n"])
    if k == 1: return s[:-1]
    if k == 2: return s.lower() if s != s.lower() else s.upper()
    if k == 3: return " " + s
    if k == 4: return s.replace("*", "+") if "*" in s else s[2:4] + s[:2] + s[4:]
    if k == 5: return rng.choice(["", "0", "resign", "pass", "win", "P*", "P*5", "+7776FU", "%TORYO", "K*5e", "00", "000000", "0055OU", "0055TO", "5e", "0000"])
    if k == 6:
        i = rng.randrange(len(s)) if s else 0
        return s[:i] + rng.choice("0123456789abcdefghijPLNSGBRK*+FUOY") + s[i + 1:]
    return s * 2


def session(s, i, rng, tier):
    pos = gen.any_position(rng) if i % 5 else gen.parse_sfen(gen.START)
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    for step in range(rng.choice([1, 2, 3]) if i % 5 else rng.randint(5, 25)):
        lm = list(b.legal_moves)
        if i % 5 or step % 5 == 4:
            pcs = b.pieces
            c = obs.candidates(rng, b)
            pick = rng.sample(c, min(len(c), 60))
            # promotions and last-rank moves are the delicate part: keep all of them
            pick += [x for x in c if x not in pick and x[1] % 9 in (0, 1, 7, 8)][:40]
            tu = [obs.cand_usi(x) for x in pick]
            tc = [obs.cand_csa(x, pcs) for x in pick]
            for base in rng.sample(tu, min(8, len(tu))):
                tu.append(mangle(rng, base))
            for base in rng.sample(tc, min(8, len(tc))):
                tc.append(mangle(rng, base))
            ints = [obs.cand_int(x, pcs) for x in pick]
            for m in rng.sample(ints, min(10, len(ints))) + rng.sample(lm, min(5, len(lm))):
                k = rng.randrange(5)
                ints.append(m ^ (1 << 14) if k == 0 else (m & ~(15 << 20)) | (rng.randrange(16) << 20) if k == 1 else
                            (m & ~(15 << 16)) | (rng.randrange(16) << 16) if k == 2 else
                            (m & ~(127 << 7)) | (rng.randrange(128) << 7) if k == 3 else (m & ~127) | rng.randrange(128))
            ints += [0, 129] + rng.sample(lm, min(3, len(lm)))
            s.emit("obs", ausi=[dict(s=x, r=b.move_from_usi(x)) for x in tu], acsa=[dict(s=x, r=b.move_from_csa(x)) for x in tc],
                   legal=[dict(m=m, r=b.is_legal(m)) for m in ints],
                   pleg=[m for m in b.pseudo_legal_moves if b.pseudo_legal_move_is_legal(m)] if i % 5 else lm)
            # push_* on a possibly illegal text: moves only if legal
            x = rng.choice(tu + tc)
            usi = x in tu
            r = b.push_usi(x) if usi else b.push_csa(x)
            if r:
                s.emit("push", m=r, **obs.basic(b))
                lm = list(b.legal_moves)
            else:
                s.emit("obs", ausi=[dict(s=x, r=0)] if usi else [], acsa=[] if usi else [dict(s=x, r=0)], **obs.basic(b))
        if not lm:
            break
        m = gen.choose(rng, lm, "sharp")
        b.push(m)
        s.emit("push", m=m)
