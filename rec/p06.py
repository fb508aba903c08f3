"""Position keys and opening-book keys."""
import gen
import obs
import p01
from cshogi import Board
from common import h64


def keys(b):
    return dict(hash=h64(b.zobrist_hash()), bk=obs.limbs(b.book_key()))


def emit_set(s, rng, pos, o=1, via=None):
    b = p01.setup(s, rng, pos, via)
    s.emit("set", o=o, ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply, **keys(b))
    return b


def neighbours(rng, pos):
    """Positions that differ in one feature."""
    out = []
    q = pos.copy(); q.t = 1 - q.t; out.append(q)
    q = pos.copy(); q.ply = pos.ply + 7; out.append(q)             # same position, other move number
    for c in (0, 1):
        for k in range(7):
            q = pos.copy()
            if q.h[c][k] and rng.random() < 0.5:
                q.h[c][k] -= 1
            else:
                q.h[c][k] += 1
            if q.h[c][k] <= (18, 4, 4, 4, 4, 2, 2)[k]:
                out.append(q)
            if q.h[c][k] and rng.random() < 0.5 and q.h[1 - c][k] < (18, 4, 4, 4, 4, 2, 2)[k]:
                q = q.copy(); q.h[c][k] -= 1; q.h[1 - c][k] += 1
                out.append(q)
    occ = [x for x in range(81) if pos.b[x]]
    for x in rng.sample(occ, min(len(occ), 6)):
        q = pos.copy(); pc = q.b[x]
        if pc & 15 != 8:
            q2 = pos.copy(); q2.b[x] = pc + 16 if pc < 16 else pc - 16; out.append(q2)
            q2 = pos.copy(); q2.b[x] = 0; out.append(q2)
        for y in (x + 1, x - 1, x + 9, x - 9):
            if 0 <= y < 81 and not pos.b[y]:
                q2 = pos.copy(); q2.b[y], q2.b[x] = pc, 0; out.append(q2)
        if pc & 15 in (1, 2, 3, 4, 5, 6):
            q2 = pos.copy(); q2.b[x] = pc + 8; out.append(q2)
    rng.shuffle(out)
    return out


def session(s, i, rng, tier):
    pos = gen.any_position(rng) if i % 4 else gen.parse_sfen(gen.START)
    b = emit_set(s, rng, pos)
    if i % 2:
        for q in neighbours(rng, pos)[:25]:
            emit_set(s, rng, q, o=2)
        emit_set(s, rng, pos, o=2, via="pieces")
        emit_set(s, rng, pos, o=2, via="set_sfen")
        b2 = b.copy()
        s.emit("obs", o=1, **keys(b2))
    stack = []
    for _ in range(rng.choice([3, 10, 30]) if i % 4 else 60):
        lm = list(b.legal_moves)
        r = rng.random()
        if (not lm or r < 0.2) and stack:
            m = stack.pop()
            if m == 129:
                b.pop_pass(); s.emit("unpass", **keys(b))
            else:
                b.pop(); s.emit("pop", **keys(b))
            continue
        if not lm:
            break
        if r < 0.25 and not b.is_check():
            b.push_pass(); stack.append(129); s.emit("pass", **keys(b))
            continue
        k = b.book_key()
        s.emit("obs", bka=[dict(m=m, k=obs.limbs(b.book_key_after(k, m))) for m in rng.sample(lm, min(6, len(lm)))])
        m = gen.choose(rng, lm, rng.choice(["sharp", "drops", "shuffle"]))
        b.push(m); stack.append(m)
        s.emit("push", m=m, **keys(b))
        if rng.random() < 0.15:      # the same position set up from scratch has the same keys
            f = Board(b.sfen())
            s.emit("obs", **keys(f))
    # transposition: two orders of the same four moves
    for _ in range(3):
        lm = list(b.legal_moves)
        if not lm: break
        m1 = rng.choice(lm); b.push(m1)
        ln = list(b.legal_moves)
        if not ln: b.pop(); break
        n1 = rng.choice(ln); b.push(n1)
        lo = list(b.legal_moves)
        if not lo: b.pop(); b.pop(); break
        m2 = rng.choice(lo); b.push(m2)
        for m in (m1, n1, m2):
            pass
        end = keys(b)
        for _ in range(3): b.pop()
        s.emit("push", m=m1); s.emit("push", m=n1); s.emit("push", m=m2, **end)
        for _ in range(3): s.emit("pop")
        seq, okk = [], True
        for m in (m2, n1, m1):
            if m in list(b.legal_moves):
                b.push(m); seq.append(m)
            else:
                okk = False
                break
        for k, m in enumerate(seq):
            if okk and k == 2:
                s.emit("push", m=m, **keys(b))
            else:
                s.emit("push", m=m)
        for _ in seq:
            b.pop(); s.emit("pop")
