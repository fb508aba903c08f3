"""Repetition: games that come back to earlier positions, with perpetual checks, captures and re-drops, passes, undo."""
import gen
import obs
import p01
import cshogi
from obs import REP

# positions in which one side can check for ever, or pieces can be exchanged around a cycle
PERPETUAL = [
    "4k4/9/9/9/9/9/9/9/R3K4 b - 1", "4k4/9/9/9/9/9/9/1R7/4K4 b G 1", "3gk4/9/9/9/9/9/9/6B2/4K3R b - 1",
    "8k/9/7+R1/9/9/9/9/9/K8 b - 1", "7k1/9/9/9/9/9/9/1+r7/K7R b - 1", "4k4/9/9/9/4+B4/9/9/9/4K4 b P 1",
    "4k4/4g4/9/9/4R4/9/9/4G4/4K4 b GS 1", "k8/9/9/9/9/9/9/9/8K b 2R2B 1", "4k4/9/9/9/9/9/9/9/4K4 b RG 1",
    "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1", "4k4/9/9/3+R5/9/9/3+r5/9/4K4 b - 1",
    "4k4/4p4/9/9/9/4R4/9/9/4K4 b P 1", "4kr3/9/9/9/9/9/9/9/4K4 b R 1",
]


def seek(rng, b, seen, style):
    """Mostly moves that go back to a position that occurred, or keep checking."""
    lm = list(b.legal_moves)
    if not lm:
        return None
    r = rng.random()
    if r < 0.55:
        back, chk = [], []
        for m in rng.sample(lm, min(len(lm), 40)):
            b.push(m)
            k = b.sfen().rsplit(" ", 1)[0]
            if k in seen or k.split(" ")[0] in seen:
                back.append(m)
            if b.is_check():
                chk.append(m)
            b.pop()
        if chk and style == "check" and b.turn == 0 and rng.random() < 0.9:
            both = [m for m in chk if m in back]
            return rng.choice(both or chk)
        if back:
            return rng.choice(back)
    return gen.choose(rng, lm, "shuffle" if r < 0.9 else "sharp")


def rev(m):
    """The move that takes a plain board move back."""
    return ((m & 127) << 7) | ((m >> 7) & 127) | (m & (15 << 16))


def plain(m):
    return gen.mv_from(m) < 81 and not gen.mv_pro(m) and not gen.mv_cap(m)


def cycle4(rng, b):
    """Four moves that lead back to the position, or None."""
    for _ in range(6):
        lm = [m for m in b.legal_moves if plain(m)]
        if not lm:
            return None
        m = rng.choice(lm)
        b.push(m)
        ln = [x for x in b.legal_moves if plain(x)]
        rng.shuffle(ln)
        for n in ln[:8]:
            b.push(n)
            if rev(m) in list(b.legal_moves):
                b.push(rev(m))
                ok = rev(n) in list(b.legal_moves)
                b.pop()
                if ok:
                    b.pop()
                    b.pop()
                    return [m, n, rev(m), rev(n)]
            b.pop()
        b.pop()
    return None


CHASE = ["4k4/9/9/9/9/9/9/9/K3R4 w - 1", "4k4/9/9/9/4+R4/9/9/9/K8 w Pp 1", "9/4k4/9/9/9/3GR4/9/9/4K4 w N 1", "4k4/9/9/9/9/9/9/9/K2R5 b - 1", "4k4/9/9/9/9/9/9/9/K2R5 b 2P2p 1", "3pk4/9/9/3R5/9/9/9/9/4K4 b - 1", "4k4/9/3+R5/9/9/9/9/9/4K4 b - 1",
         "lnsgk1snl/1r4gb1/pppppp1pp/6p2/9/2P4R1/PP1PPPP1P/1B7/LNSGKGSNL b Pp 1", "9/4k4/9/9/9/3R5/9/9/4K4 b GN 1", "k8/9/9/9/4B4/9/9/9/8K b - 1", "1k7/9/9/9/9/9/9/R8/8K b - 1"]


def chase4(rng, b):
    """Four moves that lead back to the position, two of them checks by the same piece."""
    if b.is_check():
        for n in [x for x in b.legal_moves if plain(x)]:
            b.push(n)
            for m in [x for x in b.legal_moves if plain(x)]:
                b.push(m)
                if b.is_check() and rev(n) in list(b.legal_moves):
                    b.push(rev(n))
                    ok = rev(m) in list(b.legal_moves)
                    b.pop()
                    if ok:
                        b.pop()
                        b.pop()
                        return [n, m, rev(n), rev(m)]
                b.pop()
            b.pop()
        return None
    lm = [m for m in b.legal_moves if plain(m)]
    rng.shuffle(lm)
    for m in lm:
        b.push(m)
        if b.is_check():
            for n in [x for x in b.legal_moves if plain(x)]:
                b.push(n)
                if rev(m) in list(b.legal_moves):
                    b.push(rev(m))
                    ok = b.is_check() and rev(n) in list(b.legal_moves)
                    b.pop()
                    if ok:
                        b.pop()
                        b.pop()
                        return [m, n, rev(m), rev(n)]
                b.pop()
        b.pop()
    return None


def cycle6(rng, b):
    """Drop, capture by a line piece, two quiet returns: the board comes back, the hands do not."""
    drops = [m for m in b.legal_moves if gen.mv_from(m) >= 81]
    rng.shuffle(drops)
    for d in drops[:40]:
        b.push(d)
        caps = [m for m in b.legal_moves if gen.mv_cap(m) and gen.mv_to(m) == gen.mv_to(d) and not gen.mv_pro(m)]
        for c in caps:
            b.push(c)
            k1 = [m for m in b.legal_moves if plain(m)]
            rng.shuffle(k1)
            for a in k1[:4]:
                b.push(a)
                f, to, pt = gen.mv_from(c), gen.mv_to(c), c & (15 << 16)
                us = [m for m in b.legal_moves if plain(m) and gen.mv_from(m) == to and gen.mv_to(m) != f]
                rng.shuffle(us)
                for u in us[:4]:
                    b.push(u)
                    if rev(a) in list(b.legal_moves):
                        b.push(rev(a))
                        last = pt | (gen.mv_to(u) << 7) | f
                        ok = last in list(b.legal_moves)
                        b.pop()
                        if ok:
                            for _ in range(4):
                                b.pop()
                            return [d, c, a, u, rev(a), last]
                    b.pop()
                b.pop()
            b.pop()
        b.pop()
    return None


WALKS = {3: [(0, 0), (1, 0), (0, 1)], 4: [(0, 0), (1, 0), (1, 1), (0, 1)], 5: [(0, 0), (1, 0), (2, 0), (1, 1), (0, 1)], 6: [(0, 0), (1, 0), (2, 0), (2, 1), (1, 1), (0, 1)],
         7: [(0, 0), (1, 0), (2, 0), (2, 1), (1, 2), (0, 2), (0, 1)], 8: [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2), (0, 1)],
         9: [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2), (1, 1), (0, 1)]}


def long(s, i, rng):
    """The two kings walk round loops of different lengths: the position comes back only after a long way."""
    a, c = rng.sample(sorted(WALKS), 2)
    pos = gen.Pos(t=rng.randrange(2), ply=rng.choice([1, 100]))
    off = [(rng.randrange(6), 6), (rng.randrange(6), 0)]
    loops = [[9 * (f + off[z][0]) + r + off[z][1] for f, r in WALKS[n]] for z, n in ((0, a), (1, c))]
    for z in (0, 1):
        k = rng.randrange(len(loops[z]))
        loops[z] = loops[z][k:] + loops[z][:k]
        if rng.random() < 0.5:
            loops[z] = loops[z][:1] + loops[z][:0:-1]
        pos.b[loops[z][0]] = 8 + 16 * z
        pos.h[z] = [rng.choice([0, 1]) for _ in range(7)]
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    at = [0, 0]
    need = a * c
    while need % 2 == 0 and (need // 2) % a == 0 and (need // 2) % c == 0:
        need //= 2
    if need % 3 == 0 and (need // 3) % a == 0 and (need // 3) % c == 0:
        need //= 3
    for j in range(2 * need + rng.choice([-1, 0, 0, 1, 4])):
        z = b.turn
        at[z] = (at[z] + 1) % len(loops[z])
        f, to = loops[z][at[z] - 1], loops[z][at[z]]
        m = (8 << 16) | (f << 7) | to
        near = 2 * need - j < 8
        if near or rng.random() < 0.2:
            s.emit("obs", mrep=[dict(n=n, m=m, r=REP[b.move_is_draw(m, n or None)]) for n in (0, 2 * need - 2, 2 * need, 2 * need + 2)])
        b.push(m)
        s.emit("push", m=m, rep=[dict(n=n, r=REP[b.is_draw(n) if n else b.is_draw()]) for n in ((0, 2 * need - 2, 2 * need - 1, 2 * need, 2 * need + 1) if near else (0,))])


def session(s, i, rng, tier):
    if i % 20 == 7:
        return long(s, i, rng)
    k = i % 4
    if k == 0:
        pos = gen.any_position(rng)
    elif k == 1:
        pos = gen.position(rng, "sparse")
    else:
        pos = gen.parse_sfen(rng.choice(PERPETUAL + CHASE))
        if not gen.ok(pos):
            pos = gen.position(rng, "sparse")
        if rng.random() < 0.3:
            pos = gen.mutate(rng, pos)
        if rng.random() < 0.5:
            pos = pos.rot()
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    style = "check" if rng.random() < 0.6 else "any"
    seen = set()
    hist = []
    plan = []

    def remember():
        k = b.sfen().rsplit(" ", 1)[0]
        seen.add(k)
        seen.add(k.split(" ")[0])
    remember()
    n = rng.choice([8, 14, 20, 30, 60])
    limit = rng.choice([0, 0, 4, 5, 6, 8, 12])
    for j in range(n):
        r = rng.random()
        if r < 0.03 and not b.is_check():
            b.push_pass()
            hist.append(129)
            s.emit("pass", rep=[dict(n=0, r=REP[b.is_draw()])])
            continue
        if r < 0.06 and hist:
            m = hist.pop()
            if m == 129:
                b.pop_pass()
                s.emit("unpass", rep=[dict(n=0, r=REP[b.is_draw()])])
            else:
                b.pop()
                s.emit("pop", rep=[dict(n=0, r=REP[b.is_draw()])])
            continue
        if r < 0.09:
            b = b.copy()
        if not plan and rng.random() < 0.25:
            cyc = (cycle6(rng, b) if rng.random() < 0.4 else chase4(rng, b) if rng.random() < 0.5 else None) or cycle4(rng, b)
            if cyc:
                plan = cyc * rng.choice([1, 2, 3]) + cyc[:rng.randrange(len(cyc))]
        if plan:
            m = plan.pop(0)
            if m not in list(b.legal_moves):
                plan = []
                continue
        else:
            m = seek(rng, b, seen, style)
        if m is None:
            break
        pre = dict(n=limit, m=m, r=REP[b.move_is_draw(m, limit or None)])
        lm = list(b.legal_moves)
        others = [dict(n=0, m=x, r=REP[b.move_is_draw(x)]) for x in rng.sample(lm, min(len(lm), 3))]
        s.emit("obs", mrep=[pre, dict(n=0, m=m, r=REP[b.move_is_draw(m)])] + others)
        b.push(m)
        hist.append(m)
        remember()
        s.emit("push", m=m, rep=[dict(n=0, r=REP[b.is_draw()])] + [dict(n=q, r=REP[b.is_draw(q)]) for q in (4, 5, 6, 8, 9, 12, 16)])
