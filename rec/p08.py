"""Fixed-depth mate search: every answer comes with a certificate the specification checks."""
import gen
import obs
import p01
import solver
from cshogi import Board


def kings(pos):
    return gen.king(pos.b, 0) >= 0 and gen.king(pos.b, 1) >= 0


def attacking(rng):
    """A position with an exposed enemy king: attackers and a few defenders around it, pieces in hand."""
    while True:
        pos = gen.Pos()
        pos.t = 0
        pos.ply = rng.choice([1, 1, 30, 120])
        kw = gen._king_square(rng) if rng.random() < 0.7 else 9 * rng.randrange(9) + rng.randrange(3)
        kb = rng.choice([44, 80, 8, 36, rng.randrange(81)])
        if abs(kw // 9 - kb // 9) <= 1 and abs(kw % 9 - kb % 9) <= 1:
            continue
        pos.b[kw], pos.b[kb] = 24, 8
        stock = dict(gen.FULL)
        for _ in range(rng.randint(2, 9)):
            pt = rng.choice([p for p in stock if stock[p]])
            c = 0 if rng.random() < 0.6 else 1
            s = gen._near(rng, kw, rng.choice([1, 2, 2, 3, 4, 8]))
            p = pt + 8 if pt <= 6 and rng.random() < 0.3 else pt
            if pos.b[s] or gen.dead_end(p, c, s):
                continue
            pos.b[s] = p + 16 * c
            stock[pt] -= 1
        for _ in range(rng.randint(0, 4)):
            pt = rng.choice([p for p in stock if stock[p]])
            pos.h[0 if rng.random() < 0.7 else 1][gen.SLOT[pt]] += 1
            stock[pt] -= 1
        if gen.ok(pos):
            return pos if rng.random() < 0.5 else pos.rot()


def screen(rng):
    """A line piece aimed at the king with one of its own pieces in the way: mates by discovered and double check."""
    while True:
        pos = gen.Pos()
        pos.ply = 1
        kw = gen._king_square(rng) if rng.random() < 0.7 else rng.randrange(81)
        line = rng.choice([2, 5, 6, 6, 13, 14])
        dirs = [(0, 1)] if line == 2 else gen.SLIDE[line]
        df, dr = rng.choice(dirs)
        ray = []
        f, r = kw // 9 + df, kw % 9 + dr
        while 0 <= f < 9 and 0 <= r < 9:
            ray.append(9 * f + r)
            f, r = f + df, r + dr
        if len(ray) < 2:
            continue
        z = rng.randrange(1, len(ray))
        y = rng.randrange(0, z)
        front = rng.choice([1, 2, 3, 4, 4, 5, 6, 7, 9, 10, 11, 12, 12, 13, 14])
        if gen.dead_end(front, 0, ray[y]):
            continue
        pos.b[kw], pos.b[ray[z]], pos.b[ray[y]] = 24, line, front
        stock = dict(gen.FULL)
        for p in (line, front):
            stock[p - 8 if p > 8 else p] -= 1
        for _ in range(rng.randint(2, 8)):
            s = gen._near(rng, kw, rng.choice([1, 2, 2, 3]))
            c = 0 if rng.random() < 0.5 else 1
            pt = rng.choice([p for p in stock if stock[p]])
            p = pt + 8 if pt <= 6 and rng.random() < 0.3 else pt
            if pos.b[s] or s in ray[:z] or gen.dead_end(p, c, s):
                continue
            pos.b[s] = p + 16 * c
            stock[pt] -= 1
        free = [x for x in range(81) if not pos.b[x] and x not in ray[:z] and (abs(x // 9 - kw // 9) > 1 or abs(x % 9 - kw % 9) > 1)]
        pos.b[rng.choice(free)] = 8
        for _ in range(rng.choice([0, 0, 1, 2])):
            pt = rng.choice([p for p in stock if stock[p]])
            pos.h[rng.randrange(2)][gen.SLOT[pt]] += 1
            stock[pt] -= 1
        if min(stock.values()) >= 0 and gen.ok(pos):
            return pos if rng.random() < 0.5 else pos.rot()


def far(rng):
    """A line piece can be dropped (or stands ready) some squares from a hemmed-in king; the defender holds pawns only, and has pawns on some files."""
    while True:
        pos = gen.Pos()
        pos.ply = 1
        kw = gen._king_square(rng)
        line = rng.choice([2, 5, 6])
        df, dr = rng.choice([(0, 1)] if line == 2 else gen.SLIDE[line])
        ray = gen._ray(kw, (df, dr))
        if len(ray) < 2:
            continue
        ray = ray[:rng.choice([2, 3, 3, 4])]
        pos.b[kw] = 24
        pos.h[0][gen.SLOT[line]] = 1
        for x in ray[:2]:                    # a pawn of the defender on the files of the line
            if rng.random() < 0.6:
                q = [9 * (x // 9) + r for r in range(8) if 9 * (x // 9) + r not in ray and not pos.b[9 * (x // 9) + r]]
                if q and not any(pos.b[9 * (x // 9) + r] == 17 for r in range(9)):
                    pos.b[rng.choice(q)] = 17
        if 0 in (df, dr) and len(ray) > 1 and rng.random() < 0.5:   # another line piece looks past the king through the line
            sd = rng.choice([1, -1])
            d = (df + sd * dr, dr + sd * df)
            q = [x for x in gen._ray(ray[1], d) if not pos.b[x]]
            if q:
                pos.b[rng.choice(q[:3])] = rng.choice([5, 13])
        if rng.random() < 0.7:
            pos.h[1][0] = 1
        gen._fill(rng, pos, rng.randint(2, 5), [kw], set(ray), colour=1, near=(1, 1, 1, 2))
        gen._fill(rng, pos, rng.randint(1, 5), [kw], set(ray), colour=0, near=(1, 2, 2, 3))
        free = [x for x in range(81) if not pos.b[x] and x not in ray and (abs(x // 9 - kw // 9) > 1 or abs(x % 9 - kw % 9) > 1)]
        pos.b[rng.choice(free)] = 8
        if gen.ok(pos):
            return pos if rng.random() < 0.5 else pos.rot()


def cycle(s, rng, b):
    """Check, evasion, and both men back again: the position before the check for a second time, the check a repetition."""
    lm = list(b.legal_moves)
    back = lambda m, q: [x for x in q if gen.mv_from(x) == gen.mv_to(m) and gen.mv_to(x) == gen.mv_from(m) and not gen.mv_pro(x)]
    for m in rng.sample(lm, len(lm)):
        if gen.mv_from(m) >= 81 or gen.mv_cap(m) or gen.mv_pro(m):
            continue
        c = Board(b.sfen())
        c.push(m)
        if not c.is_check():
            continue
        for r in [x for x in c.legal_moves if gen.mv_from(x) < 81 and not gen.mv_cap(x) and not gen.mv_pro(x)][:6]:
            c.push(r)
            if not c.is_check():
                for m2 in back(m, c.legal_moves):
                    c.push(m2)
                    for r2 in back(r, c.legal_moves):
                        for x in (m, r, m2, r2):
                            b.push(x)
                            s.emit("push", m=x)
                        return True
                    c.pop()
            c.pop()
    return False


def counter(rng, pos):
    """The attacking king stands on a line with the defending king, a defending line piece behind that: moves of the defender give check."""
    q = pos.copy()
    us = q.t
    kd, ka = gen.king(q.b, 1 - us), gen.king(q.b, us)
    line = rng.choice([5, 6, 6, 13, 14, 2])
    df, dr = rng.choice([(0, 1 if us == 0 else -1)] if line == 2 else gen.SLIDE[line])

    def ray(sf, sr):
        out = []
        f, r = kd // 9 + sf, kd % 9 + sr
        while 0 <= f < 9 and 0 <= r < 9:
            out.append(9 * f + r)
            f, r = f + sf, r + sr
        return out
    there, behind = ray(df, dr)[1:], ray(-df, -dr)
    if not there or not behind:
        return pos
    q.b[ka] = 0
    a, d = rng.choice(there), rng.choice(behind[:4])
    if q.b[a] or q.b[d] or gen.dead_end(line, 1 - us, d):
        return pos
    q.b[a], q.b[d] = 8 + 16 * us, line + 16 * (1 - us)
    if rng.random() < 0.6:
        for x in ray(df, dr)[:ray(df, dr).index(a)] + behind[:behind.index(d)]:
            if q.b[x] and rng.random() < 0.8:
                q.b[x] = 0
    base = line - 8 if line > 8 else line
    n = sum(1 for p in q.b if p & 15 in (base, base + 8)) + q.h[0][gen.SLOT[base]] + q.h[1][gen.SLOT[base]]
    return q if n <= gen.FULL[base] and gen.ok(q) else pos


def counterdrop(rng, pos):
    """The attacking king stands where a piece dropped near the defending king would attack it, and the defender holds that piece."""
    q = pos.copy()
    us = q.t
    kd, ka = gen.king(q.b, 1 - us), gen.king(q.b, us)
    x = gen._ray(kd, rng.choice(gen.SLIDE[5] + gen.SLIDE[6]))[:3]
    if not x or q.b[rng.choice(x)]:
        return pos
    x = rng.choice([y for y in x if not q.b[y]])
    i = rng.randrange(7)
    pt = gen.HAND_ORDER[i]
    g = 1 if us == 1 else -1                # the defender's forward
    to = [9 * (x // 9 + g * a) + x % 9 + g * e for a, e in gen.STEP.get(pt, []) if 0 <= x // 9 + g * a < 9 and 0 <= x % 9 + g * e < 9]
    for a, e in gen.SLIDE.get(pt, []):
        for y in gen._ray(x, (g * a, g * e)):
            if q.b[y]:
                break
            to.append(y)
    to = [y for y in to if not q.b[y] and (abs(y // 9 - kd // 9) > 1 or abs(y % 9 - kd % 9) > 1)]
    if not to or gen.dead_end(pt, 1 - us, x):
        return pos
    q.b[ka] = 0
    q.b[rng.choice(to)] = 8 + 16 * us
    n = sum(1 for p in q.b if (p & 15) in ((pt, pt + 8) if pt < 7 else (7,))) + q.h[0][i] + q.h[1][i]
    if q.h[1 - us][i] == 0:
        if n >= gen.FULL[pt]:
            return pos
        q.h[1 - us][i] += 1
    return q if gen.ok(q) else pos


def hands(rng, pos):
    """The same board with other pieces in hand: the defender holds a single piece or two, the attacker may hold one fewer."""
    q = pos.copy()
    them = 1 - q.t
    used = {p: 0 for p in gen.FULL}
    for p in q.b:
        t = p & 15
        t = t - 8 if t > 8 else t
        if t in used:
            used[t] += 1
    for i, p in enumerate(gen.HAND_ORDER):
        used[p] += q.h[q.t][i]
        q.h[them][i] = 0
    if rng.random() < 0.2 and any(q.h[q.t]):
        q.h[q.t][rng.choice([i for i in range(7) if q.h[q.t][i]])] -= 1
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        free = [i for i, p in enumerate(gen.HAND_ORDER) if used[p] < gen.FULL[p]]
        if free:
            i = rng.choice(free)
            q.h[them][i] += 1
            used[gen.HAND_ORDER[i]] += 1
    return q


def pick(rng, tries=12):
    """Mostly positions with a mate, or one small change away from one."""
    pos = None
    for _ in range(tries):
        k = rng.random()
        pos = attacking(rng) if k < 0.4 else screen(rng) if k < 0.65 else far(rng) if k < 0.85 else gen.any_position(rng)
        if not kings(pos):
            continue
        k = rng.random()
        if k < 0.4:
            pos = counter(rng, pos) if k < 0.25 else counterdrop(rng, pos)
        b = Board(gen.sfen(pos))
        if (not b.is_check() and b.mate_move_in_1ply()) or b.mate_move(3):
            break
    while not kings(pos):
        pos = attacking(rng)
    k = rng.random()
    if k < 0.25:
        return hands(rng, pos)
    if rng.random() < 0.45:
        q = gen.mutate(rng, pos)
        if kings(q):
            pos = q
    return pos


def claim(got, find, **x):
    """A mate that was claimed, with its certificate; left out in the rare case that finding one takes too long."""
    try:
        c = find()
    except solver.Timeout:
        return
    got.append(dict(x, c=[["none"]] if c is None else c))


def look(s, rng, b, tier, heavy):
    d = {}
    before = b.zobrist_hash()
    if not b.is_check():
        m = b.mate_move_in_1ply()
        d["m1"] = m
    mates = []
    for n in ([3, 5] if heavy else [3]):
        m = b.mate_move(n)
        claim(mates, lambda: solver.Solver(b).after(m, n) if m else [], n=n, r=m)
    d["mate"] = mates
    if b.is_check():
        im = []
        for n in ([2, 4] if heavy else [2]):
            r = b.is_mate(n)
            claim(im, lambda: solver.Solver(b).lost(n) if r else [], n=n, r=r)
        d["ismate"] = im
    else:
        d["ismate"] = [dict(n=2, r=b.is_mate(2), c=[])]
    d.update(obs.basic(b))
    d["same"] = before == b.zobrist_hash()
    return d


def session(s, i, rng, tier):
    pos = pick(rng)
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply)
    heavy = i % 2 == 0
    s.emit("obs", **look(s, rng, b, tier, heavy))
    if i % 4 == 1 and not b.is_check():
        for _ in range(rng.choice([1, 2, 3])):
            if not cycle(s, rng, b):
                break
            s.emit("obs", **look(s, rng, b, tier, heavy))
    for _ in range(rng.choice([0, 1, 1, 2])):
        lm = list(b.legal_moves)
        if not lm:
            break
        m = b.mate_move(3) if rng.random() < 0.7 else 0
        m = m or gen.choose(rng, lm, "sharp")
        b.push(m)
        s.emit("push", m=m)
        s.emit("obs", **look(s, rng, b, tier, heavy))
