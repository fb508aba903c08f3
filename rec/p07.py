"""Declaration win: positions around every threshold of the 27-point rule."""
import gen
import obs
import p01

CAP = {1: 18, 2: 4, 3: 4, 4: 4, 5: 2, 6: 2, 7: 4}


def entering(rng):
    """Black's king near the enemy camp, about ten pieces inside, about 28 points."""
    for _ in range(200):
        pos = gen.Pos()
        b = pos.b
        c = 0
        pos.ply = rng.randint(1, 300)
        kr = rng.choice([0, 1, 2, 2, 2, 3])
        b[9 * rng.randrange(9) + kr] = 8
        while True:
            k = 9 * rng.randrange(9) + rng.randrange(5, 9)
            if not b[k]:
                b[k] = 24
                break
        stock = dict(CAP)
        inside = rng.choice([8, 9, 9, 10, 10, 10, 11, 13])
        n = 0
        want = rng.choice([24, 26, 27, 27, 28, 28, 29, 31])
        pts = 0
        for _ in range(200):
            if n >= inside:
                break
            pt = rng.choice([p for p in stock if stock[p]])
            if pt in (5, 6) and rng.random() < 0.4:
                continue
            x = 9 * rng.randrange(9) + rng.randrange(3)
            pro = pt + 8 if pt <= 6 and rng.random() < 0.6 else pt
            if b[x] or gen.dead_end(pro, 0, x) or (pro == 1 and any(b[9 * (x // 9) + r] == 1 for r in range(9))):
                continue
            b[x] = pro
            stock[pt] -= 1
            n += 1
            pts += 5 if pt in (5, 6) else 1
        # distractors outside the camp and of the other side
        for _ in range(rng.randint(0, 10)):
            have = [p for p in stock if stock[p]]
            pt = rng.choice(have)
            x = rng.randrange(81)
            col = rng.randrange(2)
            if col == 0 and x % 9 <= 2:
                continue
            pro = pt + 8 if pt <= 6 and rng.random() < 0.4 else pt
            if b[x] or gen.dead_end(pro, col, x) or (pro == 1 and any(b[9 * (x // 9) + r] == 1 + 16 * col for r in range(9))):
                continue
            b[x] = pro + 16 * col
            stock[pt] -= 1
        # hand up to the wanted points
        order = [p for p in stock for _ in range(stock[p])]
        rng.shuffle(order)
        for pt in order:
            v = 5 if pt in (5, 6) else 1
            if pts + v <= want:
                pos.h[0][gen.SLOT[pt]] += 1
                pts += v
            elif rng.random() < 0.4:
                pos.h[1][gen.SLOT[pt]] += 1
        if rng.random() < 0.15:
            pos.t = 1
        if gen.in_check(pos, 1 - pos.t):
            continue
        if gen.in_check(pos, pos.t) and rng.random() < 0.6:
            continue
        if not gen.plausible_check(pos):
            continue
        ks = [gen.king(b, 0), gen.king(b, 1)]
        if abs(ks[0] // 9 - ks[1] // 9) <= 1 and abs(ks[0] % 9 - ks[1] % 9) <= 1:
            continue
        return pos
    return gen.any_position(rng)


def session(s, i, rng, tier):
    pos = entering(rng)
    if rng.random() < 0.5:
        pos = pos.rot()
    b = p01.setup(s, rng, pos)
    s.emit("set", ab=pos.b, ah=pos.h, at=pos.t, aply=pos.ply, nyu=b.is_nyugyoku(), chk=b.is_check())
    for _ in range(rng.choice([0, 2, 4])):
        lm = list(b.legal_moves)
        if not lm:
            break
        m = gen.choose(rng, lm, "sharp")
        b.push(m)
        s.emit("push", m=m, nyu=b.is_nyugyoku(), chk=b.is_check())
